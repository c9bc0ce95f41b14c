"""What each check runs."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "gen"), os.path.join(VERIF, "tools")]
import g11  # noqa: E402
import g19  # noqa: E402
import g21  # noqa: E402
import g22  # noqa: E402
import g23  # noqa: E402
import g26  # noqa: E402
import g26h  # noqa: E402
import g28  # noqa: E402
import diffs  # noqa: E402
import progs  # noqa: E402


VLA_RULE = ("A case draws three allocators (max_size, reallocation behaviour, copy selection) and a history of up to 60 "
            "operations over three arrays; it is non-trivial when at least 3 operations ran and at least 2 of them were "
            "interesting (a resize/assign/reserve/shrink, a copy or move of more than one element, a request over the "
            "limit, or an injected failure that fired). Distinct by hash of all choices drawn.")
VLA_ASSUME = ["Arguments do not refer to elements of the array being modified (except where stated).",
              "Sizes up to 60 elements (300 bits); allocators are deterministic and honest about max_size."]

LEVEL_NOTE = ("Bounded random exploration: a fixed number of generated histories per run (a function of VERIF_SEED), every "
              "observable compared with the model after every step, under ASan+UBSan; failures are shrunk and replayed.")

Q_EXC = {"quick": ["clang14"], "thorough": ["clang14", "gcc20", "rel17"]}
Q_BOTH = {"quick": ["clang14", "noexc14"], "thorough": ["clang14", "gcc20", "rel17", "noexc14", "noexcrel14"]}

UV_RULE = ("A case is a history of up to 30 (thorough: 60) operations over four variants of one configuration (footprint, "
           "copyable, movable, alignment, memory resource) and ten value types; it is non-trivial when at least 3 operations "
           "ran, at least one of them transferred a value between variants and (C08) at least one injected failure fired. "
           "Distinct by hash of all choices drawn.")
UV_ASSUME = ["A value is not assigned from a reference into the same variant; self-move only has to leave a valid state.",
             "Memory resources are honest and deterministic; injected failures hit allocations and value constructors."]


def uv_units(what):
    return [("C07", Q_BOTH, ["-DPART=%d" % p, "-DWHAT=%d" % what]) for p in (1, 2, 3)]


Q_17 = {"quick": ["clang17", "noexc14"], "thorough": ["clang17", "clang14", "gcc20", "rel17", "noexc14", "noexcrel14"]}

Q_VAL = {"quick": ["clang17", "clang14", "noexc14"], "thorough": ["clang17", "clang14", "noexc14", "gcc20", "rel17", "noexc17"]}

PROPS = {
    "C01": dict(units=[("C01", Q_BOTH, ["-DPART=1"]), ("C01", Q_BOTH, ["-DPART=2"])], rule=VLA_RULE, assumptions=VLA_ASSUME),
    "C02": dict(units=[("C02", Q_BOTH, [])], rule=VLA_RULE, assumptions=VLA_ASSUME),
    "C03": dict(units=[("C03", Q_BOTH, [])], rule=VLA_RULE, assumptions=VLA_ASSUME),
    "C04": dict(units=[("C04", Q_EXC, ["-DPART=1"]), ("C04", Q_BOTH, ["-DPART=2"]), ("C04", Q_BOTH, ["-DPART=3"])], rule=VLA_RULE, assumptions=VLA_ASSUME),
    "C05": dict(units=[("C05", Q_BOTH, [])], rule=VLA_RULE, assumptions=VLA_ASSUME),
    "C06": dict(units=[("C06", Q_EXC, [])], rule=VLA_RULE, assumptions=VLA_ASSUME),
    "C07": dict(units=uv_units(7), rule=UV_RULE, assumptions=UV_ASSUME),
    "C08": dict(units=uv_units(8), rule=UV_RULE, assumptions=UV_ASSUME),
    "C09": dict(units=uv_units(9), rule=UV_RULE, assumptions=UV_ASSUME),
    "C10": dict(units=[("C10", Q_BOTH, [])], rule="A case is a history of up to 30 (thorough: 60) operations over four functions and six "
                "kinds of callables, half of the cases with injected failures; it is non-trivial when at least 3 operations ran, at "
                "least one moved or copied a target between functions and at least one call was made; or one call through one of 27 signatures to a "
                "callable that takes its arguments by value, reference or category, compared with std::function (always non-trivial). Distinct by "
                "hash of all choices.",
                assumptions=["Callables are copyable objects or functions whose moves do not throw.",
                             "Null function pointers and pointers to members are not stored."]),
    "C12": dict(units=[("C12", Q_BOTH, [])], rule="A case is a history of up to 30 (thorough: 60) creations, moves, self-moves, swaps, resets "
                "and releases over twelve owning pointers of four kinds and three resources, half of the cases with injected failures; it "
                "is non-trivial when at least 3 operations ran, 2 objects were made and one was transferred; or a history of up to 20 (thorough: 40) copies, moves, "
                "assignments and calls of deleters as values (non-trivial: one assignment and one release), or one creation with 0 to 3 arguments of generated value "
                "and category (non-trivial: two arguments). Distinct by hash of all choices.",
                assumptions=["A MemoryResourceDeleter that was moved from is not moved from again before it is assigned (asserted precondition).",
                             "Deleters own one object (arrays of objects are not made by the factories)."]),
    "C13": dict(units=[("C13", Q_17, [])], rule="A case is a buffer (size, misalignment) or array resource with an upstream limit and up to 30 "
                "(thorough: 60) allocations, reallocations and deallocations; it is non-trivial when the buffer served a request and upstream "
                "served one, a reallocation succeeded or a request failed. Distinct by hash of all choices.",
                assumptions=["Reallocation keeps the alignment of the block and asks for at least one byte (other uses are implementation defined).",
                             "Upstream is honest; buffers up to 300 bytes, alignments up to 256."]),
    "C14": dict(units=[("C14", Q_17, [])], rule="A case is a constructor, an initial buffer (0 to 400 bytes, any misalignment) or size, an upstream "
                "with a size limit and up to 40 (thorough: 80) allocations, deallocations and releases; it is non-trivial when at least three "
                "allocations succeeded and two blocks came from upstream, a release happened or a request failed. Distinct by hash of all choices.",
                assumptions=["Upstream is honest: it serves every request within its size and alignment limit unless a failure is injected, and never "
                             "reports a max_size smaller than what it serves."]),
    "C15": dict(units=[("C15", Q_17, [])], rule="A case is a history of allocations, reallocations, deallocations and comparisons over one to three "
                "resources and an object type (non-trivial: at least four steps and a failed or moved request or several resources), or one construct() "
                "call on an object or pair whose members support no, the leading, the trailing or both conventions, with arguments of generated value, "
                "value category and constness (non-trivial: a pair or two arguments). Distinct by hash of all choices.",
                assumptions=["Pairs of pairs are not generated: C++17 and C++20 differ in whether the allocator reaches them."]),
    "C16": dict(units=[("C16", {"quick": ["clang17", "noexc14"], "thorough": ["clang17", "clang14", "gcc20", "noexc14"]}, []),
                       ("C16", {"quick": ["rel17", "tsan"], "thorough": ["rel17", "tsan"]}, ["-DTHREADS", "-pthread"]),
                       ("C16", {"quick": ["tsan"], "thorough": ["tsan", "rel17"]}, ["-DFIRST_USE", "-pthread"])],
                rule="A case is a history of up to 30 calls on the process-wide resources (non-trivial: at least two setter calls and an object or block "
                "using a resource), or 2 to 6 threads calling setters and getters concurrently, also as the first calls of a fresh process (always "
                "non-trivial). Distinct by hash of all choices; the schedule itself is the operating system's.",
                assumptions=["The thread schedules are those of the operating system; data races are found by happens-before analysis (ThreadSanitizer), "
                             "lost updates by repetition."]),
    "C18": dict(units=[("C18", Q_VAL, ["-DPART=%d" % p]) for p in (1, 2, 3)],
                rule="A case is a history of up to 30 (thorough: 60) constructions, assignments, emplacements, swaps, accesses and comparisons over three "
                "variants of one of 14 lists of alternatives, applied to pf17::variant and to a reference, half of the cases with injected exceptions; it is "
                "non-trivial when at least 3 operations ran and at least one changed the alternative or value of a variant. Distinct by hash of all choices.",
                assumptions=["The reference is the wording of the standard for std::variant spelled out in the harness; it was compared with libstdc++ where "
                             "that does not use its permission to avoid the valueless state.",
                             "After an exception from a swap of variants holding different alternatives only their validity is prescribed.",
                             "Alternatives do not overload the address-of operator; self-move is not generated."]),
    "C27": dict(units=[("C27", {"quick": ["noexc14", "noexcrel14"], "thorough": ["noexc14", "noexcrel14", "noexc17"]}, [])],
                rule="A case is a view, variant, unbounded variant or function in a generated state and one checked access to it, made in a child process; it is "
                "non-trivial when the access has to end the program. Distinct by hash of all choices.",
                assumptions=["optional::value() of an empty optional is documented as undefined without exceptions and not asked for."]),
    "C24": dict(units=[("C24", Q_17, ["-I", os.path.join(VERIF, "lib", "o1heap")])],
                rule="A case is one or two heaps on generated storage and up to 40 (thorough: 80) allocations and deallocations; it is non-trivial when two "
                "requests were served and one was refused or a block freed. Distinct by hash of all choices.",
                assumptions=["o1heap itself is not installed here; the check links a stand-in with the same interface and contract (blocks aligned to "
                             "O1HEAP_ALIGNMENT and no better)."]),
    "C25": dict(units=[("C25", Q_17, [])],
                rule="A case is a stack of up to four buffer, array and monotonic resources (each over any earlier one, at the bottom a resource with a "
                "limit), 2 to 8 containers, variants, functions, owning pointers and blocks that live in any of them, and up to 60 (thorough: 120) operations "
                "on them including transfers between resources, half of the cases with injected failures; it is non-trivial when at least 5 operations ran "
                "over at least one library resource. Distinct by hash of all choices.",
                assumptions=["Arrays of elements that are not trivially copyable live in resources that do not relocate blocks on reallocation (see the "
                             "known finding of C01).",
                             "The bottom resource is honest and deterministic."]),
    "C17": dict(units=[("C17", Q_VAL, ["-DPART=%d" % p]) for p in (1, 2, 3)],
                rule="A case is a history of up to 30 (thorough: 60) constructions, assignments, emplacements, swaps, accesses and comparisons over three "
                "optionals of one of 22 contained types and two optionals of a convertible type, applied to pf17::optional and to a reference, half of the "
                "cases with injected exceptions; it is non-trivial when at least 3 operations ran and at least one left its optional engaged. Distinct by "
                "hash of all choices.",
                assumptions=["The reference is std::optional (C++17 and newer) or the wording of the standard spelled out in the harness (C++14).",
                             "Contained types do not overload the address-of operator; self-move is not generated; conversions of optional<U> to "
                             "optional<bool> are not generated (the standard changed there)."]),
    "C11": dict(units=[], programs=[progs.check(g11, "g11")],
                rule="A case is a hierarchy of up to 8 (thorough: 12) classes (multiple, virtual and repeated inheritance, identifiers that are often "
                "prefixes of or one byte away from each other); for an object of each class every cast between classes of the hierarchy and to "
                "unrelated ones is compared with dynamic_cast. It is non-trivial when a class has two bases or a chain of three exists. Distinct by hash "
                "of the description.",
                assumptions=["dynamic_cast of the compiler is right; classes are the ones that declare their bases to the helper or override the two "
                             "documented functions correctly.",
                             "A base that an object contains more than once (ambiguous) is not asked for."]),
    "C19": dict(units=[("C19", Q_VAL, ["-DPART=%d" % p]) for p in (1, 2, 3)], programs=[progs.check(g19, "g19")],
                rule="A case is a visit of 0 to 4 variants in generated states and value categories with one of ten kinds of visitors, compared with "
                "what the alternatives and categories demand (non-trivial when two variants are visited, one is valueless or a value is moved), or a "
                "generated program: up to 6 (thorough: 10) callables passed to make_overloaded and 8 argument lists, compared with a class that spells "
                "the overloads out (non-trivial with two callables). Distinct by hash of all choices.",
                assumptions=["Callables are classes that can be derived from; no two of them have the same parameters and qualifiers."]),
    "C20": dict(units=[("C20", Q_VAL, [])],
                rule="A case is a history of up to 30 (thorough: 60) constructions, cuts, substrings, copies, comparisons, searches and stream outputs over "
                "three views of one of six combinations of character type and traits, compared with std::basic_string (and std::basic_string_view from "
                "C++17 on) of the same characters; it is non-trivial when at least two queries were made and a view is not empty. Distinct by hash of all "
                "choices.",
                assumptions=["Which of badbit and failbit accompany a failed output, and the width left after one, are not compared.",
                             "Without exceptions no position past the end is passed (it terminates the program)."]),
    "C21": dict(units=[], programs=[progs.check(g21, "g21")],
                rule="A case is a program: a sequence of up to 13 (thorough: 64) elements, one of twelve ways of making a span from it and a chain of up to 7 "
                "(thorough: 13) sub-views, conversions and copies, some of them evaluated at compile time, each compared with the elements and extent it must "
                "denote and, in C++20, with std::span; or eight questions whether a span can be made from something. It is non-trivial when the sequence is "
                "not empty and the chain has two steps. Distinct by hash of the description.",
                assumptions=["Elements are not pointers (static spans refuse them on purpose); arbitrary ranges are not accepted by this span.",
                             "The programs are built with the library's debug assertions enabled."]),
    "C22": dict(units=[], programs=[progs.check(g22, "g22")],
                rule="A case is a program with generated types (each special member defaulted, user written, throwing, deleted) and variants, optionals and "
                "unbounded_variants of them; traits, convertibility and the chosen alternative are compared with the standard library (C++17, 20) and with "
                "the formulas of the standard. It is non-trivial when a generated type is not fully trivial or a conversion has two candidates. Distinct by "
                "hash of the description.",
                assumptions=["The standard library of the compiler is right where it is the oracle; types with a copy operation but a deleted move "
                             "operation are only compared on the basic traits.",
                             "optional<bool> constructed from optional<U> is left out (the standard changed, LWG 3836)."]),
    "C26": dict(units=[], programs=[diffs.check(g26h, "g26h"), diffs.check(g26, "g26")],
                rule="A case is a program of 2 to 4 translation units, each including generated headers in a generated order and using what they provide, "
                "built with one of 24 compiler configurations (non-trivial: two uses in two units), or a program of 4 to 20 (thorough: 40) statements "
                "over the portable names that is built with three (thorough: five) compiler and language combinations whose outputs are compared (always "
                "non-trivial). Distinct by hash of the description.",
                assumptions=["Operations that the polyfills do not have (such as string_view::rfind) and deliberate differences (a copied container keeps its "
                             "resource; over-aligned memory from new_delete_resource in C++14) are not part of the programs.",
                             "The standard library of the compiler is right."]),
    "C23": dict(units=[], programs=[progs.check(g23, "g23")],
                rule="A case is a generated list of types, predicate, set of conversions or of classes with swap functions; the type utilities are compared "
                "with values computed by the generator and, from C++17 on, with the standard library. It is non-trivial unless the list has fewer than two "
                "elements. Distinct by hash of the description.",
                assumptions=["The standard library of the compiler is right where it is the oracle."]),
    "C28": dict(units=[], programs=[progs.check(g28, "g28")],
                rule="A case is a constexpr function making up to 9 (thorough: 23) queries and changes of string views, optionals or variants of generated contents; the compiler "
                "must evaluate it, a run must evaluate it again, and both must give the number computed by the generator and, from C++17 on, the one the same "
                "text gives with the standard library. It is non-trivial when it has at least three steps. Distinct by hash of the description.",
                assumptions=["Only what the standard library can also do in a constant expression of that language version is required: no copies of contents "
                             "that are not trivially copyable, comparisons from C++17 on, swap from C++20 on.",
                             "The standard library of the compiler is right where it is the oracle."]),
}

# Cases are cheap compared with compiling the harness: (quick, thorough) multiples of the numbers in the harnesses.
for _pid, (_q, _t) in {"C01": (4, 4), "C02": (2, 4), "C03": (10, 10), "C04": (10, 10), "C05": (10, 10), "C06": (10, 10), "C07": (2, 3), "C08": (2, 3),
                       "C09": (2, 3), "C10": (12, 10), "C12": (12, 10), "C13": (12, 10), "C14": (12, 10), "C15": (6, 5), "C17": (5, 5), "C18": (4, 4),
                       "C20": (8, 8), "C27": (4, 6), "C24": (12, 10), "C25": (5, 6)}.items():
    PROPS[_pid]["scale"] = {"quick": _q, "thorough": _t}


def replay(info, ctx):
    if info.get("kind") != "program":
        raise RuntimeError("unknown kind of replay file: %s" % info.get("kind"))
    gens = {"g11": g11, "g19": g19, "g21": g21, "g22": g22, "g23": g23, "g26": g26, "g26h": g26h, "g28": g28}
    if info["generator"].startswith("g26"):
        return diffs.replay(gens[info["generator"]], info["generator"], info, ctx)
    return progs.replay(gens[info["generator"]], info["generator"], info, ctx)
