"""C22: generated contained types; traits of optional and variant against those of the standard library or their definition."""
PRELUDE = '''#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/unbounded_variant.hpp"
#include "cetl/pmr/function.hpp"
#if __cplusplus >= 201703L
#include <optional>
#include <variant>
#define HAVE_STD 1
#else
#define HAVE_STD 0
#endif
#include <memory>
#include <string>
#include <type_traits>
#define SAME(trait, a, b) CHECK((trait<a>::value) == (trait<b>::value), #trait " %d, expected %d", (int) (trait<a>::value), (int) (trait<b>::value))
template <typename T> struct swap_is_noexcept : std::integral_constant<bool, noexcept(std::declval<T&>().swap(std::declval<T&>()))> {};
template <typename A> void take(A);
template <typename U, typename A, typename = void> struct brace_ok : std::false_type {};
template <typename U, typename A> struct brace_ok<U, A, decltype(take<A>({std::declval<U>()}))> : std::true_type {};
// Known finding narrowing_in_user_conversion: conversions that are possible, but not by list initialization.
template <typename U, typename... A> struct brace_matters : std::false_type {};
template <typename U, typename H, typename... A> struct brace_matters<U, H, A...>
    : std::integral_constant<bool, (std::is_class<H>::value && std::is_convertible<U, H>::value && !brace_ok<U, H>::value) || brace_matters<U, A...>::value> {};
enum Plain { plain_a, plain_b };
enum class Scoped : short { a, b };
struct FromInt { FromInt(int) {} };
struct FromString { FromString(const std::string&) {} FromString(const FromString&) = default; };
struct FromBool { FromBool(bool) {} };
struct ExplicitInt { explicit ExplicitInt(int) {} };
struct FromAny { template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> FromAny(T) {} };
struct ToInt { operator int() const { return 3; } };
struct ToString { operator std::string() const { return "x"; } };
struct ToBoth { operator int() const { return 3; } operator const char*() const { return "x"; } };
struct Base { int b = 0; };
struct Derived : Base { int d = 0; };
struct Agg { int x; int y; };
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
template <typename T> struct make { static T get() { return T(); } };
template <> struct make<FromInt> { static FromInt get() { return FromInt(1); } };
template <> struct make<FromString> { static FromString get() { return FromString(std::string("s")); } };
template <> struct make<FromBool> { static FromBool get() { return FromBool(true); } };
template <> struct make<ExplicitInt> { static ExplicitInt get() { return ExplicitInt(1); } };
template <> struct make<FromAny> { static FromAny get() { return FromAny(1); } };
template <> struct make<const char*> { static const char* get() { return "text"; } };
template <> struct make<char*> { static char* get() { static char t[] = "text"; return t; } };
template <typename V, typename U, bool> struct picked { static int construct(int) { return -1; } static int assign(int) { return -1; } };
template <typename V, typename U> struct picked<V, U, true> {
    static int construct(int) { auto u = make<std::remove_cv_t<std::remove_reference_t<U>>>::get(); V v(static_cast<U>(u)); return (int) v.index(); }
};
template <typename V, typename U, bool> struct assigned { static int index() { return -1; } };
template <typename V, typename U> struct assigned<V, U, true> {
    template <typename... A> static int go(V* p, A...) { return 0; }
    static int index() { alignas(V) static unsigned char mem[sizeof(V)]; V* v = first(mem); if (v == nullptr) { return -2; }
        auto u = make<std::remove_cv_t<std::remove_reference_t<U>>>::get(); *v = static_cast<U>(u); const int r = (int) v->index(); v->~V(); return r; }
    template <typename X = V, std::enable_if_t<std::is_default_constructible<X>::value, int> = 0> static V* first(unsigned char* m) { return new (m) V(); }
    template <typename X = V, std::enable_if_t<!std::is_default_constructible<X>::value, int> = 0> static V* first(unsigned char*) { return nullptr; }
};
'''
COUNTS = {"quick": 240, "thorough": 6000}
BATCH = 15
VARIANTS = {"quick": ["clang17", "gcc20", "clang14"], "thorough": ["clang14", "gcc14", "clang17", "gcc17", "clang20", "gcc20"]}
FLAGS = []

BUILTIN = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "float",
           "double", "const char*", "void*", "const void*", "std::nullptr_t", "Plain", "Scoped", "std::string", "FromInt", "FromString", "FromBool",
           "ExplicitInt", "FromAny", "std::unique_ptr<int>", "Base", "Derived", "Base*", "Derived*", "char16_t", "MoveOnly"]
FROM = BUILTIN + ["ToInt", "ToString", "ToBoth", "char*"]


def special(rng):
    def m(w):
        return rng.choices(["default", "noexcept", "throwing", "deleted", "absent"], w)[0]

    t = dict(dc=m([5, 2, 2, 1, 0]), cc=m([5, 2, 3, 2, 0]), mc=m([5, 2, 3, 1, 2]), ca=m([5, 2, 3, 2, 0]), ma=m([5, 2, 3, 1, 2]),
             dt=rng.choices(["default", "noexcept"], [3, 2])[0], swap=rng.choices(["none", "noexcept", "throwing", "deleted"], [6, 2, 2, 1])[0])
    return t


def make(rng, tier):
    kind = rng.choice(["members", "members", "convert", "convert", "optional", "config"])
    if kind == "members":
        return dict(kind=kind, types=[special(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))])
    if kind == "convert":
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        ts = [rng.choice(BUILTIN) for _ in range(n)]
        src = [f for f in FROM if f != "std::nullptr_t" or "std::string" not in ts]  # a string cannot be made of a null pointer
        return dict(kind=kind, types=ts, froms=[[rng.choice(src), rng.choice(["", "&", "const&", "&&", "const&&"])] for _ in range(4)] +
                    [[rng.choice(ts), rng.choice(["", "&", "const&", "const&&"])]])
    if kind == "optional":
        return dict(kind=kind, type=rng.choice([t for t in BUILTIN if t != "bool"]),
                    froms=[[rng.choice(FROM), rng.choice(["", "&", "const&", "&&", "const&&"])] for _ in range(5)])
    return dict(kind=kind, foot=rng.choice([0, 1, 4, 8, 16, 32, 100]), copy=rng.random() < 0.5, move=rng.random() < 0.5,
                align=rng.choice([1, 2, 4, 8, 16]), pmr=rng.random() < 0.5)


def struct(name, t):
    def b(k, sig, body):
        m = t[k]
        if m == "absent":
            return ""
        if m == "default":
            return "    %s = default;\n" % sig
        if m == "deleted":
            return "    %s = delete;\n" % sig
        return "    %s%s %s\n" % (sig, " noexcept" if m == "noexcept" else " noexcept(false)", body)

    s = "struct %s {\n    int v = 0;\n" % name
    s = "struct %s {\n    int v;\n" % name
    s += b("dc", "%s()" % name, "{ v = 0; }")
    s += b("cc", "%s(const %s& o)" % (name, name) if t["cc"] in ("noexcept", "throwing") else "%s(const %s&)" % (name, name), "{ v = o.v; }")
    s += b("mc", "%s(%s&& o)" % (name, name) if t["mc"] in ("noexcept", "throwing") else "%s(%s&&)" % (name, name), "{ v = o.v; }")
    s += b("ca", "%s& operator=(const %s& o)" % (name, name) if t["ca"] in ("noexcept", "throwing") else "%s& operator=(const %s&)" % (name, name), "{ v = o.v; return *this; }")
    s += b("ma", "%s& operator=(%s&& o)" % (name, name) if t["ma"] in ("noexcept", "throwing") else "%s& operator=(%s&&)" % (name, name), "{ v = o.v; return *this; }")
    if t["dt"] == "noexcept":
        s += "    ~%s() {}\n" % name
    if t["swap"] == "deleted":
        s += "    friend void swap(%s&, %s&) = delete;\n" % (name, name)
    elif t["swap"] != "none":
        s += "    friend void swap(%s&, %s&) %s {}\n" % (name, name, "noexcept" if t["swap"] == "noexcept" else "noexcept(false)")
    return s + "};\n"


def conj(trait, names):
    return " && ".join("std::%s<%s>::value" % (trait, n) for n in names)


def render(d, k):
    t = []
    body = []
    add = body.append
    if d["kind"] == "members":
        names = ["T%d" % i for i in range(len(d["types"]))]
        for n, x in zip(names, d["types"]):
            t.append(struct(n, x))
        n0 = names[0]
        t.append("using CO = cetl::pf17::optional<%s>; using CV = cetl::pf17::variant<%s>;" % (n0, ", ".join(names)))
        sane = all(not (x["mc"] == "deleted" and x["cc"] != "deleted") and not (x["ma"] == "deleted" and x["ca"] != "deleted") for x in d["types"])
        for C, ns in (("CO", [n0]), ("CV", names)) if sane else ():
            cc, mc = conj("is_copy_constructible", ns), conj("is_move_constructible", ns)
            want = {
                "is_copy_constructible": cc,
                "is_move_constructible": mc,
                "is_copy_assignable": cc + " && " + conj("is_copy_assignable", ns),
                "is_move_assignable": mc + " && " + conj("is_move_assignable", ns),
                "is_trivially_destructible": conj("is_trivially_destructible", ns),
                "is_trivially_copy_constructible": conj("is_trivially_copy_constructible", ns),
                "is_trivially_move_constructible": conj("is_trivially_move_constructible", ns),
                "is_trivially_copy_assignable": conj("is_trivially_copy_assignable", ns) + " && " + conj("is_trivially_copy_constructible", ns)
                + " && " + conj("is_trivially_destructible", ns),
                "is_trivially_move_assignable": conj("is_trivially_move_assignable", ns) + " && " + conj("is_trivially_move_constructible", ns)
                + " && " + conj("is_trivially_destructible", ns),
                "is_nothrow_move_constructible": conj("is_nothrow_move_constructible", ns),
                "is_nothrow_move_assignable": conj("is_nothrow_move_constructible", ns) + " && " + conj("is_nothrow_move_assignable", ns) + " && (%s)" % mc,
                "is_default_constructible": "std::is_default_constructible<%s>::value" % n0 if C == "CV" else "true",
            }
            for trait, w in want.items():
                add("CHECK(std::%s<%s>::value == (%s), \"%s %s is %%d\", (int) std::%s<%s>::value);" % (trait, C, w, C, trait, trait, C))
            never = {
                "is_nothrow_copy_constructible": conj("is_nothrow_copy_constructible", ns),
                "is_nothrow_copy_assignable": conj("is_nothrow_copy_constructible", ns) + " && " + conj("is_nothrow_copy_assignable", ns),
                "is_nothrow_default_constructible": "true" if C == "CO" else "std::is_nothrow_default_constructible<%s>::value" % n0,
            }
            for trait, w in never.items():
                add("CHECK(!std::%s<%s>::value || (%s), \"%s claims %s\");" % (trait, C, w, C, trait))
        if all(x["swap"] != "deleted" and x["mc"] not in ("deleted",) and x["ma"] not in ("deleted",) for x in d["types"]) and \
           all(not (x["mc"] == "absent" and x["cc"] == "deleted") and not (x["ma"] == "absent" and x["ca"] == "deleted") for x in d["types"]):
            nosw = " && ".join("cetl::pf17::is_nothrow_swappable<%s>::value && std::is_nothrow_move_constructible<%s>::value" % (n, n) for n in names)
            add("CHECK(!swap_is_noexcept<CV>::value || (%s), \"variant claims a noexcept swap\");" % nosw)
            add("CHECK(!swap_is_noexcept<CO>::value || (cetl::pf17::is_nothrow_swappable<T0>::value && std::is_nothrow_move_constructible<T0>::value), \"optional claims a noexcept swap\");")
        t.append("#if HAVE_STD\nusing SO = std::optional<%s>; using SV = std::variant<%s>;\n#endif" % (n0, ", ".join(names)))
        add("#if HAVE_STD")
        for C, S in (("CO", "SO"), ("CV", "SV")):
            for trait in ("is_default_constructible is_copy_constructible is_move_constructible is_copy_assignable is_move_assignable is_trivially_destructible " + ("is_trivially_copy_constructible is_trivially_move_constructible is_trivially_copy_assignable is_trivially_move_assignable "
                          "is_nothrow_move_constructible is_nothrow_move_assignable" if sane else "")).split():
                add("SAME(std::%s, %s, %s);" % (trait, C, S))
        add("#endif")
    elif d["kind"] == "convert":
        ts = ", ".join(d["types"])
        t.append("using CV = cetl::pf17::variant<%s>;\n#if HAVE_STD\nusing SV = std::variant<%s>;\n#endif" % (ts, ts))
        add("#if HAVE_STD")
        for i, (u, c) in enumerate(d["froms"]):
            t.append("using U%d = %s %s;" % (i, u, c if c else "&&"))
            n = "%s %s" % (u, c)
            if not d.get("raw"):
                add("if (!(brace_matters<U%d, %s>::value)) {" % (i, ts))
            add("CHECK((std::is_constructible<CV, U%d>::value) == (std::is_constructible<SV, U%d>::value), \"constructible from %s: %%d\", (int) std::is_constructible<CV, U%d>::value);" % (i, i, n, i))
            add("CHECK((std::is_convertible<U%d, CV>::value) == (std::is_convertible<U%d, SV>::value), \"convertible from %s\");" % (i, i, n))
            add("CHECK((std::is_assignable<CV&, U%d>::value) == (std::is_assignable<SV&, U%d>::value), \"assignable from %s: %%d\", (int) std::is_assignable<CV&, U%d>::value);" % (i, i, n, i))
            add("CHECK(!(std::is_nothrow_constructible<CV, U%d>::value) || (std::is_nothrow_constructible<SV, U%d>::value), \"claims noexcept construction from %s\");" % (i, i, n))
            add("CHECK(!(std::is_nothrow_assignable<CV&, U%d>::value) || (std::is_nothrow_assignable<SV&, U%d>::value), \"claims noexcept assignment from %s\");" % (i, i, n))
            add("{ const int g = picked<CV, U%d, std::is_constructible<CV, U%d>::value>::construct(0), w = picked<SV, U%d, std::is_constructible<SV, U%d>::value>::construct(0); CHECK(g == w, \"%s selects %%d, std::variant %%d\", g, w); }" % (i, i, i, i, n))
            add("{ const int g = assigned<CV, U%d, std::is_assignable<CV&, U%d>::value>::index(), w = assigned<SV, U%d, std::is_assignable<SV&, U%d>::value>::index(); CHECK(g == w, \"assigning %s selects %%d, std::variant %%d\", g, w); }" % (i, i, i, i, n))
            if not d.get("raw"):
                add("}")
        add("#else")
        for i, (u, c) in enumerate(d["froms"]):
            if u in d["types"] and d["types"].count(u) == 1 and u not in ("std::unique_ptr<int>", "MoveOnly"):
                add("CHECK((picked<CV, U%d, std::is_constructible<CV, U%d>::value>::construct(0)) == %d, \"the own type %s is not selected\");" % (i, i, d["types"].index(u), u))
        add("#endif")
    elif d["kind"] == "optional":
        t.append("using CO = cetl::pf17::optional<%s>;\n#if HAVE_STD\nusing SO = std::optional<%s>;\n#endif" % (d["type"], d["type"]))
        add("#if HAVE_STD")
        for i, (u, c) in enumerate(d["froms"]):
            t.append("using U%d = %s %s;" % (i, u, c if c else "&&"))
            t.append("using CU%d = cetl::pf17::optional<%s> %s;\n#if HAVE_STD\nusing SU%d = std::optional<%s> %s;\n#endif" % (i, u, c if c else "&&", i, u, c if c else "&&"))
            for U, V in (("U", "U"), ("CU", "SU")):
                n = ("optional of " if U == "CU" else "") + "%s %s" % (u, c)
                U, V = U + str(i), V + str(i)
                add("CHECK((std::is_constructible<CO, %s>::value) == (std::is_constructible<SO, %s>::value), \"constructible from %s\");" % (U, V, n))
                add("CHECK((std::is_convertible<%s, CO>::value) == (std::is_convertible<%s, SO>::value), \"convertible from %s\");" % (U, V, n))
                add("CHECK((std::is_assignable<CO&, %s>::value) == (std::is_assignable<SO&, %s>::value), \"assignable from %s: %%d\", (int) std::is_assignable<CO&, %s>::value);" % (U, V, n, U))
                add("CHECK(!(std::is_nothrow_constructible<CO, %s>::value) || (std::is_nothrow_constructible<%s, %s>::value), \"claims noexcept construction from %s\");" %
                    (U, d["type"], "U%d" % i, n))
        add("#endif")
    else:
        al = "unsigned char" if False else ""
        t.append("using UV = cetl::unbounded_variant<%d, %s, %s, %d%s>;" % (d["foot"] if d["foot"] or d["pmr"] else 8, str(d["copy"]).lower(), str(d["move"]).lower(), d["align"],
                                                                             ", cetl::pf17::pmr::memory_resource" if d["pmr"] else ""))
        for trait, w in (("is_copy_constructible", d["copy"]), ("is_move_constructible", d["move"] or d["copy"]), ("is_copy_assignable", d["copy"]), ("is_move_assignable", d["move"] or d["copy"]),
                         ("is_destructible", True)):
            add("CHECK(std::%s<UV>::value == %s, \"%s is %%d\", (int) std::%s<UV>::value);" % (trait, str(w).lower(), trait, trait))
        t.append("using FN = cetl::pmr::function<int(int), %d%s>;" % (max(d["foot"], 8), ", cetl::pf17::pmr::memory_resource" if d["pmr"] else ""))
        for trait in "is_copy_constructible is_move_constructible is_copy_assignable is_move_assignable is_destructible".split():
            add("CHECK(std::%s<FN>::value, \"function %s\");" % (trait, trait))
    return "\n".join(t) + "\nvoid case_%d() {\n    %s\n}\n" % (k, "\n    ".join(body))


def shrink(d):
    if d["kind"] == "members":
        for i in range(len(d["types"])):
            if len(d["types"]) > 1:
                yield dict(d, types=d["types"][:i] + d["types"][i + 1:])
        for i, t in enumerate(d["types"]):
            for f, v in t.items():
                simple = "none" if f == "swap" else "default"
                if v != simple:
                    yield dict(d, types=d["types"][:i] + [dict(t, **{f: simple})] + d["types"][i + 1:])
    elif d["kind"] in ("convert", "optional"):
        for i in range(len(d["froms"])):
            if len(d["froms"]) > 1:
                yield dict(d, froms=d["froms"][:i] + d["froms"][i + 1:])
        if d["kind"] == "convert":
            for i in range(len(d["types"])):
                if len(d["types"]) > 1:
                    yield dict(d, types=d["types"][:i] + d["types"][i + 1:])
        for i, (u, c) in enumerate(d["froms"]):
            if c:
                yield dict(d, froms=d["froms"][:i] + [[u, ""]] + d["froms"][i + 1:])


def nontrivial(d):
    return d["kind"] != "members" or any(v not in ("default", "none") for t in d["types"] for v in t.values())


def labels(d):
    return [d["kind"]]


def describe(d):
    import json
    return json.dumps(d)


# Genuine deviations that are listed in known_findings.txt; everything else of their kind is excluded from the generated cases.
KNOWN = {"narrowing_in_user_conversion": ("clang17", dict(kind="convert", types=["FromBool"], froms=[["char16_t", ""]], raw=True))}
