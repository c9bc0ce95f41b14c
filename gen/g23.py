"""C23: generated type lists and predicates; the type utilities against values computed here or by the standard library."""
PRELUDE = '''#include "cetl/type_traits_ext.hpp"
#include "cetl/pf17/type_traits.hpp"
#include "cetl/pf17/utility.hpp"
#include <limits>
#include <type_traits>
#include <string>
#include <tuple>
#include <vector>
#if __cplusplus >= 201703L
#define HAVE_STD 1
#else
#define HAVE_STD 0
#endif
namespace tte = cetl::type_traits_ext;
template <int N> struct K { static constexpr int n = N; };
template <int N> struct V : std::integral_constant<int, N> {};          // a value that is not a bool
struct NoValue {};                                                       // must not be looked at
template <typename A, typename B> struct first_less : std::integral_constant<bool, (A::n < B::n)> {};
template <typename A, typename B, typename C> struct sum_is : std::integral_constant<bool, (A::n + B::n == C::n)> {};
template <typename... T> struct pack { static constexpr std::size_t size = sizeof...(T); };
template <typename...> struct even;
template <typename T> struct even<T> : std::integral_constant<bool, T::n % 2 == 0> {};
template <typename...> struct at_least_3;
template <typename T> struct at_least_3<T> : std::integral_constant<bool, (T::n >= 3)> {};
template <typename...> struct counting;
template <typename T> struct counting<T> : std::integral_constant<int, T::n> {};  // an int, true when it is not zero
'''
COUNTS = {"quick": 1000, "thorough": 8000}
BATCH = 40
VARIANTS = {"quick": ["clang14", "gcc20"], "thorough": ["clang14", "gcc14", "clang17", "gcc17", "clang20", "gcc20"]}
NUM = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long",
       "float", "double", "long double"]
PREDS = {"even": lambda n: n % 2 == 0, "at_least_3": lambda n: n >= 3, "counting": lambda n: n != 0}
NPOS = "std::numeric_limits<std::size_t>::max()"


def swap_type(rng):
    return dict(mc=rng.choice(["default", "default", "deleted", "throwing"]), ma=rng.choice(["default", "default", "deleted", "throwing"]),
                swap=rng.choice(["none", "none", "void", "int", "ref", "deleted", "member"]), noex=rng.random() < 0.5,
                shape=rng.choice(["", "", "", "&", "[3]", "[2][2]", "const", "const&"]))


def make(rng, tier):
    kind = rng.choice(["find", "find", "logic", "logic", "partial", "narrow", "best", "best", "swap", "swap", "tags"])
    big = 12 if tier == "quick" else 40
    if kind == "find":
        return dict(kind=kind, pred=rng.choice(sorted(PREDS)), list=[rng.randrange(0, 6) for _ in range(rng.randrange(0, big))])
    if kind == "logic":
        return dict(kind=kind, list=[rng.choice([0, 0, 1, 1, 2, -1]) for _ in range(rng.randrange(0, 7))], tail=rng.random() < 0.5)
    if kind == "partial":
        return dict(kind=kind, a=rng.randrange(6), b=rng.randrange(6), c=rng.randrange(8), split=rng.randrange(0, 3), n=rng.randrange(0, 6))
    if kind == "narrow":
        return dict(kind=kind, pairs=[[rng.choice(NUM), rng.choice(NUM)] for _ in range(6)])
    if kind == "best":
        ts = rng.sample(NUM, rng.randrange(1, 6))
        return dict(kind=kind, types=ts, froms=[rng.choice(NUM) for _ in range(4)], only=rng.choice(["all", "all", "signed", "same"]))
    if kind == "swap":
        return dict(kind=kind, types=[swap_type(rng) for _ in range(3)])
    return dict(kind=kind, i=rng.randrange(0, 100), t=rng.choice(["int", "void", "const char&", "std::string", "K<3>"]))


def render(d, k):
    t, b = [], []
    if d["kind"] == "find":
        f = PREDS[d["pred"]]
        hits = [i for i, n in enumerate(d["list"]) if f(n)]
        ts = "".join(", K<%d>" % n for n in d["list"])
        first = str(hits[0]) if hits else NPOS
        b.append("CHECK((tte::find_v<%s%s>) == %s, \"find_v %%zu\", (tte::find_v<%s%s>));" % (d["pred"], ts, first, d["pred"], ts))
        b.append("CHECK((tte::find<%s%s>::value) == %s, \"find\");" % (d["pred"], ts, first))
        b.append("CHECK((tte::count_v<%s%s>) == %d, \"count_v %%zu\", (tte::count_v<%s%s>));" % (d["pred"], ts, len(hits), d["pred"], ts))
        b.append("CHECK((tte::count<%s%s>::value) == %d, \"count\");" % (d["pred"], ts, len(hits)))
        for n in range(6):
            idx = d["list"].index(n) if n in d["list"] else None
            b.append("CHECK((tte::find_v<tte::partial<std::is_same, K<%d>>::template type%s>) == %s, \"find K<%d>\");" % (n, ts, NPOS if idx is None else idx, n))
        b.append("CHECK((tte::count_v<tte::universal_predicate%s>) == %d, \"universal\");" % (ts, len(d["list"])))
    elif d["kind"] == "logic":
        l = ["V<%d>" % v for v in d["list"]]
        for name, stop, empty in (("conjunction", lambda v: v == 0, 1), ("disjunction", lambda v: v != 0, 0)):
            xs = list(l)
            pos = next((i for i, v in enumerate(d["list"]) if stop(v)), None)
            if d["tail"] and pos is not None:
                xs.append("NoValue")  # behind the deciding element
            if pos is not None:
                want = d["list"][pos]
            else:
                want = d["list"][-1] if d["list"] else empty
            a = ", ".join(xs)
            b.append("CHECK((cetl::pf17::%s<%s>::value) == %d, \"%s value %%d\", (int) cetl::pf17::%s<%s>::value);" % (name, a, want, name, name, a))
            b.append("CHECK((cetl::pf17::%s_v<%s>) == %s, \"%s_v\");" % (name, a, "true" if want else "false", name))
            base = ("V<%d>" % want) if d["list"] else ("std::true_type" if empty else "std::false_type")
            b.append("CHECK((std::is_base_of<%s, cetl::pf17::%s<%s>>::value), \"%s derives from the deciding element\");" % (base, name, a, name))
            b.append("#if HAVE_STD\nCHECK((cetl::pf17::%s<%s>::value) == (std::%s<%s>::value), \"%s std\");\n#endif" % (name, a, name, a, name))
        for v in d["list"][:3]:
            b.append("CHECK((cetl::pf17::negation<V<%d>>::value) == %s && (cetl::pf17::negation_v<V<%d>>) == %s, \"negation\");" % (v, "false" if v else "true", v, "false" if v else "true"))
            b.append("CHECK((std::is_same<std::remove_const_t<decltype(cetl::pf17::negation<V<%d>>::value)>, bool>::value), \"negation is a bool\");" % v)
        b.append("CHECK((std::is_same<cetl::pf17::void_t<%s>, void>::value), \"void_t\");" % ", ".join(l))
    elif d["kind"] == "partial":
        a = ["K<%d>" % d["a"], "K<%d>" % d["b"], "K<%d>" % d["c"]]
        s = d["split"]
        left = ", ".join(["sum_is"] + a[:s])
        b.append("CHECK((tte::partial<%s>::template type<%s>::value) == %s, \"partial of three\");" % (left, ", ".join(a[s:]), "true" if d["a"] + d["b"] == d["c"] else "false"))
        b.append("CHECK((tte::partial<first_less, K<%d>>::template type<K<%d>>::value) == %s, \"partial less\");" % (d["a"], d["b"], "true" if d["a"] < d["b"] else "false"))
        xs = ["K<%d>" % i for i in range(d["n"])]
        cut = min(s, d["n"])
        b.append("CHECK((std::is_same<tte::partial<%s>::template type<%s>, pack<%s>>::value), \"partial keeps the order\");" % (", ".join(["pack"] + xs[:cut]), ", ".join(xs[cut:]), ", ".join(xs)))
    elif d["kind"] == "narrow":
        t.append("template <typename F, typename T, typename = void> struct array_ok : std::false_type {};\n"
                 "template <typename F, typename T> struct array_ok<F, T, decltype(void(std::declval<void (*)(T (&&)[1])>()({std::declval<F>()})))> : std::true_type {};")
        for f, to in d["pairs"]:
            b.append("CHECK((tte::is_convertible_without_narrowing<%s, %s>::value) == (array_ok<%s, %s>::value), \"%s to %s: %%d\", (int) tte::is_convertible_without_narrowing<%s, %s>::value);" % (f, to, f, to, f, to, f, to))
    elif d["kind"] == "best":
        p = {"all": "tte::universal_predicate", "signed": "std::is_signed", "same": None}[d["only"]]
        t.append("struct over { %s };" % " ".join("static std::integral_constant<std::size_t, %d> f(%s);" % (i, x) for i, x in enumerate(d["types"])))
        t.append("struct over_signed { static std::integral_constant<std::size_t, %s> f(...) = delete; %s };" % (NPOS, " ".join(
            "static std::integral_constant<std::size_t, %d> f(%s);" % (i, x) for i, x in enumerate(d["types"]) if signed(x))))
        t.append("template <typename S, typename U, typename = void> struct best : std::integral_constant<std::size_t, %s> {};\n"
                 "template <typename S, typename U> struct best<S, U, cetl::pf17::void_t<decltype(S::f(std::declval<U>()))>> : decltype(S::f(std::declval<U>())) {};" % NPOS)
        for u in d["froms"]:
            if p is None:
                want = d["types"].index(u) if u in d["types"] else None
                b.append("CHECK((tte::best_conversion_index_v<tte::partial<std::is_same, %s>::template type, %s, %s>) == %s, \"only %s\");" % (u, u, ", ".join(d["types"]), NPOS if want is None else want, u))
            else:
                b.append("CHECK((tte::best_conversion_index_v<%s, %s, %s>) == (best<%s, %s>::value), \"%s: %%zu\", (tte::best_conversion_index_v<%s, %s, %s>));" % (
                    p, u, ", ".join(d["types"]), "over" if d["only"] == "all" else "over_signed", u, u, p, u, ", ".join(d["types"])))
    elif d["kind"] == "swap":
        for i, s in enumerate(d["types"]):
            n = "S%d" % i
            body = "%s() = default; " % n
            body += {"default": "%s(%s&&) = default; " % (n, n), "deleted": "%s(%s&&) = delete; " % (n, n), "throwing": "%s(%s&&) noexcept(false) {} " % (n, n)}[s["mc"]]
            body += {"default": "%s& operator=(%s&&) = default; " % (n, n), "deleted": "%s& operator=(%s&&) = delete; " % (n, n),
                     "throwing": "%s& operator=(%s&&) noexcept(false) { return *this; } " % (n, n)}[s["ma"]]
            ne = " noexcept" if s["noex"] else " noexcept(false)"
            if s["swap"] == "member":
                body += "void swap(%s&)%s {}" % (n, ne)
            t.append("struct %s { %s };" % (n, body))
            own = {"void": "inline void swap(%s&, %s&)%s {}" % (n, n, ne), "int": "inline int swap(%s&, %s&)%s { return 1; }" % (n, n, ne),
                   "ref": "inline %s& swap(%s& a, %s&)%s { return a; }" % (n, n, n, ne), "deleted": "void swap(%s&, %s&) = delete;" % (n, n)}.get(s["swap"])
            if own:
                t.append(own)
            sh = s["shape"]
            t.append("using X%d = %s;" % (i, "%s %s" % (sh, n) if sh == "const" else ("const %s&" % n if sh == "const&" else n + sh)))
            mv = s["mc"] != "deleted" and s["ma"] != "deleted"
            able = {"none": mv, "member": mv, "void": True, "int": True, "ref": True, "deleted": False}[s["swap"]] and "const" not in sh
            nomv = s["mc"] == "default" and s["ma"] == "default"
            nothrow = able and (nomv if s["swap"] in ("none", "member") else s["noex"])
            b.append("CHECK((cetl::pf17::is_swappable<X%d>::value) == %s && (cetl::pf17::is_swappable_v<X%d>) == %s, \"swappable: %%d\", (int) cetl::pf17::is_swappable<X%d>::value);" % (i, str(able).lower(), i, str(able).lower(), i))
            b.append("CHECK((cetl::pf17::is_nothrow_swappable<X%d>::value) == %s && (cetl::pf17::is_nothrow_swappable_v<X%d>) == %s, \"nothrow swappable: %%d\", (int) cetl::pf17::is_nothrow_swappable<X%d>::value);" % (
                i, str(nothrow).lower(), i, str(nothrow).lower(), i))
            b.append("#if HAVE_STD\nCHECK((cetl::pf17::is_swappable<X%d>::value) == (std::is_swappable<X%d>::value) && (cetl::pf17::is_nothrow_swappable<X%d>::value) == (std::is_nothrow_swappable<X%d>::value), \"std\");\n#endif" % (i, i, i, i))
        b.append("CHECK(!cetl::pf17::is_swappable<void>::value && !cetl::pf17::is_nothrow_swappable<void>::value && !cetl::pf17::is_swappable<void()>::value, \"not objects\");")
    else:
        b.append("CHECK((std::is_same<std::decay_t<decltype(cetl::pf17::in_place_index<%d>)>, cetl::pf17::in_place_index_t<%d>>::value), \"in_place_index\");" % (d["i"], d["i"]))
        b.append("CHECK((!std::is_same<cetl::pf17::in_place_index_t<%d>, cetl::pf17::in_place_index_t<%d>>::value), \"in_place_index differs\");" % (d["i"], d["i"] + 1))
        b.append("CHECK((std::is_same<std::decay_t<decltype(cetl::pf17::in_place_type<%s>)>, cetl::pf17::in_place_type_t<%s>>::value), \"in_place_type\");" % (d["t"], d["t"]))
        b.append("CHECK((std::is_default_constructible<cetl::pf17::in_place_t>::value && std::is_default_constructible<cetl::pf17::in_place_index_t<%d>>::value), \"tags\");" % d["i"])
        t.append("template <typename T, typename = void> struct implicit : std::false_type {};\ntemplate <typename T> void give(T);\n"
                 "template <typename T> struct implicit<T, decltype(give<T>({}))> : std::true_type {};")
        b.append("CHECK(!implicit<cetl::pf17::in_place_t>::value && !implicit<cetl::pf17::in_place_index_t<%d>>::value && !implicit<cetl::pf17::in_place_type_t<%s>>::value, \"the tags are explicit\");" % (d["i"], d["t"]))
    return "\n".join(t) + "\nvoid case_%d() {\n    %s\n}\n" % (k, "\n    ".join(b))


def signed(x):
    return x in ("char", "signed char", "short", "int", "long", "long long", "float", "double", "long double")


def shrink(d):
    for f in ("list", "pairs", "froms", "types"):
        if f in d:
            for i in range(len(d[f])):
                if len(d[f]) > 1 or f == "list":
                    yield dict(d, **{f: d[f][:i] + d[f][i + 1:]})
    if d["kind"] == "swap":
        for i, s in enumerate(d["types"]):
            for f, v in (("mc", "default"), ("ma", "default"), ("shape", ""), ("swap", "none")):
                if s[f] != v:
                    yield dict(d, types=d["types"][:i] + [dict(s, **{f: v})] + d["types"][i + 1:])


def nontrivial(d):
    return len(d.get("list", [0, 0])) >= 2


def labels(d):
    return [d["kind"]]


def describe(d):
    import json
    return json.dumps(d)
