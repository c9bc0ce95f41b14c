"""C21: generated chains of views; pf20::span against the elements it must denote and against std::span."""
PRELUDE = '''#include "cetl/pf20/span.hpp"
#include <array>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <type_traits>
#if __cplusplus >= 202002L
#include <span>
#define STD(...) __VA_ARGS__
#else
#define STD(...)
#endif
using cetl::pf20::span;
constexpr std::size_t DYN = cetl::pf20::dynamic_extent;
struct Pod { std::int32_t a; char b; bool operator==(const Pod& o) const { return a == o.a && b == o.b; } };
struct alignas(32) Wide { double d; bool operator==(const Wide& o) const { return d == o.d; } };
struct Base { int b; };
struct Derived : Base { int d; };
template <typename T> T value(int i) { return static_cast<T>(i); }
template <> inline Pod value<Pod>(int i) { return Pod{i, char(i)}; }
template <> inline Wide value<Wide>(int i) { return Wide{double(i)}; }
'''
AFTER = '''
template <typename S, typename P> void verify(const S& s, P p, std::size_t n, int step)
{
    using E = typename S::element_type;
    CHECK(s.size() == n && s.size_bytes() == n * sizeof(E) && s.empty() == (n == 0), "step %d: size %zu instead of %zu", step, s.size(), n);
    CHECK(s.data() == p, "step %d: data", step);
    CHECK(s.begin() == p && s.end() == p + n && static_cast<std::size_t>(s.end() - s.begin()) == n, "step %d: iterators", step);
    CHECK(static_cast<std::size_t>(s.rend() - s.rbegin()) == n, "step %d: reverse iterators", step);
    std::size_t i = 0;
    for (auto& x : s) { CHECK(&x == p + i && &s[i] == p + i, "step %d: element %zu", step, i); ++i; }
    CHECK(i == n, "step %d: %zu elements instead of %zu", step, i, n);
    for (auto it = s.rbegin(); it != s.rend(); ++it) { --i; CHECK(&*it == p + i, "step %d: reverse element %zu", step, i); }
    if (n > 0) CHECK(&s.front() == p && &s.back() == p + n - 1, "step %d: front or back", step);
    CHECK((std::is_same<typename S::value_type, std::remove_cv_t<E>>::value && std::is_same<typename S::pointer, E*>::value && std::is_same<typename S::reference, E&>::value), "types");
}
template <typename S, std::size_t N> constexpr bool extent_is() { return S::extent == N; }
template <typename S> std::enable_if_t<!std::is_const<typename S::element_type>::value> write(const S& s, int seed, int step)
{
    using V = typename S::value_type;
    for (std::size_t i = 0; i < s.size(); ++i) { s[i] = value<V>(int(i) + seed); CHECK(s.data()[i] == value<V>(int(i) + seed), "step %d: written element %zu", step, i); }
    std::size_t k = 0;
    for (auto& x : s) { x = value<V>(int(k) + seed + 1); ++k; }
    for (std::size_t i = 0; i < s.size(); ++i) CHECK(*(s.data() + i) == value<V>(int(i) + seed + 1), "step %d: element %zu written through the iterator", step, i);
}
template <typename S> std::enable_if_t<std::is_const<typename S::element_type>::value> write(const S&, int, int) {}
'''
COUNTS = {"quick": 400, "thorough": 8000}
BATCH = 20
FLAGS = ["-DCETL_ENABLE_DEBUG_ASSERT=1"]
VARIANTS = {"quick": ["clang14", "gcc20"], "thorough": ["clang14", "gcc14", "clang17", "gcc17", "clang20", "gcc20"]}
TYPES = ["int", "char", "std::uint8_t", "double", "Pod", "Wide", "long"]
STEPS = ["first<>", "first()", "last<>", "last()", "sub<o>", "sub<o,c>", "sub(o)", "sub(o,c)", "sub(o,dyn)", "const", "dyn", "static", "copy", "assign", "ptr", "pair"]


def make(rng, tier):
    if rng.random() < 0.2:
        return make_traits(rng)
    n = rng.choice([0, 1, 2, 3, 5, 8, 13] if tier == "quick" else [0, 1, 2, 3, 4, 5, 8, 13, 21, 64])
    ce = rng.random() < 0.25
    src = rng.choice(["array", "std", "ptr", "pair", "ptrS", "pairS", "arrayS", "stdS", "default", "cpair", "stdc", "arrayc"])
    if n == 0 and src not in ("std", "ptr", "pair", "ptrS", "pairS", "stdS", "default", "cpair"):
        src = "default"
    if src in ("default",):
        n = 0
    if ce:
        src = rng.choice(["array", "arrayS", "ptr"]) if n else "default"
    d = dict(kind="chain", t=rng.choice(TYPES if not ce else ["int", "char", "double"]), n=n, src=src, ce=ce, steps=[])
    ln = n
    ext = src in ("ptrS", "pairS", "arrayS", "stdS")
    for _ in range(rng.randrange(1, 8 if tier == "quick" else 14)):
        k = rng.choice(STEPS)
        if ce and k in ("assign", "pair"):
            continue
        o = rng.choice([0, ln, rng.randrange(ln + 1)])
        c = rng.choice([0, ln - o, rng.randrange(ln - o + 1)])
        cnt = rng.choice([0, ln, rng.randrange(ln + 1)])
        d["steps"].append([k, cnt if k.startswith(("first", "last")) else o, c])
        ln = after(k, d["steps"][-1], ln)
    return d


def after(k, s, ln):
    if k.startswith(("first", "last")):
        return s[1]
    if k in ("sub<o>", "sub(o)", "sub(o,dyn)"):
        return ln - s[1]
    if k in ("sub<o,c>", "sub(o,c)"):
        return s[2]
    return ln


def ext_after(k, s, ln, ext):
    """extent after the step: a number or None"""
    if k in ("first<>", "last<>"):
        return s[1]
    if k == "sub<o,c>":
        return s[2]
    if k == "sub<o>":
        return None if ext is None else ln - s[1]
    if k in ("first()", "last()", "sub(o)", "sub(o,c)", "sub(o,dyn)", "dyn"):
        return None
    if k == "static":
        return ln
    return ext


ELS = ["int", "const int", "Base", "const Base", "Derived", "const Derived", "long"]


def make_traits(rng):
    return dict(kind="traits", pairs=[dict(to=[rng.choice(ELS), rng.choice([None, 0, 2, 3])],
                                           src=rng.choice(["span", "array", "std", "stdc"]), f=[rng.choice(ELS), rng.choice([None, 0, 2, 3])]) for _ in range(8)])


def sp(ns, t, e):
    return "%s<%s%s>" % (ns, t, "" if e is None else ", %d" % e)


def render(d, k):
    return render_traits(d, k) if d["kind"] == "traits" else render_chain(d, k)


def render_traits(d, k):
    b = []
    for p in d["pairs"]:
        (tt, te), (ft, fe) = p["to"], p["f"]
        if p["src"] != "span":
            fe = fe or 1
            ft = ft.replace("const ", "") if p["src"] != "array" else ft
        srcs = {"span": sp("span", ft, fe), "array": "%s(&)[%s]" % (ft, fe), "std": "std::array<%s, %s>&" % (ft, fe), "stdc": "const std::array<%s, %s>&" % (ft, fe)}[p["src"]]
        eff = "const " + ft if p["src"] == "stdc" and not ft.startswith("const") else ft
        same = eff.replace("const ", "") == tt.replace("const ", "") and (tt.startswith("const") or not eff.startswith("const"))
        extok = te is None or fe is None or te == fe
        con = same and extok
        conv = con and not (te is not None and fe is None)
        to = sp("span", tt, te)
        b.append("CHECK((std::is_constructible<%s, %s>::value) == %s, \"%s from %s\");" % (to, srcs, str(con).lower(), to, srcs))
        b.append("CHECK((std::is_convertible<%s, %s>::value) == %s, \"%s implicitly from %s\");" % (srcs, to, str(conv).lower(), to, srcs))
        ssrc = sp("std::span", ft, fe) if p["src"] == "span" else srcs
        b.append("STD(CHECK((std::is_constructible_v<%s, %s>) == %s, \"oracle %s from %s\"));" % (sp("std::span", tt, te), ssrc, str(con).lower(), to, srcs))
        b.append("STD(CHECK((std::is_convertible_v<%s, %s>) == %s, \"oracle %s implicitly from %s\"));" % (ssrc, sp("std::span", tt, te), str(conv).lower(), to, srcs))
    b.append("CHECK((std::is_default_constructible<span<int>>::value && std::is_default_constructible<span<int, 0>>::value && !std::is_default_constructible<span<int, 2>>::value), \"default\");")
    b.append("CHECK((std::is_trivially_copyable<span<int>>::value && std::is_trivially_copyable<span<int, 3>>::value && std::is_nothrow_copy_assignable<span<int, 3>>::value), \"trivially copyable\");")
    return "void case_%d() {\n    %s\n}\n" % (k, "\n    ".join(b))


def render_chain(d, k):
    t, n, src, ce = d["t"], d["n"], d["src"], d["ce"]
    b, pre = [], []
    const = ce or src in ("stdc", "arrayc", "cpair")
    T = ("const " if const else "") + t
    if n or src in ("std", "stdS", "stdc"):
        if src in ("std", "stdS", "stdc"):
            b.append("std::array<%s, %d> arr{}; %s* const base = arr.data();" % (t, n, T))
        elif ce:
            pre.append("static constexpr %s arr[%d] = {%s};" % (t, n, ", ".join(str(i % 100) for i in range(n))))
            b.append("constexpr %s* base = &arr[0];" % T)
        else:
            b.append("%s arr[%d] = {}; %s* const base = &arr[0];" % (t, n, T))
    elif src == "default" or ce:
        b.append("%s %s* base = nullptr;" % ("constexpr" if ce else "", T))
    else:
        b.append("%s one[1] = {}; %s* const base = &one[0];" % (t, T))
    ext = n if src in ("ptrS", "pairS", "arrayS", "stdS") else None

    def init(ns):
        S = sp(ns, T, ext)
        return {"array": "%s s0 = arr", "arrayS": "%s s0 = arr", "std": "%s s0 = arr", "stdS": "%s s0 = arr", "arrayc": "%s s0 = arr",
                "ptr": "%%s s0(base, std::size_t(%d))" % n, "ptrS": "%%s s0(base, std::size_t(%d))" % n, "pair": "%%s s0(base, base + %d)" % n, "pairS": "%%s s0(base, base + %d)" % n,
                "cpair": "%%s s0(const_cast<%s*>(base), const_cast<%s*>(base) + %d)" % (t, t, n),
                "stdc": "%s s0 = static_cast<const decltype(arr)&>(arr)", "default": "%s s0"}[src] % S + (" = {}" if src == "default" else "")
    cx = "constexpr " if ce else ""
    b.append("%s%s; verify(s0, base, %d, 0); CHECK((extent_is<decltype(s0), %s>()), \"extent of the first span\"); write(s0, 3, 0);" % (
        cx, init("span"), n, "DYN" if ext is None else ext))
    mirror = [init("std::span").replace(" s0", " t0") + ";"]
    off, ln, el = 0, n, T
    for i, s in enumerate(d["steps"], 1):
        kind, x, c = s
        e2 = ext_after(kind, s, ln, ext)
        if kind == "const":
            el = el if el.startswith("const") else "const " + el

        def text(ns, p, q, dyn):
            ext_t = sp(ns, el, e2)
            return {"first<>": "auto {q} = {p}.template first<%d>()" % x, "first()": "auto {q} = {p}.first(%d)" % x, "last<>": "auto {q} = {p}.template last<%d>()" % x,
                    "last()": "auto {q} = {p}.last(%d)" % x, "sub<o>": "auto {q} = {p}.template subspan<%d>()" % x, "sub<o,c>": "auto {q} = {p}.template subspan<%d, %d>()" % (x, c),
                    "sub(o)": "auto {q} = {p}.subspan(%d)" % x, "sub(o,c)": "auto {q} = {p}.subspan(%d, %d)" % (x, c), "sub(o,dyn)": "auto {q} = {p}.subspan(%d, %s)" % (x, dyn),
                    "const": "%s {q} = {p}" % ext_t, "dyn": "%s {q} = {p}" % ext_t, "static": "%s {q}({p})" % ext_t, "copy": "auto {q} = {p}",
                    "assign": "auto {q} = {p}; { auto other = {p}; {q} = other; }", "ptr": "%s {q}({p}.data(), {p}.size())" % ext_t,
                    "pair": "%s {q}({p}.data(), {p}.data() + {p}.size())" % ext_t}[kind].replace("{q}", q).replace("{p}", p)
        if kind in ("last<>", "last()"):
            off += ln - x
        elif kind.startswith("sub"):
            off += x
        ln2 = after(kind, s, ln)
        b.append("%s%s; verify(s%d, base + %d, %d, %d); CHECK((extent_is<decltype(s%d), %s>()), \"step %d: extent\"); write(s%d, %d, %d);" % (
            cx, text("span", "s%d" % (i - 1), "s%d" % i, "DYN"), i, off, ln2, i, i, "DYN" if e2 is None else e2, i, i, i + 3, i))
        b.append("CHECK((std::is_same<decltype(s%d)::element_type, %s>::value), \"step %d: element type\");" % (i, el, i))
        m = text("std::span", "t%d" % (i - 1), "t%d" % i, "std::dynamic_extent")
        mirror.append("%s; CHECK(t%d.data() == s%d.data() && t%d.size() == s%d.size() && (std::is_same_v<std::remove_cv_t<decltype(t%d)>, std::span<%s, %s>>), \"step %d: std::span\");" % (
            m, i, i, i, i, i, el, "std::dynamic_extent" if e2 is None else e2, i))
        ln, ext = ln2, e2
    b.append("STD(%s)" % " ".join(mirror))
    return "\n".join(pre) + "\nvoid case_%d() {\n    %s\n}\n" % (k, "\n    ".join(b))


def legal(d):
    ln = d["n"]
    for s in d["steps"]:
        if s[0].startswith(("first", "last")) and s[1] > ln:
            return False
        if s[0].startswith("sub") and (s[1] > ln or (s[0] in ("sub<o,c>", "sub(o,c)") and s[2] > ln - s[1])):
            return False
        ln = after(s[0], s, ln)
    return True


def shrink(d):
    if d["kind"] == "traits":
        for i in range(len(d["pairs"])):
            if len(d["pairs"]) > 1:
                yield dict(d, pairs=d["pairs"][:i] + d["pairs"][i + 1:])
        return
    for i in range(len(d["steps"])):
        c = dict(d, steps=d["steps"][:i] + d["steps"][i + 1:])
        if legal(c):
            yield c
    if d["t"] != "int":
        yield dict(d, t="int")


def nontrivial(d):
    return d["kind"] == "traits" or (d["n"] > 0 and len(d["steps"]) >= 2)


def labels(d):
    if d["kind"] == "traits":
        return ["traits"]
    return ["source:" + d["src"]] + (["constexpr"] if d["ce"] else [])


def describe(d):
    import json
    return json.dumps(d)
