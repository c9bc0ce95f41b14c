"""C28: generated constexpr functions over the polyfills, evaluated by the compiler and again at run time."""
PRELUDE = '''#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/string_view.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/visit_helpers.hpp"
#include "cetl/rtti.hpp"
#include <cstddef>
#include <utility>
#if __cplusplus >= 201703L
#include <optional>
#include <string_view>
#include <variant>
#define STD(...) __VA_ARGS__
#define CX17 constexpr
#else
#define STD(...)
#define CX17 static const
#endif
#if __cplusplus >= 202002L
#define CX20 constexpr
#else
#define CX20 static const
#endif
constexpr long mix(long h, long x) { return (h * 31 + x + 1000) % 1000003; }
constexpr long NPOS(std::size_t n) { return n == static_cast<std::size_t>(-1) ? -1 : static_cast<long>(n); }
/// Literal types that are not scalars.
struct Lit
{
    int   a;
    short b;
    constexpr Lit() noexcept : a(5), b(6) {}
    constexpr Lit(int x) noexcept : a(x), b(static_cast<short>(x + 1)) {}
    constexpr Lit(int x, int y) noexcept : a(x + y), b(static_cast<short>(x + y + 1)) {}
    constexpr long num() const { return a * 2 - b; }
};
constexpr bool operator==(const Lit& x, const Lit& y) { return x.a == y.a; }
constexpr bool operator!=(const Lit& x, const Lit& y) { return x.a != y.a; }
constexpr bool operator<(const Lit& x, const Lit& y) { return x.a < y.a; }
constexpr bool operator<=(const Lit& x, const Lit& y) { return x.a <= y.a; }
constexpr bool operator>(const Lit& x, const Lit& y) { return x.a > y.a; }
constexpr bool operator>=(const Lit& x, const Lit& y) { return x.a >= y.a; }
struct Own
{
    int a;
    int moved;
    constexpr Own() noexcept : a(8), moved(0) {}
    constexpr Own(int x) noexcept : a(x), moved(0) {}
    constexpr Own(int x, int y) noexcept : a(x + y), moved(0) {}
    constexpr long num() const { return a + moved * 100000L; }
};
constexpr bool operator==(const Own& x, const Own& y) { return x.a == y.a; }
constexpr bool operator!=(const Own& x, const Own& y) { return x.a != y.a; }
constexpr bool operator<(const Own& x, const Own& y) { return x.a < y.a; }
constexpr bool operator<=(const Own& x, const Own& y) { return x.a <= y.a; }
constexpr bool operator>(const Own& x, const Own& y) { return x.a > y.a; }
constexpr bool operator>=(const Own& x, const Own& y) { return x.a >= y.a; }
constexpr long num(int x) { return x; }
constexpr long num(long x) { return x; }
constexpr long num(short x) { return x; }
constexpr long num(const Lit& x) { return x.num(); }
constexpr long num(const Own& x) { return x.num(); }
constexpr long num(cetl::pf17::monostate) { return 77; }
STD(constexpr long num(std::monostate) { return 77; })
struct Num
{
    template <typename T> constexpr long operator()(const T& x) const { return num(x); }
};
struct Pair
{
    template <typename T, typename U> constexpr long operator()(const T& x, const U& y) const { return num(x) * 3 - num(y); }
};
struct OfInt
{
    constexpr long operator()(int x) const { return x + 2; }
};
struct OfLit
{
    constexpr long operator()(const Lit& x) const { return x.num() + 4; }
};
struct Rest
{
    template <typename T> constexpr long operator()(const T& x) const { return num(x) + 8; }
};
struct Three
{
    template <typename T, typename U, typename V> constexpr long operator()(const T& x, const U& y, const V& z) const { return num(x) * 5 - num(y) * 3 + num(z); }
};
'''
COUNTS = {"quick": 480, "thorough": 4000}
BATCH = 20
VARIANTS = {"quick": ["clang14", "gcc14", "clang17", "gcc20"], "thorough": ["clang14", "gcc14", "clang17", "gcc17", "clang20", "gcc20"]}
OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
OPT_T = ["int", "long", "Lit", "Own"]
MADE = ("Lit", "Own")  # made from two numbers as well
VAR_T = ["int", "long", "short", "Lit", "Own", "MONO"]


def mix(h, x):
    n = h * 31 + x + 1000
    assert n >= 0
    return n % 1000003


def value(rng):
    return rng.choice([0, 1, rng.randrange(-20, 21), rng.randrange(-400, 400)])


def default_of(t):
    return {"Lit": 5, "Own": 8}.get(t, 0)


def num(t, v):
    return 77 if t == "MONO" else v - 1 if t == "Lit" else v


# --------------------------------------------------------------------------------------------------------------------
def make(rng, tier):
    kind = rng.choice(["sv", "opt", "opt", "var", "var"])
    n = rng.randrange(2, 10 if tier == "quick" else 24)
    if kind == "sv":
        text = "".join(rng.choice("abac") for _ in range(rng.randrange(0, 14)))
        steps = []
        for _ in range(n):
            steps.append([rng.choice(["substr", "substr1", "copy", "prefix", "suffix", "swap", "find", "findsv", "findpos", "at", "ends", "sum", "rsize"]), rng.randrange(4), rng.randrange(4),
                          rng.randrange(16), rng.randrange(16), rng.choice("abcd")])
        return dict(kind=kind, text=text, steps=steps)
    if kind == "opt":
        steps = []
        for _ in range(n):
            steps.append([rng.choice(["new", "new", "look", "look", "cmp", "cmp", "cmpnull", "cmpval", "write", "assign", "take"]), rng.randrange(8), rng.randrange(8), rng.choice(sorted(OPS)), value(rng), rng.randrange(7)])
        return dict(kind=kind, t=rng.choice(OPT_T), steps=steps)
    types = [rng.choice(VAR_T) for _ in range(rng.randrange(1, 6))]
    if rng.random() < 0.5:
        types = sorted(set(types), key=types.index)
    steps = []
    for _ in range(n):
        steps.append([rng.choice(["new", "new", "look", "look", "cmp", "visit", "visit2", "visit3", "overloaded", "swap", "write", "assign", "take"]), rng.randrange(8), rng.randrange(8), rng.randrange(8), rng.choice(sorted(OPS)),
                      value(rng), rng.randrange(5)])
    return dict(kind=kind, types=types, steps=steps)


# Each returns (body lines, expected value, whether C++17 is needed for constant evaluation, features used).
def render_sv(d, ns):
    text = d["text"]
    b = ["%s::string_view v0(text, %d); %s::string_view v1; %s::string_view v2(v0); %s::string_view v3(text, %d);" % (ns, len(text), ns, ns, ns, len(text) // 2)]
    v = [text, "", text, text[:len(text) // 2]]
    h = 7
    for k, i, j, x, y, ch in d["steps"]:
        s = v[i]
        if k in ("substr", "substr1"):
            p = x % (len(s) + 1)
            if k == "substr":
                b.append("v%d = v%d.substr(a(%d), a(%d));" % (j, i, p, y))
                v[j] = s[p:p + y]
            else:
                b.append("v%d = v%d.substr(a(%d));" % (j, i, p))
                v[j] = s[p:]
        elif k == "copy":
            b.append("{ %s::string_view t = v%d; v%d = t; }" % (ns, i, j))
            v[j] = s
        elif k in ("prefix", "suffix"):
            p = x % (len(s) + 1)
            b.append("v%d.remove_%s(a(%d));" % (i, k, p))
            v[i] = s[p:] if k == "prefix" else s[:len(s) - p]
        elif k == "swap":
            b.append("v%d.swap(v%d);" % (i, j))
            v[i], v[j] = v[j], v[i]
        elif k == "find":
            b.append("h = mix(h, NPOS(v%d.find('%s')));" % (i, ch))
            h = mix(h, s.find(ch))
        elif k == "findpos":
            b.append("h = mix(h, NPOS(v%d.find('%s', a(%d))));" % (i, ch, x))
            h = mix(h, s.find(ch, x) if x <= len(s) else -1)
        elif k == "findsv":
            b.append("h = mix(h, NPOS(v%d.find(v%d, a(%d))));" % (i, j, x))
            h = mix(h, s.find(v[j], x) if x <= len(s) else -1)
        elif k == "at" and s:
            p = x % len(s)
            b.append("h = mix(mix(h, v%d[a(%d)]), v%d.at(a(%d)));" % (i, p, i, p))
            h = mix(mix(h, ord(s[p])), ord(s[p]))
        elif k == "ends" and s:
            b.append("h = mix(mix(h, v%d.front()), v%d.back());" % (i, i))
            h = mix(mix(h, ord(s[0])), ord(s[-1]))
        elif k == "sum":
            b.append("for (auto p = v%d.begin(); p != v%d.end(); ++p) { h = mix(h, *p); } for (char c : v%d) { h = mix(h, c); } h = mix(h, v%d.cend() - v%d.cbegin());" % (i, i, i, i, i))
            for c in s + s:
                h = mix(h, ord(c))
            h = mix(h, len(s))
        elif k == "rsize":
            b.append("h = mix(h, static_cast<long>(v%d.size() + v%d.length()) + (v%d.empty() ? 5 : 0) + (v%d.max_size() >= v%d.size() ? 1 : 0) + (v%d.data() == nullptr ? 0 : 2));" % (i, i, i, i, i, i)
                     if s else "h = mix(h, v%d.empty() ? 5 : 0);" % i)
            h = mix(h, 2 * len(s) + 3 if s else 5)
    for i in range(4):
        b.append("h = mix(h, static_cast<long>(v%d.size()));" % i)
        h = mix(h, len(v[i]))
    return b, h, 14


def render_opt(d, ns):
    t = d["t"]
    O = "%s::optional<%s>" % (ns, t)
    b = ["%s o0; %s o1(%s(a(3)));" % (O, O, t)]
    v = [None, 3]
    h = 7
    for k, i, j, op, x, way in d["steps"]:
        i, j = i % len(v), j % len(v)
        if k == "new":
            q = len(v)
            if way == 0:
                b.append("%s o%d;" % (O, q))
                v.append(None)
            elif way == 1:
                b.append("%s o%d(%s::nullopt);" % (O, q, ns))
                v.append(None)
            elif way == 2:
                b.append("%s o%d(%s(a(%d)));" % (O, q, t, x))
                v.append(x)
            elif way == 3:
                two = t in MADE
                b.append("%s o%d(%s::in_place, %s);" % (O, q, ns, "a(%d), 1" % (x - 1) if two else "%s(a(%d))" % (t, x)))
                v.append(x)
            elif way == 4:
                b.append("auto o%d = %s::make_optional%s;" % (q, ns, "<%s>(a(%d), 2)" % (t, x - 2) if t in MADE else "(%s(a(%d)))" % (t, x)))
                v.append(x)
            elif way == 5:
                b.append("%s o%d(o%d);" % (O, q, i))
                v.append(v[i])
            else:
                b.append("%s o%d(std::move(o%d));" % (O, q, i))
                v.append(v[i])
        elif k == "look":
            b.append("h = mix(h, (o%d.has_value() ? 1 : 0) + (o%d ? 2 : 0)); h = mix(h, num(static_cast<const %s&>(o%d).value_or(%s(a(%d)))));" % (i, i, O, i, t, x))
            h = mix(h, 3 if v[i] is not None else 0)
            h = mix(h, num(t, x if v[i] is None else v[i]))
            if v[i] is not None:
                b.append("h = mix(mix(h, num(*o%d)), num(o%d.value())); { const %s c(o%d); h = mix(mix(h, num(*c)), num(c.value())); }" % (i, i, O, i))
                for _ in range(4):
                    h = mix(h, num(t, v[i]))
                if t in MADE:
                    b.append("h = mix(h, o%d->num()); { const %s c(o%d); h = mix(h, c->num()); }" % (i, O, i))
                    h = mix(mix(h, num(t, v[i])), num(t, v[i]))
        elif k == "take":
            if v[i] is not None:
                b.append("{ %s c(o%d); %s r(%s); h = mix(h, num(r)); }" % (O, i, t, ["std::move(*c)", "std::move(c).value()", "std::move(c).value_or(%s(1))" % t, "*std::move(c)"][way % 4]))
                h = mix(h, num(t, v[i]))
        elif k == "cmp":
            b.append("h = mix(h, o%d %s o%d ? 1 : 0);" % (i, op, j))
            l, r = (0, 0) if v[i] is None else (1, v[i]), (0, 0) if v[j] is None else (1, v[j])
            h = mix(h, 1 if OPS[op](l, r) else 0)
        elif k == "cmpnull":
            e = 0 if v[i] is None else 1
            b.append("h = mix(h, o%d %s %s::nullopt ? 1 : 0); h = mix(h, %s::nullopt %s o%d ? 1 : 0);" % (i, op, ns, ns, op, i))
            h = mix(mix(h, 1 if OPS[op](e, 0) else 0), 1 if OPS[op](0, e) else 0)
        elif k == "cmpval":
            l = (0, 0) if v[i] is None else (1, v[i])
            b.append("h = mix(h, o%d %s %s(a(%d)) ? 1 : 0); h = mix(h, %s(a(%d)) %s o%d ? 1 : 0);" % (i, op, t, x, t, x, op, i))
            h = mix(mix(h, 1 if OPS[op](l, (1, x)) else 0), 1 if OPS[op]((1, x), l) else 0)
        elif k == "write":
            if v[i] is not None:
                b.append("%s = %s(a(%d));" % (["*o%d" % i, "o%d.value()" % i, "(*(o%d.operator->()))" % i][way % 3], t, x))
                v[i] = x
        elif k == "assign":
            b.append("o%d = o%d;" % (i, j) if way % 2 else "{ auto c = o%d; o%d = std::move(c); }" % (j, i))
            v[i] = v[j]
    for q in range(len(v)):
        b.append("h = mix(h, num(o%d.value_or(%s(9))));" % (q, t))
        h = mix(h, num(t, 9 if v[q] is None else v[q]))
    return b, h, 14


def render_var(d, ns):
    types = d["types"]
    names = [x if x != "MONO" else ns + "::monostate" for x in types]
    V = "%s::variant<%s>" % (ns, ", ".join(names))
    b = ["%s v0;" % V]
    v = [(0, default_of(types[0]) if types[0] != "MONO" else 0)]
    h = 7
    later = 14  # visitation and comparison are constant expressions from C++17 on, swap from C++20 on
    unique = [types.count(x) == 1 for x in types]

    def arg(t, x):
        return "" if t == "MONO" else "%s(a(%d))" % (t, x)
    for k, i, j, l, op, x, way in d["steps"]:
        i, j, m = i % len(v), j % len(v), l % len(v)
        alt = l % len(types)
        t = types[alt]
        if k == "new":
            q = len(v)
            val = 0 if t == "MONO" else x
            if way == 0 and unique[alt] and t != "MONO":
                b.append("%s v%d(%s::in_place_type_t<%s>{}, %s);" % (V, q, ns, names[alt], arg(t, x)))
            elif way == 1 and unique[alt] and t in MADE:
                b.append("%s v%d(%s(a(%d)));" % (V, q, t, x))
            elif way == 2 and t in MADE:
                b.append("%s v%d(%s::in_place_index_t<%d>{}, a(%d), 1);" % (V, q, ns, alt, x - 1))
            elif way == 3:
                b.append("%s v%d(v%d);" % (V, q, i))
                alt, val = v[i]
            elif way == 4:
                b.append("%s v%d(std::move(v%d));" % (V, q, i))
                alt, val = v[i]
            else:
                a = arg(t, x)
                b.append("%s v%d(%s::in_place_index_t<%d>{}%s);" % (V, q, ns, alt, ", " + a if a else ""))
            v.append((alt, val))
        elif k == "look":
            ci, cv = v[i]
            b.append("h = mix(h, static_cast<long>(v%d.index()) + (v%d.valueless_by_exception() ? 100 : 0));" % (i, i))
            h = mix(h, ci)
            for w in range(len(types)):
                b.append("h = mix(h, %s::get_if<%d>(&v%d) != nullptr ? num(*%s::get_if<%d>(&v%d)) : -1); { const %s c(v%d); h = mix(h, %s::get_if<%d>(&c) != nullptr ? num(*%s::get_if<%d>(&c)) : -1); }" % (
                    ns, w, i, ns, w, i, V, i, ns, w, ns, w))
                e = num(types[w], cv) if w == ci else -1
                h = mix(mix(h, e), e)
                if unique[w]:
                    b.append("h = mix(h, %s::holds_alternative<%s>(v%d) ? 1 : 0); h = mix(h, %s::get_if<%s>(&v%d) != nullptr ? 1 : 0);" % (ns, names[w], i, ns, names[w], i))
                    h = mix(mix(h, int(w == ci)), int(w == ci))
            b.append("h = mix(h, num(%s::get<%d>(v%d))); { const %s c(v%d); h = mix(h, num(%s::get<%d>(c))); }" % (ns, ci, i, V, i, ns, ci))
            h = mix(mix(h, num(types[ci], cv)), num(types[ci], cv))
            if unique[ci]:
                b.append("h = mix(h, num(%s::get<%s>(v%d)));" % (ns, names[ci], i))
                h = mix(h, num(types[ci], cv))
        elif k == "take":
            ci, cv = v[i]
            b.append("{ %s c(v%d); auto r = %s::get<%d>(std::move(c)); h = mix(h, num(r)); }" % (V, i, ns, ci))
            h = mix(h, num(types[ci], cv))
        elif k == "write":
            ci, cv = v[i]
            if types[ci] != "MONO":
                b.append("%s = %s(a(%d));" % (["%s::get<%d>(v%d)" % (ns, ci, i), "*%s::get_if<%d>(&v%d)" % (ns, ci, i)][way % 2], types[ci], x))
                v[i] = (ci, x)
        elif k == "assign":
            b.append("v%d = v%d;" % (i, j) if way % 2 else "{ auto c = v%d; v%d = std::move(c); }" % (j, i))
            v[i] = v[j]
        elif k == "cmp":
            later = max(later, 17)
            b.append("h = mix(h, v%d %s v%d ? 1 : 0);" % (i, op, j))
            h = mix(h, 1 if OPS[op](v[i], v[j]) else 0)
        elif k == "visit":
            later = max(later, 17)
            b.append("h = mix(h, %s::visit(Num{}, v%d)); { const %s c(v%d); h = mix(h, %s::visit(Num{}, c)); }" % (ns, i, V, i, ns))
            e = num(types[v[i][0]], v[i][1])
            h = mix(mix(h, e), e)
        elif k == "overloaded":
            later = max(later, 17)
            b.append("h = mix(h, %s::visit(cetl::make_overloaded(OfInt{}, OfLit{}, Rest{}), v%d));" % (ns, i))
            t = types[v[i][0]]
            h = mix(h, num(t, v[i][1]) + {"int": 2, "Lit": 4}.get(t, 8))
        elif k == "swap":
            later = 20
            b.append("v%d.swap(v%d);" % (i, j) if i != j else "")
            v[i], v[j] = v[j], v[i]
        elif k == "visit2":
            later = max(later, 17)
            b.append("h = mix(h, 5000 + %s::visit(Pair{}, v%d, v%d));" % (ns, i, j))
            h = mix(h, 5000 + num(types[v[i][0]], v[i][1]) * 3 - num(types[v[j][0]], v[j][1]))
        elif k == "visit3" and len(types) <= 3:
            later = max(later, 17)
            b.append("h = mix(h, 9000 + %s::visit(Three{}, v%d, v%d, v%d));" % (ns, i, j, m))
            h = mix(h, 9000 + num(types[v[i][0]], v[i][1]) * 5 - num(types[v[j][0]], v[j][1]) * 3 + num(types[v[m][0]], v[m][1]))
    for q in range(len(v)):
        b.append("h = mix(h, static_cast<long>(v%d.index()));" % q)
        h = mix(h, v[q][0])
    return b, h, later


BODY = {"sv": render_sv, "opt": render_opt, "var": render_var}


def render(d, k):
    b, want, later = BODY[d["kind"]](d, "cetl::pf17")
    m, want2, _ = BODY[d["kind"]](d, "std")
    assert want == want2
    pre = "static constexpr char text[] = \"%s\";\n" % d["text"] if d["kind"] == "sv" else ""
    cx = {14: "constexpr", 17: "CX17", 20: "CX20"}[later]
    out = pre
    out += "struct Same { constexpr int operator()(int x) const { return x; } };\nstruct Read { volatile int* z; int operator()(int x) const { return x + *z; } };\n"
    out += "template <typename A> constexpr long own(A a)\n{\n    long h = 7;\n    %s\n    return h;\n}\n" % "\n    ".join(b)
    out += "STD(template <typename A> constexpr long ref(A a)\n{\n    long h = 7;\n    %s\n    return h;\n})\n" % "\n    ".join(m)
    out += "%s long compiled = own(Same{});\n" % cx
    out += "void case_%d()\n{\n    volatile int zero = 0;\n    CHECK(compiled == %d, \"by the compiler: %%ld\", compiled);\n" % (k, want)
    out += "    const long now = own(Read{&zero});\n    CHECK(now == %d, \"at run time: %%ld\", now);\n" % want
    out += "    STD(const long other = ref(Read{&zero}); CHECK(other == %d, \"oracle: std gives %%ld\", other);)\n}\n" % want
    return out


def shrink(d):
    for i in range(len(d["steps"])):
        yield dict(d, steps=d["steps"][:i] + d["steps"][i + 1:])
    if d["kind"] == "var" and len(d["types"]) > 1:
        yield dict(d, types=d["types"][:-1])
    if d["kind"] == "opt" and d["t"] != "int":
        yield dict(d, t="int")


def nontrivial(d):
    return len(d["steps"]) >= 3


def labels(d):
    return [d["kind"]] + sorted({d["kind"] + ":" + s[0] for s in d["steps"]})


def describe(d):
    import json
    return json.dumps(d)
