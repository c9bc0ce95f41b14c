"""C19: generated sets of callables; make_overloaded against a class that spells the overloads out."""
PRELUDE = '''#include "cetl/visit_helpers.hpp"
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
struct Str { Str(const char*) {} };
struct Base { int b = 1; };
struct Derived : Base {};
struct FromInt { FromInt(int) {} };
struct Res { int id; int tag; };
struct None {};
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) noexcept {} };
template <typename V, typename F, typename... A> struct result_of { using type = None; };
template <typename...> using void_of = void;
template <typename F, typename... A> struct result_of<void_of<decltype(std::declval<F>()(std::declval<A>()...))>, F, A...> { using type = decltype(std::declval<F>()(std::declval<A>()...)); };
void same_call(const char*, int, int, int, int);
static int g_last_id, g_last_tag;
static Res& record(int id, int tag) { static Res r; g_last_id = id; g_last_tag = tag; r = Res{id, tag}; return r; }
template <typename... A, typename F, typename G> void compare(std::true_type, const char* what, F&& f, G&& g, A... a)
{
    g_last_id = g_last_tag = -1;
    std::forward<F>(f)(std::forward<A>(a)...);
    const int i1 = g_last_id, t1 = g_last_tag;
    g_last_id = g_last_tag = -1;
    std::forward<G>(g)(std::forward<A>(a)...);
    same_call(what, i1, t1, g_last_id, g_last_tag);
}
template <typename... A, typename F, typename G> void compare(std::false_type, const char*, F&&, G&&, A...) {}
template <typename F, typename G, typename... A> constexpr bool same_result() { return std::is_same<typename result_of<void, F, A...>::type, typename result_of<void, G, A...>::type>::value; }
template <typename F, typename... A> using callable = std::integral_constant<bool, !std::is_same<typename result_of<void, F, A...>::type, None>::value>;
'''
COUNTS = {"quick": 160, "thorough": 4000}
BATCH = 10
VARIANTS = {"quick": ["clang14", "gcc20"], "thorough": ["clang14", "gcc14", "clang17", "gcc17", "clang20", "gcc20"]}
PARAMS = ["int", "long", "double", "char", "bool", "const char*", "const Str&", "Str&", "Str&&", "Base&", "const Base&", "Derived&", "const Derived&",
          "Derived&&", "FromInt", "MoveOnly", "std::nullptr_t", "int&", "const int&"]
ARGS = [("int", "5"), ("int&", "i"), ("const int&", "i"), ("long", "5L"), ("char", "'c'"), ("float", "1.5f"), ("double", "1.5"), ("bool", "true"), ("const char*", "\"abc\""),
        ("Str&", "s"), ("const Str&", "s"), ("Str", "Str(\"q\")"), ("Base&", "b"), ("Derived&", "d"), ("const Derived&", "d"), ("Derived", "Derived()"),
        ("std::nullptr_t", "nullptr"), ("MoveOnly", "MoveOnly()"), ("FromInt", "FromInt(1)")]
RESULTS = ["Res", "Res&", "const Res&", "void", "long"]


def make(rng, tier):
    fs, seen, generic = [], set(), False
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 6] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8, 10])):
        ovs = []
        lam = rng.random() < 0.5
        for _ in range(1 if lam else rng.choice([1, 1, 2])):
            const = rng.random() < 0.75
            if not generic and rng.random() < 0.15:
                generic = True
                ovs.append(dict(params=[rng.choice(["const auto&", "auto&&", "auto", "auto&"])], const=const, res=rng.choice(RESULTS), noex=False))
                continue
            ps = [rng.choice(PARAMS) for _ in range(rng.choice([1, 1, 1, 1, 0, 2]))]
            key = (tuple(ps), const)
            if key in seen:
                continue
            if any("int" in x and "int" in y and ("&" in x) != ("&" in y) for x in ps for kk in seen for y in kk[0]):
                continue  # with a generic overload g++ resolves such sets depending on their order
            seen.add(key)
            ovs.append(dict(params=ps, const=const, res=rng.choice(RESULTS), noex=rng.random() < 0.2))
        if ovs:
            fs.append(dict(lam=lam, ovs=ovs, how=rng.choice(["rvalue", "rvalue", "lvalue", "const lvalue"]), only_move=rng.random() < 0.15))
    if not fs:
        return make(rng, tier)
    calls = []
    for _ in range(8):
        calls.append([rng.randrange(len(ARGS)) for _ in range(rng.choice([1, 1, 1, 1, 1, 0, 2]))])
    return dict(fs=fs, calls=calls)


def op(o, i, lam_tag=None):
    """text of the parameters, qualifiers and body of one overload"""
    names = ["p%d" % k for k in range(len(o["params"]))]
    body = "record(%d, tag)" % i
    body = {"Res": "return Res(%s);", "Res&": "return %s;", "const Res&": "return %s;", "void": "(void) %s;", "long": "return %s.id;"}[o["res"]] % body
    return ", ".join("%s %s" % (p, n) for p, n in zip(o["params"], names)), body


def member(o, i):
    ps, body = op(o, i)
    head = ""
    if any("auto" in p for p in o["params"]):
        head = "template <typename T0> "
        ps = ps.replace("auto", "T0")
    q = (" const" if o["const"] else "") + (" noexcept" if o["noex"] else "")
    return "%s%s operator()(%s)%s { %s }" % (head, o["res"], ps, q, body)


def render(d, k):
    t, b, args = [], [], []
    i = 0
    b.append("Str s(\"s\"); Base b; Derived d; int i = 3; (void) b; (void) d; (void) i;")
    ref = []
    for n, f in enumerate(d["fs"]):
        tag = 100 + n
        if f["lam"]:
            o = f["ovs"][0]
            ps, body = op(o, i)
            q = ("" if o["const"] else " mutable") + (" noexcept" if o["noex"] else "")
            b.append("auto f%d = [tag = %d%s](%s)%s -> %s { %s };" % (n, tag, ", m = std::unique_ptr<int>(new int(1))" if f["only_move"] else "", ps, q, o["res"], body))
            ref.append(member(o, i).replace("tag)", "%d)" % tag))
            i += 1
        else:
            ms = []
            for o in f["ovs"]:
                ms.append(member(o, i))
                ref.append(member(o, i).replace("tag)", "%d)" % tag))
                i += 1
            t.append("struct F%d { int tag; %sexplicit F%d(int t) : tag(t)%s {} %s };" % (
                n, "std::unique_ptr<int> m; " if f["only_move"] else "", n, ", m(new int(1))" if f["only_move"] else "", " ".join(ms)))
            b.append("F%d f%d(%d);" % (n, n, tag))
        how = "rvalue" if f["only_move"] else f["how"]
        args.append({"rvalue": "std::move(f%d)" % n, "lvalue": "f%d" % n, "const lvalue": "static_cast<const decltype(f%d)&>(f%d)" % (n, n)}[how])
    t.append("struct Ref { %s };" % "\n    ".join(ref))
    b.append("auto o = cetl::make_overloaded(%s); Ref r; const auto& oc = o; const Ref& rc = r; (void) o; (void) r; (void) oc; (void) rc;" % ", ".join(args))
    b.append("using O = decltype(o);")
    for c in d["calls"]:
        ts = "".join(", " + ARGS[a][0] for a in c)
        vs = "".join(", " + ARGS[a][1] for a in c)
        what = "(" + ts[2:] + ")"
        for q, oe, re in (("&", "o", "r"), (" const&", "oc", "rc"), ("&&", "std::move(o)", "std::move(r)")):
            b.append("CHECK((same_result<O%s, Ref%s%s>()), \"call%s with %%s: a different result type, or only one of the two accepts it\", \"%s\");" % (q.replace(" const", " const"), q, ts, q.replace("&&", " of rvalue"), what))
            b.append("if (same_result<O%s, Ref%s%s>()) compare<%s>(std::integral_constant<bool, callable<O%s%s>::value && same_result<O%s, Ref%s%s>()>(), \"%s\", %s, %s%s);" % (
                q, q, ts, ts[2:], q, ts, q, q, ts, what, oe, re, vs))
    if not any(f["only_move"] for f in d["fs"]):
        b.append("auto o2 = o; CHECK((std::is_same<decltype(o2), O>::value), \"copy\");")
    b.append("auto o3 = std::move(o); (void) o3;")
    c = d["calls"][0]
    ts = "".join(", " + ARGS[a][0] for a in c)
    vs = "".join(", " + ARGS[a][1] for a in c)
    b.append("compare<%s>(std::integral_constant<bool, callable<O&%s>::value && same_result<O&, Ref&%s>()>(), \"after move\", o3, r%s);" % (ts[2:], ts, ts, vs))
    return "\n".join(t) + "\nvoid case_%d() {\n    %s\n}\n" % (k, "\n    ".join(b))


AFTER = '''
void same_call(const char* what, int i1, int t1, int i2, int t2)
{
    CHECK(i1 == i2 && t1 == t2, "%s chose overload %d of callable %d instead of %d of %d", what, i1, t1 - 100, i2, t2 - 100);
}
'''


def shrink(d):
    for n in range(len(d["fs"])):
        if len(d["fs"]) > 1:
            yield dict(d, fs=d["fs"][:n] + d["fs"][n + 1:])
        f = d["fs"][n]
        for m in range(len(f["ovs"])):
            if len(f["ovs"]) > 1:
                yield dict(d, fs=d["fs"][:n] + [dict(f, ovs=f["ovs"][:m] + f["ovs"][m + 1:])] + d["fs"][n + 1:])
    for n in range(len(d["calls"])):
        if len(d["calls"]) > 1:
            yield dict(d, calls=d["calls"][:n] + d["calls"][n + 1:])


def nontrivial(d):
    return len(d["fs"]) >= 2


def labels(d):
    l = ["callables:%d" % len(d["fs"])]
    if any(f["how"] != "rvalue" and not f["only_move"] for f in d["fs"]):
        l.append("lvalue callable")
    return l


def describe(d):
    import json
    return json.dumps(d)
