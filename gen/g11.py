"""C11: generated class hierarchies; rtti_cast against dynamic_cast."""
PRELUDE = '#include "cetl/rtti.hpp"\n'
COUNTS = {"quick": 160, "thorough": 4000}
BATCH = 10
VARIANTS = {"quick": ["clang14", "gcc20"], "thorough": ["clang14", "gcc14", "clang17", "gcc17", "clang20", "gcc20"]}


def fresh_id(rng, used):
    """Identifiers of various lengths, often differing from another one in a single byte."""
    while True:
        if used and rng.random() < 0.6:
            b = list(rng.choice(used))
            k = rng.random()
            if k < 0.5 and b:
                i = rng.randrange(len(b))
                b[i] = (b[i] + rng.choice([1, 128, 255])) % 256
            elif k < 0.8 and len(b) < 16:
                b = b + [0] * rng.randrange(0, 16 - len(b)) + [rng.randrange(1, 256)]
            elif len(b) > 1:
                b = b[:rng.randrange(1, len(b))]
        else:
            b = [rng.randrange(256) for _ in range(rng.choice([1, 2, 8, 16, 16]))]
        full = tuple(b + [0] * (16 - len(b)))
        if any(full) and all(full != tuple(list(u) + [0] * (16 - len(u))) for u in used):
            return b


def make(rng, tier):
    n = rng.randrange(1, 9 if tier == "quick" else 12)
    classes, ids = [], []
    for i in range(n):
        i_d = fresh_id(rng, ids)
        ids.append(i_d)
        kind = "manual" if rng.random() < 0.25 else "helper"
        k = min(i, rng.choice([0, 1, 1, 1, 2, 2, 3]))
        bases = []
        for b in rng.sample(range(i), k):
            bases.append([b, rng.random() < 0.35])
        classes.append(dict(id=i_d, kind=kind, bases=bases, data=rng.randrange(0, 4), plain=rng.random() < 0.3,
                            final=False))
    desc = dict(classes=classes, picks=rng.randrange(1 << 30))
    return legal(desc)


def legal(desc):
    """Drops bases that would be inaccessible because they are inherited in another way as well."""
    cl = desc["classes"]
    for i, c in enumerate(cl):
        keep = []
        for b, v in c["bases"]:
            cand = keep + [[b, v]]
            if ok(cl, cand):
                keep = cand
        c["bases"] = keep
    return desc


def ancestors(cl, i):
    s = set()
    for b, _ in cl[i]["bases"]:
        s.add(b)
        s |= ancestors(cl, b)
    return s


def ok(cl, bases):
    # A direct base must be reachable unambiguously: no other direct base may contain it, unless every path to it is virtual.
    for x, (b, v) in enumerate(bases):
        for y, (o, _) in enumerate(bases):
            if x != y and b in ancestors(cl, o):
                if not v or subobjects(cl, o).get(b) != [1, True]:
                    return False
    return True


def subobjects(cl, i):
    """{class: [number of subobjects, all virtual]} of an object of class i, itself excluded."""
    virt, nonvirt = set(), {}

    def walk(c):
        for b, v in cl[c]["bases"]:
            if v:
                if b not in virt:
                    virt.add(b)
                    walk(b)
            else:
                nonvirt[b] = nonvirt.get(b, 0) + 1
                walk(b)

    walk(i)
    res = {}
    for b in virt | set(nonvirt):
        res[b] = [nonvirt.get(b, 0) + (1 if b in virt else 0), b not in nonvirt]
    return res


def path(cl, d, t, rng):
    """A chain of classes from d to t by direct inheritance."""
    todo = [[d]]
    while todo:
        p = todo.pop(0)
        if p[-1] == t:
            return p
        nxt = [b for b, _ in cl[p[-1]]["bases"]]
        rng.shuffle(nxt)
        todo += [p + [b] for b in nxt]
    return None


def render(desc, k):
    import random
    cl = desc["classes"]
    t = []
    for i, c in enumerate(cl):
        ids = ", ".join("0x%02X" % b for b in c["id"])
        data = "".join(" char d%d_%d = 0;" % (i, j) for j in range(c["data"]))
        if c["plain"]:
            t.append("struct P%d { virtual ~P%d() noexcept = default; long pad = 0; };" % (i, i))
        plain = ", public P%d" % i if c["plain"] else ""
        if c["kind"] == "helper":
            bs = []
            for b, v in c["bases"]:
                if v:
                    t.append("struct V%d_%d : public virtual C%d {};" % (i, b, b))
                    bs.append("V%d_%d" % (i, b))
                else:
                    bs.append("C%d" % b)
            t.append("struct C%d : public cetl::rtti_helper<%s>%s {%s };" % (i, ", ".join(["cetl::type_id_type<%s>" % ids] + bs), plain, data))
        else:
            bs = ["public virtual cetl::rtti"] + ["public %sC%d" % ("virtual " if v else "", b) for b, v in c["bases"]]
            body = "static constexpr cetl::type_id _get_type_id_() noexcept { return {{%s}}; }" % ids
            for q, cst in (("void*", "&"), ("const void*", "const&")):
                body += " %s _cast_(const cetl::type_id& id) %s noexcept override { if (id == _get_type_id_()) { return this; }" % (q, cst)
                for b, _ in c["bases"]:
                    body += " if (%s const p = C%d::_cast_(id)) { return p; }" % (q, b)
                body += " return nullptr; }"
            t.append("struct C%d : %s%s { %s virtual ~C%d() noexcept = default;%s };" % (i, ", ".join(bs), plain, body, i, data))
    t.append("""template <typename S, typename T> void triple(S* s, const char* what) {
    T* const want = dynamic_cast<T*>(s);
    const S* const cs = s;
    CHECK(cetl::rtti_cast<T*>(s) == want, "%s: %p, dynamic_cast %p", what, (void*) cetl::rtti_cast<T*>(s), (void*) want);
    CHECK(cetl::rtti_cast<T*>(cs) == want, "%s from const", what);
    CHECK(cetl::rtti_cast<const T*>(s) == want, "%s to const", what);
    CHECK(cetl::rtti_cast<const T*>(cs) == want, "%s const to const", what);
    CHECK(cetl::is_instance_of<T>(*s) == (want != nullptr), "%s is_instance_of", what);
    CHECK(cetl::is_instance_of(*cs, cetl::type_id_value<T>) == (want != nullptr), "%s is_instance_of by id", what);
    CHECK(cetl::rtti_cast<T*>(static_cast<S*>(nullptr)) == nullptr && cetl::rtti_cast<T*>(static_cast<const S*>(nullptr)) == nullptr, "%s null", what);
}""")
    t.append("void case_%d() {" % k)
    for i, c in enumerate(cl):
        full = list(c["id"]) + [0] * (16 - len(c["id"]))
        t.append("    { const cetl::type_id id = {{%s}}; CHECK(cetl::type_id_value<C%d> == id && C%d::_get_type_id_() == id && "
                 "cetl::type_id_getter<C%d>() == id, \"type id of C%d\"); }" % (", ".join(map(str, full)), i, i, i, i))
        t.append("    CHECK(cetl::type_id_value<const C%d&> == cetl::type_id_value<C%d> && cetl::type_id_value<const C%d> == cetl::type_id_value<C%d>, "
                 "\"qualified type id of C%d\");" % (i, i, i, i, i))
        t.append("    CHECK(cetl::has_type_id<C%d> && cetl::is_rtti_convertible<C%d> && cetl::has_type_id<const C%d&>, \"traits of C%d\");" % (i, i, i, i))
    rng = random.Random(desc["picks"])
    for d in range(len(cl)):
        sub = subobjects(cl, d)
        sub[d] = [1, False]
        t.append("    { C%d obj;" % d)
        pairs = [(s, g) for s in sub for g in range(len(cl)) if sub.get(g, [0])[0] <= 1]
        rng.shuffle(pairs)
        for s, g in pairs[:24]:
            chain = path(cl, d, s, rng)
            expr = "&obj"
            for p in chain[1:]:
                expr = "static_cast<C%d*>(%s)" % (p, expr)
            t.append('      triple<C%d, C%d>(%s, "C%d object seen as C%d cast to C%d");' % (s, g, expr, d, s, g))
        t.append('      CHECK(!cetl::is_instance_of(obj, cetl::type_id_value<void>), "no object is void"); }')
    t.append("}")
    return "\n".join(t)


def shrink(desc):
    cl = desc["classes"]
    for i in reversed(range(len(cl))):
        if len(cl) > 1:
            rest = []
            for j, c in enumerate(cl):
                if j != i:
                    rest.append(dict(c, bases=[[b - (1 if b > i else 0), v] for b, v in c["bases"] if b != i]))
            yield legal(dict(desc, classes=rest))
    for i, c in enumerate(cl):
        for j in range(len(c["bases"])):
            yield legal(dict(desc, classes=cl[:i] + [dict(c, bases=c["bases"][:j] + c["bases"][j + 1:])] + cl[i + 1:]))
        for j, (b, v) in enumerate(c["bases"]):
            if v:
                yield legal(dict(desc, classes=cl[:i] + [dict(c, bases=c["bases"][:j] + [[b, False]] + c["bases"][j + 1:])] + cl[i + 1:]))
        if c["plain"] or c["data"]:
            yield dict(desc, classes=cl[:i] + [dict(c, plain=False, data=0)] + cl[i + 1:])
        if c["kind"] == "manual":
            yield dict(desc, classes=cl[:i] + [dict(c, kind="helper")] + cl[i + 1:])


def nontrivial(desc):
    return any(c["bases"] for c in desc["classes"])


def labels(desc):
    cl = desc["classes"]
    r = []
    if any(len(c["bases"]) > 1 for c in cl):
        r.append("multiple inheritance")
    if any(v for c in cl for _, v in c["bases"]):
        r.append("virtual bases")
    for i in range(len(cl)):
        sub = subobjects(cl, i)
        if any(s[0] > 1 for s in sub.values()):
            r.append("repeated base")
            break
    if any(len([1 for c in cl[i]["bases"] if x == c[0] or x in ancestors(cl, c[0])]) > 1 for i in range(len(cl)) for x in ancestors(cl, i)):
        r.append("diamond")
    return r


def describe(desc):
    return "; ".join("C%d(%s) id %s: %s" % (i, c["kind"], bytes(c["id"]).hex(), ", ".join(("virtual " if v else "") + "C%d" % b for b, v in c["bases"]) or "no bases")
                     for i, c in enumerate(desc["classes"]))
