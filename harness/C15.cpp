// C15: polymorphic_allocator: memory requests, equality, uses-allocator construction.
#include "blocks.hpp"

#include "cetl/pf17/memory_resource.hpp"

#include <array>
#include <tuple>
#include <utility>

namespace
{
using Pmr = cetl::pf17::pmr::memory_resource;
template <typename T>
using PA = cetl::pf17::pmr::polymorphic_allocator<T>;

// ------------------------------------------------------------------------------------------------ memory
struct Classed final : Pmr
{
    mem::Ledger led;
    int         cls      = 0;
    std::size_t max      = std::numeric_limits<std::size_t>::max();
    bool        throwing = false;
    struct Asked
    {
        int         times = 0;
        void*       p     = nullptr;
        std::size_t old_bytes = 0, bytes = 0, align = 0;
    } asked;
    void*       do_allocate(std::size_t n, std::size_t a) override { return led.allocate(n, a); }
    void        do_deallocate(void* p, std::size_t n, std::size_t a) override { led.deallocate(p, n, a); }
    bool        do_is_equal(const Pmr& o) const noexcept override { return cls == static_cast<const Classed&>(o).cls; }
    std::size_t do_max_size() const noexcept override { return max; }
    void*       do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t a) override
    {
        asked = Asked{asked.times + 1, p, o, n, a};
#if PBT_EXC
        if (throwing)
        {
            throw std::bad_alloc();
        }
#endif
        return led.reallocate(p, o, n, a);
    }
};
template <std::size_t S, std::size_t A>
struct alignas(A) Obj
{
    char bytes[S];
};

template <typename T>
void memory(pbt::Case& c, std::vector<std::unique_ptr<Classed>>& res)
{
    constexpr std::size_t max = std::numeric_limits<std::size_t>::max();
    struct Held
    {
        T*            p;
        std::size_t   n;
        std::size_t   r;
        unsigned char tag;
    };
    std::vector<Held> held;
    int               ops = 0, moved = 0, failed = 0;
    const int         n = static_cast<int>(c.range(1, 16));
    for (int i = 0; i < n; ++i)
    {
        const auto r = static_cast<std::size_t>(c.below(res.size()));
        PA<T>      a(res[r].get());
        PA<T>      copy(a);
        PA<char>   other(a);
        PA<T>      a2(other);
        PA<T>&     use = *(c.boolean() ? &a2 : c.boolean() ? &copy : &a);
        auto&      led = res[r]->led;
        switch (c.weighted({4, 3, 3, 2, 1}))
        {
        case 0: {
            std::size_t k = 0;
            switch (c.below(4))
            {
            case 0:
                k = max / sizeof(T) + static_cast<std::size_t>(c.below(4));
                k -= 2;
                break;
            case 1:
                k = max - static_cast<std::size_t>(c.below(3));
                break;
            default:
                k = static_cast<std::size_t>(c.below(40));
            }
            c.log("allocate(%zu) of %zu-byte objects from resource %zu", k, sizeof(T), r);
            const auto     requests = led.requests;
            T*             p        = nullptr;
            bool           length   = false;
            const trk::Res x        = trk::attempt([&] {
#if PBT_EXC
                try
                {
                    p = use.allocate(k);
                }
                catch (const std::bad_array_new_length&)
                {
                    length = true;
                    throw;
                }
#else
                p = use.allocate(k);
#endif
            });
            mem::check_events();
            if (k > max / sizeof(T))
            {
                PBT_CHECK(led.requests == requests, "allocate(%zu) reached the resource with %zu bytes", k, led.last_bytes);
                PBT_CHECK(p == nullptr && (!PBT_EXC || (x == trk::Res::BadAlloc && length)), "allocate(%zu) did not fail with bad_array_new_length", k);
                ++failed;
                break;
            }
            PBT_CHECK(led.requests == requests + 1 && led.last_bytes == k * sizeof(T) && led.last_align == alignof(T),
                      "allocate(%zu) of (%zu, %zu): the resource was asked for %zu bytes aligned to %zu", k, sizeof(T), alignof(T), led.last_bytes,
                      led.last_align);
            if (k * sizeof(T) > led.limit)
            {
                PBT_CHECK(p == nullptr && (!PBT_EXC || x == trk::Res::BadAlloc), "the failure of the resource was not passed on");
                ++failed;
                break;
            }
            PBT_CHECK(x == trk::Res::Ok && p != nullptr, "allocate(%zu) failed", k);
            const auto tag = static_cast<unsigned char>(i * 13 + 1);
            std::memset(static_cast<void*>(p), tag, k * sizeof(T));
            held.push_back({p, k, r, tag});
            break;
        }
        case 1: {
            if (held.empty())
            {
                break;
            }
            const auto k = static_cast<std::size_t>(c.below(held.size()));
            const Held h = held[k];
            PA<T>      d(res[h.r].get());
            c.log("deallocate(p, %zu)", h.n);
            const auto returns = res[h.r]->led.returns;
            d.deallocate(h.p, h.n);
            mem::check_events();
            PBT_CHECK(res[h.r]->led.returns == returns + 1, "deallocate did not reach the resource");
            held.erase(held.begin() + static_cast<std::ptrdiff_t>(k));
            break;
        }
        case 2: {
            if (held.empty())
            {
                break;
            }
            const auto k = static_cast<std::size_t>(c.below(held.size()));
            Held&      h = held[k];
            if (h.n == 0)
            {
                break;
            }
            const bool        huge  = c.chance(1, 6);
            const bool        most  = !huge && c.chance(1, 6);
            const std::size_t to    = huge   ? max / sizeof(T) + static_cast<std::size_t>(c.range(1, 5))
                                      : most ? max / sizeof(T) - static_cast<std::size_t>(c.below(3))
                                             : static_cast<std::size_t>(c.range(1, 50));
            res[h.r]->throwing      = PBT_EXC && c.chance(1, 6);
            const bool throws       = res[h.r]->throwing;
            if (huge && sizeof(T) == 1)
            {
                break;
            }
            PA<T> d(res[h.r].get());
            c.log("reallocate(p, %zu, %zu)%s", h.n, to, throws ? " (resource throws)" : "");
            T*             p = nullptr;
            const auto     reallocs = res[h.r]->led.reallocs;
            res[h.r]->asked = Classed::Asked{};
            const trk::Res x = trk::attempt([&] { p = d.reallocate(h.p, h.n, to); });
            res[h.r]->throwing = false;
            mem::check_events();
            PBT_CHECK(x == trk::Res::Ok || x == trk::Res::BadAlloc, "reallocate threw %s", trk::name(x));
            if (huge)
            {
                PBT_CHECK(p == nullptr && res[h.r]->asked.times == 0 && res[h.r]->led.reallocs == reallocs, "reallocate(p, %zu, %zu) wrapped around and succeeded", h.n, to);
                ++failed;
                break;
            }
            const Classed::Asked& q = res[h.r]->asked;
            PBT_CHECK(q.times == 1, "reallocate(p, %zu, %zu) asked the resource %d times", h.n, to, q.times);
            PBT_CHECK(q.p == h.p && q.old_bytes == h.n * sizeof(T) && q.bytes == to * sizeof(T) && q.align == alignof(T),
                      "reallocate(p, %zu, %zu) of (%zu, %zu) asked the resource for %zu to %zu bytes aligned to %zu", h.n, to, sizeof(T), alignof(T), q.old_bytes,
                      q.bytes, q.align);
            PBT_CHECK(throws == (x == trk::Res::BadAlloc), "reallocate: the exception of the resource was lost or invented");
            PBT_CHECK(throws || static_cast<void*>(p) == res[h.r]->led.last_answer, "reallocate: the answer of the resource was not passed on");
            if (p != nullptr)
            {
                auto it = res[h.r]->led.blocks.find(reinterpret_cast<char*>(p));
                PBT_CHECK(it != res[h.r]->led.blocks.end() && it->second.bytes == to * sizeof(T), "reallocate(p, %zu, %zu): wrong number of bytes", h.n, to);
                const auto* b = reinterpret_cast<const unsigned char*>(p);
                for (std::size_t j = 0; j < std::min(h.n, to) * sizeof(T); ++j)
                {
                    PBT_CHECK(b[j] == h.tag, "reallocate lost contents");
                }
                h.p = p;
                h.n = to;
                std::memset(static_cast<void*>(p), h.tag, to * sizeof(T));
                ++moved;
            }
            break;
        }
        case 3: {
            const auto s = static_cast<std::size_t>(c.below(res.size()));
            PA<int>    b(res[s].get());
            const bool eq = s == r || res[s]->cls == res[r]->cls;
            c.log("compare allocators of resources %zu and %zu", r, s);
            PBT_CHECK((use == b) == eq && (b == use) == eq && (use != b) == !eq, "allocators over %s resources compare wrong", eq ? "equal" : "different");
            break;
        }
        default:
            PBT_CHECK(use.resource() == res[r].get() && use.select_on_container_copy_construction().resource() == res[r].get(), "resource() is another resource");
            PBT_CHECK(use.max_size() == res[r]->max / sizeof(T), "max_size() is %zu", use.max_size());
            break;
        }
        ++ops;
        for (const auto& h : held)
        {
            const auto* b = reinterpret_cast<const unsigned char*>(h.p);
            for (std::size_t j = 0; j < h.n * sizeof(T); ++j)
            {
                PBT_CHECK(b[j] == h.tag, "contents of a live block changed");
            }
        }
    }
    for (const auto& h : held)
    {
        PA<T>(res[h.r].get()).deallocate(h.p, h.n);
    }
    mem::check_events();
    for (auto& r : res)
    {
        PBT_CHECK(r->led.blocks.empty(), "blocks were not returned");
    }
    if (ops >= 4 && (moved > 0 || failed > 0 || res.size() > 1))
    {
        c.nontrivial();
    }
}
void allocation(pbt::Case& c)
{
    mem::events().error.clear();
    std::vector<std::unique_ptr<Classed>> res;
    const auto                            n = 1 + c.below(3);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        res.emplace_back(new Classed);
        res.back()->cls              = static_cast<int>(c.below(3));
        res.back()->led.id           = static_cast<int>(i);
        res.back()->led.limit        = 100000;
        res.back()->led.realloc_mode = static_cast<trk::Realloc>(c.below(4));
        res.back()->led.rng          = c.below(100000) + 1;
        if (c.boolean())
        {
            res.back()->max = static_cast<std::size_t>(c.below(10000));
        }
    }
    switch (c.below(6))
    {
    case 0:
        return memory<char>(c, res);
    case 1:
        return memory<std::uint16_t>(c, res);
    case 2:
        return memory<Obj<24, 8>>(c, res);
    case 3:
        return memory<Obj<3, 1>>(c, res);
    case 4:
        return memory<Obj<64, 64>>(c, res);
    default:
        return memory<long double>(c, res);
    }
}

// ------------------------------------------------------------------------------------------------ construct
/// How one argument arrived.
constexpr unsigned kAlive = 0xA11FE5;
struct Arg
{
    int  value = 0;
    int  moves = 0;   // times it was move constructed from (detects copies of rvalues)
    unsigned alive = kAlive;
    Arg() = default;
    explicit Arg(int v) : value(v) {}
    Arg(const Arg& o) : value(o.value), moves(o.moves), alive(o.alive) {}
    Arg(Arg&& o) noexcept : value(o.value), moves(o.moves + 1), alive(o.alive)
    {
        o.value = -1;
    }
    Arg& operator=(const Arg&) = delete;
    ~Arg()
    {
        value = -99;
        alive = 0;
    }
};
enum Category
{
    None,
    LRef,
    CRef,
    RRef
};
enum Way
{
    Plain,
    Leading,
    Trailing
};
/// A type that notes how it was constructed. Conv: which conventions it supports.
enum Conv
{
    NotAware,
    LeadingOnly,
    TrailingOnly,
    Both
};
template <Conv C>
struct Aware
{
    using allocator_type = PA<char>;
};
template <>
struct Aware<NotAware>
{};

struct Counted
{
    static int& live()
    {
        static int n = 0;
        return n;
    }
    Counted() { ++live(); }
    Counted(const Counted&) = delete;
    ~Counted() { --live(); }
};
template <Conv C, bool MoveOnly = false>
struct Probe : Aware<C>, Counted
{
    Way              way  = Plain;
    const Pmr*       res  = nullptr;
    int              argc = 0;
    std::array<int, 2> value{{0, 0}};
    std::array<int, 2> cat{{None, None}};

    void note(int i, Arg& a) { put(i, a, LRef); }
    void note(int i, const Arg& a) { put(i, a, CRef); }
    void note(int i, Arg&& a)
    {
        put(i, a, RRef);
        Arg sink(std::move(a));
    }
    void put(int i, const Arg& a, int k)
    {
        PBT_CHECK(a.alive == kAlive, "an argument was used after its lifetime");
        value[static_cast<std::size_t>(i)] = a.value;
        cat[static_cast<std::size_t>(i)]   = k;
        argc                               = std::max(argc, i + 1);
    }
    template <typename A>
    using IsArg = std::enable_if_t<std::is_same<std::decay_t<A>, Arg>::value, int>;
    // plain
    Probe() {}
    template <typename A, IsArg<A> = 0>
    explicit Probe(A&& a)
    {
        note(0, std::forward<A>(a));
    }
    template <typename A, typename B, IsArg<A> = 0, IsArg<B> = 0>
    Probe(A&& a, B&& b)
    {
        note(0, std::forward<A>(a));
        note(1, std::forward<B>(b));
    }
    // leading
    template <Conv D = C, std::enable_if_t<D == LeadingOnly || D == Both, int> = 0>
    Probe(std::allocator_arg_t, const PA<char>& al) : way(Leading), res(al.resource())
    {
    }
    template <typename A, IsArg<A> = 0, Conv D = C, std::enable_if_t<D == LeadingOnly || D == Both, int> = 0>
    Probe(std::allocator_arg_t, const PA<char>& al, A&& a) : Probe(std::forward<A>(a))
    {
        way = Leading;
        res = al.resource();
    }
    template <typename A, typename B, IsArg<A> = 0, IsArg<B> = 0, Conv D = C, std::enable_if_t<D == LeadingOnly || D == Both, int> = 0>
    Probe(std::allocator_arg_t, const PA<char>& al, A&& a, B&& b) : Probe(std::forward<A>(a), std::forward<B>(b))
    {
        way = Leading;
        res = al.resource();
    }
    // trailing
    template <Conv D = C, std::enable_if_t<D == TrailingOnly || D == Both, int> = 0>
    explicit Probe(const PA<char>& al) : way(Trailing), res(al.resource())
    {
    }
    template <typename A, IsArg<A> = 0, Conv D = C, std::enable_if_t<D == TrailingOnly || D == Both, int> = 0>
    Probe(A&& a, const PA<char>& al) : Probe(std::forward<A>(a))
    {
        way = Trailing;
        res = al.resource();
    }
    template <typename A, typename B, IsArg<A> = 0, IsArg<B> = 0, Conv D = C, std::enable_if_t<D == TrailingOnly || D == Both, int> = 0>
    Probe(A&& a, B&& b, const PA<char>& al) : Probe(std::forward<A>(a), std::forward<B>(b))
    {
        way = Trailing;
        res = al.resource();
    }
    Probe(const Probe&)            = delete;
    Probe& operator=(const Probe&) = delete;
};

struct Want
{
    int                argc = 0;
    std::array<int, 2> value{{0, 0}};
    std::array<int, 2> cat{{None, None}};
};
template <Conv C, bool M>
void expect(const char* what, const Probe<C, M>& p, const Want& w, const Pmr* r)
{
    const Way way = C == NotAware ? Plain : (C == TrailingOnly ? Trailing : Leading);
    PBT_CHECK(p.way == way, "%s: allocator passed %s instead of %s", what, p.way == Plain ? "not at all" : p.way == Leading ? "leading" : "trailing",
              way == Plain ? "not at all" : way == Leading ? "leading" : "trailing");
    PBT_CHECK(way == Plain || p.res == r, "%s: another resource was passed", what);
    PBT_CHECK(p.argc == w.argc, "%s: %d arguments arrived instead of %d", what, p.argc, w.argc);
    for (std::size_t i = 0; i < 2; ++i)
    {
        PBT_CHECK(p.value[i] == w.value[i], "%s: argument %zu arrived with value %d instead of %d", what, i, p.value[i], w.value[i]);
        PBT_CHECK(p.cat[i] == w.cat[i], "%s: argument %zu arrived as category %d instead of %d (1 lvalue, 2 const lvalue, 3 rvalue)", what, i, p.cat[i],
                  w.cat[i]);
    }
}
/// Storage for one object, poisoned around it.
template <typename T>
struct Slot
{
    alignas(T) char raw[sizeof(T)];
    T*   get() { return reinterpret_cast<T*>(raw); }
    Slot() { std::memset(raw, 0xEE, sizeof(raw)); }
};
// Calls f with an argument of a chosen category; the others are recorded in w.
template <typename F>
void with_arg(pbt::Case& c, Want& w, F f)
{
    const int v = static_cast<int>(c.range(1, 1000));
    const auto i = static_cast<std::size_t>(w.argc);
    ++w.argc;
    w.value[i] = v;
    Arg a(v);
    switch (c.below(3))
    {
    case 0:
        c.log("argument %d: lvalue %d", static_cast<int>(i), v);
        w.cat[i] = LRef;
        return f(a);
    case 1:
        c.log("argument %d: const lvalue %d", static_cast<int>(i), v);
        w.cat[i] = CRef;
        return f(static_cast<const Arg&>(a));
    default:
        c.log("argument %d: rvalue %d", static_cast<int>(i), v);
        w.cat[i] = RRef;
        return f(std::move(a));
    }
}
template <typename T, Conv C>
void single(pbt::Case& c, Pmr* r)
{
    using P = Probe<C>;
    PA<T>   al(r);
    Slot<P> s;
    const int live = Counted::live();
    Want    w;
    switch (c.below(3))
    {
    case 0:
        al.construct(s.get());
        break;
    case 1:
        with_arg(c, w, [&](auto&& a) { al.construct(s.get(), std::forward<decltype(a)>(a)); });
        break;
    default:
        with_arg(c, w, [&](auto&& a) { with_arg(c, w, [&](auto&& b) { al.construct(s.get(), std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
        c.nontrivial();
    }
    expect("construct", *s.get(), w, r);
    PBT_CHECK(Counted::live() == live + 1, "construct made %d objects", Counted::live() - live);
    al.destroy(s.get());
    PBT_CHECK(Counted::live() == live, "destroy left %d objects", Counted::live() - live);
}
template <Conv C1, Conv C2>
void pair(pbt::Case& c, Pmr* r)
{
    using P1   = Probe<C1>;
    using P2   = Probe<C2>;
    using Pair = std::pair<P1, P2>;
    PA<Pair>   al(r);
    Slot<Pair> s;
    const int  live = Counted::live();
    Want       w1, w2;
    const char* what = "";
    switch (c.below(9))
    {
    case 0:
        what = "construct(pair*)";
        al.construct(s.get());
        break;
    case 1:
        what = "construct(pair*, x, y)";
        with_arg(c, w1, [&](auto&& a) { with_arg(c, w2, [&](auto&& b) { al.construct(s.get(), std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
        break;
    case 2: {
        what = "construct(pair*, const pair&)";
        const std::pair<Arg, Arg> from(Arg(static_cast<int>(c.range(1, 99))), Arg(static_cast<int>(c.range(100, 199))));
        w1.argc = w2.argc = 1;
        w1.value[0]       = from.first.value;
        w2.value[0]       = from.second.value;
        w1.cat[0] = w2.cat[0] = CRef;
        al.construct(s.get(), from);
        break;
    }
    case 3: {
        what = "construct(pair*, pair&&)";
        std::pair<Arg, Arg> from(Arg(static_cast<int>(c.range(1, 99))), Arg(static_cast<int>(c.range(100, 199))));
        w1.argc = w2.argc = 1;
        w1.value[0]       = from.first.value;
        w2.value[0]       = from.second.value;
        w1.cat[0] = w2.cat[0] = RRef;
        al.construct(s.get(), std::move(from));
        break;
    }
    case 4: {
        what = "construct(pair*, pair<T&, T&&>&&)";
        Arg                    a(static_cast<int>(c.range(1, 99))), b(static_cast<int>(c.range(100, 199)));
        std::pair<Arg&, Arg&&> from(a, std::move(b));
        w1.argc = w2.argc = 1;
        w1.value[0]       = a.value;
        w2.value[0]       = b.value;
        w1.cat[0]         = LRef;
        w2.cat[0]         = RRef;
        al.construct(s.get(), std::move(from));
        break;
    }
    case 5:
        what = "piecewise, arguments by reference";
        with_arg(c, w1, [&](auto&& a) {
            with_arg(c, w2, [&](auto&& b) {
                with_arg(c, w2, [&](auto&& d) {
                    al.construct(s.get(), std::piecewise_construct, std::forward_as_tuple(std::forward<decltype(a)>(a)),
                                 std::forward_as_tuple(std::forward<decltype(b)>(b), std::forward<decltype(d)>(d)));
                });
            });
        });
        break;
    case 6:
        what = "piecewise, arguments by value";
        w1.argc     = 2;
        w2.argc     = 1;
        w1.value[0] = static_cast<int>(c.range(1, 99));
        w1.value[1] = static_cast<int>(c.range(1, 99));
        w2.value[0] = static_cast<int>(c.range(1, 99));
        w1.cat[0] = w1.cat[1] = w2.cat[0] = RRef;
        al.construct(s.get(), std::piecewise_construct, std::tuple<Arg, Arg>(Arg(w1.value[0]), Arg(w1.value[1])), std::tuple<Arg>(Arg(w2.value[0])));
        break;
    case 7: {
        what        = "piecewise, no arguments and a mixed tuple";
        w2.argc     = 2;
        w2.value[0] = static_cast<int>(c.range(1, 99));
        w2.value[1] = static_cast<int>(c.range(1, 99));
        w2.cat[0]   = RRef;
        w2.cat[1]   = LRef;
        Arg l(w2.value[1]);
        al.construct(s.get(), std::piecewise_construct, std::tuple<>(), std::tuple<Arg, Arg&>(Arg(w2.value[0]), l));
        break;
    }
    default: {
        what = "construct(pair*, pair&)";
        std::pair<Arg, Arg> from(Arg(static_cast<int>(c.range(1, 99))), Arg(static_cast<int>(c.range(100, 199))));
        w1.argc = w2.argc = 1;
        w1.value[0]       = from.first.value;
        w2.value[0]       = from.second.value;
        w1.cat[0] = w2.cat[0] = CRef;
        al.construct(s.get(), from);
        break;
    }
    }
    c.log("%s of pair<%d, %d>", what, static_cast<int>(C1), static_cast<int>(C2));
    c.nontrivial();
    expect(what, s.get()->first, w1, r);
    expect(what, s.get()->second, w2, r);
    al.destroy(s.get());
    PBT_CHECK(Counted::live() == live, "destroy left %d objects", Counted::live() - live);
}
template <Conv C1>
void pairs(pbt::Case& c, Pmr* r)
{
    switch (c.below(4))
    {
    case 0:
        return pair<C1, NotAware>(c, r);
    case 1:
        return pair<C1, LeadingOnly>(c, r);
    case 2:
        return pair<C1, TrailingOnly>(c, r);
    default:
        return pair<C1, Both>(c, r);
    }
}
void construct(pbt::Case& c)
{
    mem::Res  res;
    const auto k = c.below(4);
    if (c.chance(1, 5))
    {
        const bool same = c.boolean();
        c.log("single object, conventions %d", static_cast<int>(k));
        switch (k)
        {
        case 0:
            return same ? single<Probe<NotAware>, NotAware>(c, &res) : single<int, NotAware>(c, &res);
        case 1:
            return same ? single<Probe<LeadingOnly>, LeadingOnly>(c, &res) : single<int, LeadingOnly>(c, &res);
        case 2:
            return same ? single<Probe<TrailingOnly>, TrailingOnly>(c, &res) : single<int, TrailingOnly>(c, &res);
        default:
            return same ? single<Probe<Both>, Both>(c, &res) : single<int, Both>(c, &res);
        }
    }
    switch (k)
    {
    case 0:
        return pairs<NotAware>(c, &res);
    case 1:
        return pairs<LeadingOnly>(c, &res);
    case 2:
        return pairs<TrailingOnly>(c, &res);
    default:
        return pairs<Both>(c, &res);
    }
}
}  // namespace
PBT_TARGET(pa_memory, allocation, 10000, 200000);
PBT_TARGET(pa_construct, construct, 10000, 100000);
