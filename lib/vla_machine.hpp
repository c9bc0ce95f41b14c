// State machine over several VariableLengthArrays with a reference model. Shared by C01..C06.
#pragma once
#include "track.hpp"

#include <cetl/variable_length_array.hpp>

#include <deque>
#include <iterator>

namespace vm
{
using trk::Res;

/// Which oracles decide the case, and which faults are injected.
struct Focus
{
    bool contents  = false;  // sequence equals the model after every operation
    bool limits    = false;  // max_size/capacity rules
    bool ownership = false;  // ledger and live objects
    bool oom       = false;  // inject allocation failures
    bool throws    = false;  // inject element exceptions
};

// --- element types --------------------------------------------------------------------------------------------------
struct Pod
{
    int           v;
    unsigned char pad[5];
    friend bool   operator==(const Pod& a, const Pod& b) { return a.v == b.v; }
};
struct alignas(32) Over
{
    int         v;
    friend bool operator==(const Over& a, const Over& b) { return a.v == b.v; }
};

template <typename T>
struct ET
{
    static constexpr bool copyable  = true;
    static constexpr bool strong    = true;
    static constexpr bool tracked   = false;
    static constexpr bool moves    = false;
    static T              make(int v) { return T(v); }
    static int            get(const T& t) { return static_cast<int>(t); }
    static int            dflt() { return 0; }
};
template <>
struct ET<bool>
{
    static constexpr bool copyable = true;
    static constexpr bool strong   = true;
    static constexpr bool tracked  = false;
    static constexpr bool moves    = false;
    static bool           make(int v) { return (v & 1) != 0; }
    static int            get(bool t) { return t ? 1 : 0; }
    static int            dflt() { return 0; }
};
template <>
struct ET<Pod>
{
    static constexpr bool copyable = true;
    static constexpr bool strong   = true;
    static constexpr bool tracked  = false;
    static constexpr bool moves    = false;
    static Pod            make(int v) { return Pod{v, {1, 2, 3, 4, 5}}; }
    static int            get(const Pod& t) { return t.v; }
    static int            dflt() { return 0; }
};
template <>
struct ET<Over>
{
    static constexpr bool copyable = true;
    static constexpr bool strong   = true;
    static constexpr bool tracked  = false;
    static constexpr bool moves    = false;
    static Over           make(int v)
    {
        Over o{};
        o.v = v;
        return o;
    }
    static int get(const Over& t)
    {
        PBT_CHECK(reinterpret_cast<std::uintptr_t>(&t) % alignof(Over) == 0, "misaligned element");
        return t.v;
    }
    static int dflt() { return 0; }
};
template <>
struct ET<std::string>
{
    static constexpr bool copyable = true;
    static constexpr bool strong   = true;
    static constexpr bool tracked  = false;
    static constexpr bool moves    = false;
    // short (in-object) and long (heap) representations
    static std::string make(int v)
    {
        std::string s = std::to_string(v);
        if (v % 3 == 1)
        {
            s += std::string(40, 'x');
        }
        return s;
    }
    static int get(const std::string& s) { return s.empty() ? -1 : std::atoi(s.c_str()); }
    static int dflt() { return -1; }
};
template <unsigned F>
struct ET<trk::Elem<F>>
{
    static constexpr bool copyable = (F & trk::Copyable) != 0;
    static constexpr bool strong   = copyable || (F & trk::NothrowMove) != 0;
    static constexpr bool tracked  = true;
    static constexpr bool moves    = (F & trk::Movable) != 0;  // a move leaves a trace
    static trk::Elem<F>   make(int v) { return trk::Elem<F>(v); }
    static int            get(const trk::Elem<F>& t) { return t.get(); }
    static int            dflt() { return 0; }
};

/// Tracked element that cannot be made from nothing.
struct Seeded : trk::Elem<trk::Full>
{
    explicit Seeded(int v) : trk::Elem<trk::Full>(v) {}
};
template <>
struct ET<Seeded>
{
    static constexpr bool copyable = true;
    static constexpr bool strong   = true;
    static constexpr bool tracked  = true;
    static constexpr bool moves    = true;
    static Seeded         make(int v) { return Seeded(v); }
    static int            get(const Seeded& t) { return t.get(); }
    static int            dflt() { return 0; }
};

inline std::string show(const std::vector<int>& v)
{
    std::string s = "[";
    for (std::size_t i = 0; i < v.size() && i < 100; ++i)
    {
        s += (i != 0 ? "," : "") + std::to_string(v[i]);
    }
    return s + "]";
}

/// Normalises a model value to what the element type can hold.
template <typename T>
int norm(int v)
{
    return ET<T>::get(ET<T>::make(v));
}
template <>
inline int norm<bool>(int v)
{
    return v & 1;
}

template <typename T, typename A>
struct AllocModel
{
    // Uniform view of arena-backed and ordinary allocators.
    static constexpr bool arena = false;
};

// --- the machine ----------------------------------------------------------------------------------------------------
template <typename T, unsigned AF>
class Machine
{
public:
    using A   = trk::Alloc<T, AF>;
    using V   = cetl::VariableLengthArray<T, A>;
    using AA  = typename V::allocator_type;
    using E   = ET<T>;
    static constexpr bool   is_bool = std::is_same<T, bool>::value;
    static constexpr bool   pocca   = (AF & 1U) != 0;
    static constexpr bool   pocma   = (AF & 2U) != 0;
    static constexpr std::size_t N  = 3;
    static constexpr std::size_t NA = 3;
    static constexpr std::size_t kBig = std::numeric_limits<std::size_t>::max();

    Machine(pbt::Case& cs, const Focus& f)
        : c(cs)
        , focus(f)
    {
        trk::reset_world();
        for (std::size_t i = 0; i < NA; ++i)
        {
            arenas[i].id   = static_cast<int>(i);
            arenas[i].next = &arenas[(i + 1) % NA];
        }
    }

    void run()
    {
        configure();
        std::size_t n = 0;
        while (c.more(n, 40, 60))
        {
            step();
        }
        finish();
        if (n >= 3 && interesting >= 2)
        {
            c.nontrivial();
        }
    }

private:
    struct Slot
    {
        alignas(V) unsigned char raw[sizeof(V)];
        V*               v = nullptr;
        std::vector<int> m;             // model contents
        std::size_t      limit = 0;     // max_size_max
        trk::Arena*      arena = nullptr;
    };

    pbt::Case&  c;
    Focus       focus;
    trk::Arena  arenas[NA];
    Slot        slots[N];
    unsigned    interesting = 0;
    const char* opname      = "";
    bool        oom_fired   = false;
    bool        throw_fired = false;

    // --- helpers ---
    static std::size_t saturate8(std::size_t x) { return x > kBig / 8 ? kBig - 7 : x * 8; }
    std::size_t effective(const Slot& s) const
    {
        const std::size_t byte_max = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
        if (is_bool)
        {
            return std::min(s.limit, saturate8(std::min(byte_max, s.arena->max_n)));
        }
        return std::min(s.limit, std::min(byte_max / sizeof(T), s.arena->max_n));
    }
    Slot& pick() { return slots[c.below(N)]; }
    trk::Arena* pick_arena() { return &arenas[(AF & 8U) != 0 ? 0 : c.below(NA)]; }
    int value() { return norm<T>(static_cast<int>(c.below(is_bool ? 2 : 30))); }
    std::size_t pick_limit()
    {
        if (is_bool)
        {
            static const std::size_t tab[] = {kBig, 0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, kBig - 1, 80, 25};
            return tab[c.below(focus.limits ? 16 : 2) == 0 ? 0 : c.below(16)];
        }
        static const std::size_t tab[] = {kBig, 0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 14, 20, kBig - 1, 40, 6};
        return tab[c.below(focus.limits ? 16 : 2) == 0 ? 0 : c.below(16)];
    }
    std::size_t pick_count(const Slot& s)
    {
        const std::size_t size = s.m.size();
        const std::size_t big  = is_bool ? 70 : 20;
        switch (c.weighted({8, 3, 3, 2, 1, focus.limits ? 2U : 0U}))
        {
        case 0:
            return c.below(big);
        case 1:
            return size + c.below(3);
        case 2:
            return size - c.below(std::min<std::size_t>(size, 3) + 1);
        case 3: {
            const std::size_t e = effective(s);
            return e > 200 ? c.below(big) : e - std::min<std::size_t>(e, 1) + c.below(3);
        }
        case 4:
            return c.below(is_bool ? 300 : 60);
        default:
            // far over any limit, but never a size an unlimited array would try to obtain
            return effective(s) > (1U << 20) ? c.below(big) : c.pick<std::size_t>({kBig, kBig / 2, kBig - 7, kBig / 8, 100000});
        }
    }
    void configure()
    {
        for (auto& a : arenas)
        {
            a.rng          = c.below(1U << 16) + 1;
            // The block of elements that have to be moved one by one is only ever extended or shrunk in place: the other
            // case is the known finding `realloc_relocates`.
            const unsigned modes = std::is_trivially_copyable<T>::value ? 4 : 2;
            a.realloc_mode       = (AF & 4U) != 0 ? static_cast<trk::Realloc>(c.below(modes)) : trk::Realloc::Never;
            if (c.chance(1, focus.limits ? 2 : 6))
            {
                a.max_n = c.pick<std::size_t>({5, 1, 2, 10, 17, 0});
            }
            if (c.chance(1, 4))
            {
                a.soccc = pick_arena();
            }
            c.log("allocator %d: max_size=%zu realloc=%d copies to %d", a.id, a.max_n, static_cast<int>(a.realloc_mode),
                  a.soccc != nullptr ? a.soccc->id : a.id);
        }
    }

    // --- running one operation ---
    void arm()
    {
        oom_fired   = false;
        throw_fired = false;
        for (auto& a : arenas)
        {
            a.failed = false;
        }
        if (focus.oom && c.chance(1, 3))
        {
            const auto in   = static_cast<std::int64_t>(c.below(3));
            const bool rest = c.boolean();
            for (auto& a : arenas)
            {
                a.arm_failure(in, rest);
            }
            c.log("  (allocation %d of this step fails%s)", static_cast<int>(in), rest ? ", and all later ones" : "");
        }
        trk::world().thrown = false;
        if (focus.throws && PBT_EXC && E::tracked && c.chance(1, 3))
        {
            const auto in = static_cast<std::int64_t>(c.below(c.chance(1, 3) ? 24 : 6));
            trk::arm(in);
            c.log("  (element operation %d of this step throws)", static_cast<int>(in));
        }
    }
    template <typename F>
    Res exec(F&& f)
    {
        const Res r = trk::attempt(std::forward<F>(f));
        for (auto& a : arenas)
        {
            oom_fired = oom_fired || a.failed;
            a.disarm_failure();
        }
        throw_fired = trk::world().thrown;
        trk::disarm();
        if (oom_fired)
        {
            c.label("allocation failed");
            ++interesting;
        }
        if (throw_fired)
        {
            c.label("element threw");
            ++interesting;
        }
        if (r != Res::Ok)
        {
            c.log("  -> %s", trk::name(r));
        }
        // An element's exception must reach the caller, and nothing else may come out for it.
        if (throw_fired && focus.throws)
        {
            PBT_CHECK(r == Res::Boom, "%s: element exception ended as '%s'", opname, trk::name(r));
        }
        if (r == Res::Boom)
        {
            PBT_CHECK(throw_fired, "spurious exception");
        }
        if (r == Res::BadAlloc)
        {
            PBT_CHECK(oom_fired, "%s: bad_alloc although no allocation failed", opname);
        }
        PBT_CHECK(r != Res::Range && r != Res::Other, "%s: unexpected %s", opname, trk::name(r));
        return r;
    }

    static std::vector<int> read(const V& v)
    {
        std::vector<int> r;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            r.push_back(E::get(v[i]));
        }
        return r;
    }
    static bool prefix(const std::vector<int>& p, const std::vector<int>& full)
    {
        return p.size() <= full.size() && std::equal(p.begin(), p.end(), full.begin());
    }
    void resync(Slot& s)
    {
        if (s.v != nullptr)
        {
            PBT_CHECK(s.v->size() <= s.v->capacity(), "%s left size %zu over capacity %zu", opname, s.v->size(), s.v->capacity());
            s.m = read(*s.v);
        }
    }
    void expect(const Slot& s, const std::vector<int>& want, const char* why) const
    {
        const auto got = read(*s.v);
        if (got != want)
        {
            pbt::fail("%s (%s): array holds %s, expected %s", opname, why, show(got).c_str(), show(want).c_str());
        }
    }

    /// Judges an operation that changes one array from s.m to `want` and needs room for `need` elements.
    /// `strong`: an exception leaves the contents unchanged.
    void judge(Slot& s, Res r, const std::vector<int>& want, std::size_t need, bool strong, bool pushes)
    {
        const std::size_t max  = effective(s);
        const bool        over = need > max;
        if (over)
        {
            c.label("over the limit");
            ++interesting;
        }
#if PBT_EXC
        (void) pushes;
        if (over)
        {
            if (focus.limits)
            {
                PBT_CHECK(r == Res::Length, "%s for %zu elements with max_size %zu ended as '%s'", opname, need, max, trk::name(r));
            }
            if (r != Res::Ok)
            {
                if (focus.limits || focus.contents)
                {
                    expect(s, s.m, "refused request");
                }
                resync(s);
                return;
            }
        }
        PBT_CHECK(over || r != Res::Length, "%s for %zu elements refused with max_size %zu", opname, need, max);
        if (r == Res::Ok)
        {
            expect(s, want, "result");
            s.m = want;
            return;
        }
        if (r == Res::BadAlloc || (r == Res::Boom && strong))
        {
            expect(s, s.m, "failed request");
        }
        resync(s);
#else
        (void) r;
        (void) strong;
        const std::vector<int> clamped(want.begin(), want.begin() + static_cast<std::ptrdiff_t>(std::min(want.size(), max)));
        const auto             got = read(*s.v);
        if (oom_fired)
        {
            PBT_CHECK(got == s.m || got == clamped || (!pushes && prefix(got, want) && got.size() <= s.v->capacity()),
                      "%s without memory: %s became %s", opname, show(s.m).c_str(), show(got).c_str());
        }
        else if (pushes && over)
        {
            PBT_CHECK(got == s.m, "%s beyond max_size %zu: %s became %s", opname, max, show(s.m).c_str(), show(got).c_str());
        }
        else
        {
            PBT_CHECK(got == clamped, "%s: array holds %s, expected %s", opname, show(got).c_str(), show(clamped).c_str());
        }
        s.m = got;
#endif
    }

    void destroy(Slot& s)
    {
        if (s.v != nullptr)
        {
            s.v->~V();
            s.v = nullptr;
            s.m.clear();
        }
    }

    template <typename F>
    void construct(Slot& s, std::size_t limit, trk::Arena* arena, const std::vector<int>& want, F&& place, bool moving = false)
    {
        destroy(s);
        s.limit = limit;
        s.arena = arena;
        s.m.clear();
        const std::size_t max  = effective(s);
        const bool        over = want.size() > max;
        if (over)
        {
            c.label("constructor over the limit");
            ++interesting;
        }
        std::memset(s.raw, 0xEE, sizeof(s.raw));
        V*        made = nullptr;
        const Res r    = exec([&] { made = place(static_cast<void*>(s.raw)); });
        if (r == Res::Ok)
        {
            s.v            = made;
            const auto got = read(*s.v);
#if PBT_EXC
            (void) moving;
            PBT_CHECK(!over || !focus.limits, "constructor of %zu elements with max_size %zu succeeded", want.size(), max);
            PBT_CHECK(got == want, "constructor made %s, expected %s", show(got).c_str(), show(want).c_str());
#else
            const std::vector<int> clamped(want.begin(), want.begin() + static_cast<std::ptrdiff_t>(std::min(want.size(), max)));
            // a move that does not fit may also leave the elements where they are
            const bool may_fail = oom_fired || (moving && over);
            PBT_CHECK(got == clamped || (may_fail && prefix(got, clamped)), "constructor made %s, expected %s", show(got).c_str(),
                      show(clamped).c_str());
#endif
            s.m = got;
        }
        else if (r == Res::Length)
        {
            PBT_CHECK(over, "constructor of %zu elements refused with max_size %zu", want.size(), max);
        }
        if (r == Res::Ok && want.size() > 1)
        {
            ++interesting;
        }
    }
    /// A fresh empty array where an operation needs one.
    void ensure(Slot& s)
    {
        if (s.v == nullptr)
        {
            fresh(s);
        }
    }
    void fresh(Slot& s)
    {
        destroy(s);
        s.limit = pick_limit();
        s.arena = pick_arena();
        s.m.clear();
        if (s.limit == kBig && c.boolean())
        {
            c.log("%td: VLA(allocator %d)", &s - slots, s.arena->id);
            s.v = new (s.raw) V(AA(s.arena));
            if (is_bool)
            {
                s.limit = kBig - 7;
            }
        }
        else
        {
            c.log("%td: VLA(max %zu, allocator %d)", &s - slots, s.limit, s.arena->id);
            s.v = new (s.raw) V(s.limit, AA(s.arena));
        }
    }

    // --- operations that need copyable elements ---
    void op_copyable(std::size_t op, std::false_type) { (void) op; }
    void op_copyable(std::size_t op, std::true_type)
    {
        Slot&     s  = pick();
        const auto id = static_cast<int>(&s - slots);
        switch (op)
        {
        case 0: {
            ensure(s);
            opname = "push_back(const&)";
            const int v = value();
            c.log("%d: push_back(%d) by reference", id, v);
            auto want = s.m;
            want.push_back(v);
            const T t(E::make(v));
            arm();
            judge(s, exec([&] { s.v->push_back(t); }), want, want.size(), E::strong, true);
            break;
        }
        case 1: {
            ensure(s);
            opname = "resize(count, value)";
            const std::size_t n = pick_count(s);
            const int         v = value();
            c.log("%d: resize(%zu, %d)", id, n, v);
            auto want = s.m;
            want.resize(std::min<std::size_t>(n, 4096), v);
            const T t(E::make(v));
            arm();
            judge(s, exec([&] { s.v->resize(n, t); }), want, n, false, false);
            ++interesting;
            break;
        }
        case 2: {
            ensure(s);
            opname = "assign(count, value)";
            const std::size_t n = pick_count(s);
            const int         v = value();
            c.log("%d: assign(%zu, %d)", id, n, v);
            const std::vector<int> want(std::min<std::size_t>(n, 4096), v);
            const T                t(E::make(v));
            arm();
            judge(s, exec([&] { s.v->assign(n, t); }), want, n, false, false);
            ++interesting;
            break;
        }
        case 3: {  // copy construction
            Slot& src = pick();
            ensure(src);
            if (&src == &s)
            {
                return;
            }
            opname = "copy constructor";
            if (c.boolean())
            {
                trk::Arena* a = pick_arena();
                c.log("%d: VLA(copy of %td, allocator %d)", id, &src - slots, a->id);
                arm();
                construct(s, src.limit, a, src.m, [&](void* p) { return new (p) V(static_cast<const V&>(*src.v), AA(a)); });
            }
            else
            {
                c.log("%d: VLA(copy of %td)", id, &src - slots);
                arm();
                construct(s, src.limit, src.arena->soccc != nullptr ? src.arena->soccc : src.arena, src.m,
                          [&](void* p) { return new (p) V(static_cast<const V&>(*src.v)); });
            }
            break;
        }
        case 4: {  // copy assignment
            Slot& src = pick();
            ensure(s);
            ensure(src);
            opname = "copy assignment";
            c.log("%d: = copy of %td", id, &src - slots);
            const auto old = s.m;
            arm();
            const Res r = exec([&] { *s.v = static_cast<const V&>(*src.v); });
            if (&src != &s)
            {
                adopt(s, src, pocca, r);
            }
            after_assign(s, src, old, src.m, r, true);
            if (src.m.size() + old.size() > 1)
            {
                ++interesting;
            }
            break;
        }
        case 5: {  // initializer list
            std::vector<int> vals;
            const std::size_t n = c.below(6);
            for (std::size_t i = 0; i < n; ++i)
            {
                vals.push_back(value());
            }
            opname                  = "initializer list constructor";
            trk::Arena*       a     = pick_arena();
            const std::size_t limit = pick_limit();
            const bool        with  = limit != kBig || c.boolean();
            c.log("%d: VLA(%s, max %zu, allocator %d) from a list", id, show(vals).c_str(), limit, a->id);
            while (vals.size() < 5)
            {
                vals.push_back(0);
            }
            std::vector<int> want(vals.begin(), vals.begin() + static_cast<std::ptrdiff_t>(n));
            const std::size_t lim = with ? limit : (is_bool ? kBig - 7 : kBig);
            auto              go  = [&](std::initializer_list<T> il) {
                arm();
                construct(s, lim, a, want, [&](void* p) { return with ? new (p) V(il, limit, AA(a)) : new (p) V(il, AA(a)); });
            };
            auto mk = [&](std::size_t i) { return E::make(vals[i]); };
            switch (n)
            {
            case 0:
                go({});
                break;
            case 1:
                go({mk(0)});
                break;
            case 2:
                go({mk(0), mk(1)});
                break;
            case 3:
                go({mk(0), mk(1), mk(2)});
                break;
            case 4:
                go({mk(0), mk(1), mk(2), mk(3)});
                break;
            default:
                go({mk(0), mk(1), mk(2), mk(3), mk(4)});
                break;
            }
            break;
        }
        default: {  // range
            const std::size_t n = c.below(is_bool ? 40 : 14);
            std::vector<int>  vals;
            std::deque<T>     src;
            for (std::size_t i = 0; i < n; ++i)
            {
                vals.push_back(value());
                src.push_back(E::make(vals.back()));
            }
            opname                  = "range constructor";
            trk::Arena*       a     = pick_arena();
            const std::size_t limit = pick_limit();
            const bool        with  = limit != kBig || c.boolean();
            const std::size_t lim   = with ? limit : (is_bool ? kBig - 7 : kBig);
            c.log("%d: VLA(%s, max %zu, allocator %d) from a range", id, show(vals).c_str(), limit, a->id);
            arm();
            construct(s, lim, a, vals, [&](void* p) {
                return with ? new (p) V(src.begin(), src.end(), limit, AA(a)) : new (p) V(src.begin(), src.end(), AA(a));
            });
            break;
        }
        }
    }

    /// Allocator and limit of a destination after assignment from src.
    void adopt(Slot& s, const Slot& src, bool propagate, Res r)
    {
        const trk::Arena* now = s.v->get_allocator().arena;
        if (r == Res::Ok)
        {
            trk::Arena* want = propagate ? src.arena : s.arena;
            if (focus.ownership)
            {
                PBT_CHECK(now == want, "%s: destination uses allocator %d, expected %d", opname, now->id, want->id);
            }
        }
        else if (focus.ownership)
        {
            PBT_CHECK(now == s.arena || now == src.arena, "%s: destination uses a foreign allocator", opname);
        }
        s.arena = const_cast<trk::Arena*>(now);
        // The destination was given its own limit and the limit of the source: either may be in force.
        const std::size_t own = effective(s);
        Slot              other;
        other.arena               = s.arena;
        other.limit               = src.limit;
        const std::size_t theirs = effective(other);
        const std::size_t m      = s.v->max_size();
        PBT_CHECK(m == own || m == theirs, "%s: max_size is %zu, the array was given %zu and %zu", opname, m, own, theirs);
        if (m == theirs)
        {
            s.limit = src.limit;
        }
    }
    void after_assign(Slot& s, Slot& src, const std::vector<int>& old, const std::vector<int>& from, Res r, bool copy)
    {
        if (r == Res::Ok && (PBT_EXC || !oom_fired))
        {
            expect(s, from, "assigned array");
            s.m = from;
            if (copy && &s != &src)
            {
                expect(src, src.m, "source of a copy");
            }
            return;
        }
        if (r == Res::BadAlloc || r == Res::Length || !PBT_EXC)
        {
            const auto got = read(*s.v);
            PBT_CHECK(got == old || prefix(got, from), "%s that failed left %s (was %s, source %s)", opname, show(got).c_str(),
                      show(old).c_str(), show(from).c_str());
        }
        if (r == Res::Length)
        {
            PBT_CHECK(from.size() > std::min(effective(s), effective(src)), "%s of %zu elements refused for its length", opname,
                      from.size());
        }
        if (copy)
        {
            expect(src, src.m, "source of a failed copy");
        }
        resync(s);
        resync(src);
    }

    static void resize(V& v, std::size_t n, std::true_type) { v.resize(n); }
    static void resize(V& v, std::size_t n, std::false_type) { v.resize(n, E::make(0)); }

    void op_any(std::size_t op)
    {
        Slot&     s  = pick();
        const auto id = static_cast<int>(&s - slots);
        switch (op)
        {
        case 0:
        case 1: {
            ensure(s);
            const int v = value();
            auto      want = s.m;
            want.push_back(v);
            if (op == 0)
            {
                opname = "push_back(&&)";
                c.log("%d: push_back(%d) by move", id, v);
                T t(E::make(v));
                arm();
                const Res r = exec([&] { s.v->push_back(std::move(t)); });
                given_away(r, s.v->size() == want.size(), t);
                judge(s, r, want, want.size(), E::strong, true);
            }
            else if (c.chance(1, 2))
            {
                opname = "emplace_back(&&)";
                c.log("%d: emplace_back(element %d) by move", id, v);
                T t(E::make(v));
                arm();
                const Res r = exec([&] { s.v->emplace_back(std::move(t)); });
                given_away(r, s.v->size() == want.size(), t);
                judge(s, r, want, want.size(), E::strong, true);
            }
            else
            {
                opname = "emplace_back";
                c.log("%d: emplace_back(%d)", id, v);
                arm();
                judge(s, exec([&] { emplace(*s.v, v); }), want, want.size(), E::strong, true);
            }
            break;
        }
        case 2: {
            ensure(s);
            opname = "pop_back";
            c.log("%d: pop_back", id);
            arm();
            const Res r = exec([&] { s.v->pop_back(); });
            PBT_CHECK(r == Res::Ok, "pop_back threw");
            if (!s.m.empty())
            {
                s.m.pop_back();
            }
            break;
        }
        case 3: {
            ensure(s);
            opname = "resize(count)";
            const std::size_t n = pick_count(s);
            c.log("%d: resize(%zu)", id, n);
            auto want = s.m;
            want.resize(std::min<std::size_t>(n, 4096), E::dflt());
            arm();
            judge(s, exec([&] { resize(*s.v, n, std::is_default_constructible<T>{}); }), want, n, false, false);
            ++interesting;
            break;
        }
        case 4: {
            ensure(s);
            opname = "clear";
            c.log("%d: clear", id);
            arm();
            PBT_CHECK(exec([&] { s.v->clear(); }) == Res::Ok, "clear threw");
            s.m.clear();
            break;
        }
        case 5: {
            ensure(s);
            opname = "reserve";
            const std::size_t n = pick_count(s);
            c.log("%d: reserve(%zu)", id, n);
            arm();
            const Res r = exec([&] { s.v->reserve(n); });
            if (r == Res::Ok && n <= effective(s) && !oom_fired)
            {
                PBT_CHECK(s.v->capacity() >= n, "reserve(%zu) left capacity %zu (max_size %zu)", n, s.v->capacity(), effective(s));
            }
            if (n <= s.v->capacity() && n > effective(s))
            {
                // whole bytes of a bit array, or nothing to do: both answers are sensible
                expect(s, s.m, "reserve");
            }
            else
            {
                judge_reserve(s, r, n);
            }
            ++interesting;
            break;
        }
        case 6: {
            ensure(s);
            opname = "shrink_to_fit";
            c.log("%d: shrink_to_fit", id);
            arm();
            const Res r = exec([&] { s.v->shrink_to_fit(); });
            PBT_CHECK(r == Res::Ok || r == Res::Boom, "shrink_to_fit ended as %s", trk::name(r));
            if (r == Res::Ok || E::strong)
            {
                expect(s, s.m, "shrink_to_fit");
            }
            resync(s);
            ++interesting;
            break;
        }
        case 7: {  // move construction
            Slot& src = pick();
            ensure(src);
            if (&src == &s)
            {
                return;
            }
            opname = "move constructor";
            const auto from = src.m;
            if (c.boolean())
            {
                trk::Arena* a = pick_arena();
                c.log("%d: VLA(move of %td, allocator %d)", id, &src - slots, a->id);
                arm();
                construct(s, src.limit, a, from, [&](void* p) { return new (p) V(std::move(*src.v), AA(a)); }, true);
            }
            else
            {
                c.log("%d: VLA(move of %td)", id, &src - slots);
                arm();
                construct(s, src.limit, src.arena, from, [&](void* p) { return new (p) V(std::move(*src.v)); }, true);
            }
            if (s.v != nullptr && (PBT_EXC || s.m == from))
            {
                PBT_CHECK(src.v->empty() && src.v->size() == 0, "moved-from array has %zu elements", src.v->size());
                src.m.clear();
            }
            else
            {
                resync(src);
            }
            if (s.v != nullptr && from.size() > 1)
            {
                ++interesting;
            }
            break;
        }
        case 8: {  // move assignment
            Slot& src = pick();
            ensure(s);
            ensure(src);
            opname = "move assignment";
            c.log("%d: = move of %td", id, &src - slots);
            const auto old  = s.m;
            const auto from = src.m;
            arm();
            const Res r = exec([&] { *s.v = std::move(*src.v); });
            if (&s == &src)
            {
                // valid and usable is all that is promised
                resync(s);
                break;
            }
            adopt(s, src, pocma, r);
            after_assign(s, src, old, from, r, false);
            if (r == Res::Ok && (PBT_EXC || !oom_fired))
            {
                PBT_CHECK(src.v->empty() && src.v->size() == 0, "moved-from array has %zu elements", src.v->size());
                src.m.clear();
            }
            if (from.size() + old.size() > 1)
            {
                ++interesting;
            }
            break;
        }
        case 9: {  // write an element
            ensure(s);
            if (s.m.empty())
            {
                return;
            }
            opname              = "element write";
            const std::size_t i = c.below(s.m.size());
            const int         v = value();
            c.log("%d: [%zu] = %d", id, i, v);
            write(s, i, v, c.below(5), std::integral_constant<bool, is_bool>());
            s.m[i] = v;
            break;
        }
        case 10:
            fresh(s);
            break;
        default:
            c.log("%d: destroy", id);
            destroy(s);
            break;
        }
    }
    void judge_reserve(Slot& s, Res r, std::size_t n)
    {
        const std::size_t max = effective(s);
#if PBT_EXC
        if (n > max)
        {
            PBT_CHECK(!focus.limits || r == Res::Length, "reserve(%zu) with max_size %zu ended as '%s'", n, max, trk::name(r));
        }
        else
        {
            PBT_CHECK(r != Res::Length, "reserve(%zu) with max_size %zu ended as '%s'", n, max, trk::name(r));
        }
        if (r != Res::Boom || E::strong)
        {
            expect(s, s.m, "reserve");
        }
        resync(s);
#else
        (void) r;
        (void) n;
        (void) max;
        expect(s, s.m, "reserve");
#endif
    }
    /// An element handed over as an rvalue is moved from when the array took it.
    void given_away(Res r, bool taken, const T& t)
    {
        if (r == Res::Ok && taken)
        {
            PBT_CHECK(!focus.contents || !E::moves || E::get(t) == trk::kMoved, "%s copied the element it was allowed to move from", opname);
        }
    }
    template <typename VV>
    static void emplace(VV& v, int x)
    {
        emplace_impl(v, x, std::integral_constant<bool, is_bool || !E::tracked>());
    }
    template <typename VV>
    static void emplace_impl(VV& v, int x, std::true_type)
    {
        v.emplace_back(E::make(x));
    }
    template <typename VV>
    static void emplace_impl(VV& v, int x, std::false_type)
    {
        v.emplace_back(x);
    }
    void write(Slot& s, std::size_t i, int v, std::size_t how, std::false_type)
    {
        T* p = nullptr;
        switch (how)
        {
        case 0:
            p = &(*s.v)[i];
            break;
        case 1:
            p = &*(s.v->begin() + static_cast<std::ptrdiff_t>(i));
            break;
        case 2:
            p = s.v->data() + i;
            break;
        case 3:
            p = &*(s.v->end() - static_cast<std::ptrdiff_t>(s.m.size() - i));
            break;
        default:
#if PBT_EXC
            p = &s.v->at(i);
#else
            p = &(*s.v)[i];
#endif
            break;
        }
        *p = E::make(v);
    }
    void write(Slot& s, std::size_t i, int v, std::size_t how, std::true_type)
    {
        const bool b = v != 0;
        switch (how)
        {
        case 0:
            (*s.v)[i] = b;
            break;
        case 1:
            *(s.v->begin() + static_cast<std::ptrdiff_t>(i)) = b;
            break;
        case 2:
            if (static_cast<bool>((*s.v)[i]) != b)
            {
                (*s.v)[i].flip();
            }
            break;
        case 3:
            V::set(*s.v, i, b);
            break;
        default:
#if PBT_EXC
            s.v->at(i) = b;
#else
            (*s.v)[i] = b;
#endif
            break;
        }
    }

    void step()
    {
        const std::size_t k = c.weighted({4, 4, 2, 3, 1, 3, 3, 3, 3, 2, 1, 1,  // any
                                          E::copyable ? 4U : 0U, E::copyable ? 3U : 0U, E::copyable ? 3U : 0U,
                                          E::copyable ? 4U : 0U, E::copyable ? 5U : 0U, E::copyable ? 2U : 0U,
                                          E::copyable ? 3U : 0U});
        if (k < 12)
        {
            op_any(k);
        }
        else
        {
            op_copyable(k - 12, std::integral_constant<bool, E::copyable>());
        }
        verify();
    }

    // --- invariants after every step ---
    void verify()
    {
        std::size_t total = 0;
        for (auto& s : slots)
        {
            if (s.v != nullptr)
            {
                check_slot(s);
                total += s.m.size();
            }
        }
        if (focus.ownership || focus.throws || focus.oom)
        {
            for (auto& a : arenas)
            {
                PBT_CHECK(a.error.empty(), "%s: %s", opname, a.error.c_str());
            }
            if (E::tracked)
            {
                PBT_CHECK(trk::world().live == static_cast<std::int64_t>(total), "%s: %lld elements are alive, the arrays hold %zu", opname,
                          static_cast<long long>(trk::world().live), total);
            }
            std::size_t blocks = 0;
            for (auto& a : arenas)
            {
                for (auto& b : a.blocks)
                {
                    blocks += (b.second.n > 0) ? 1 : 0;  // a block of no elements gives no capacity
                }
            }
            std::size_t owned = 0;
            for (auto& s : slots)
            {
                owned += (s.v != nullptr && s.v->capacity() > 0) ? 1 : 0;
            }
            PBT_CHECK(blocks == owned, "%s: %zu blocks are allocated, the arrays own %zu", opname, blocks, owned);
        }
        if (focus.contents)
        {
            compare_all();
        }
    }
    void compare_all()
    {
        for (auto& x : slots)
        {
            for (auto& y : slots)
            {
                if (x.v != nullptr && y.v != nullptr)
                {
                    const V&   a  = *x.v;
                    const V&   b  = *y.v;
                    const bool eq = x.m == y.m;
                    PBT_CHECK((a == b) == eq, "%s == %s gives %d", show(x.m).c_str(), show(y.m).c_str(), static_cast<int>(a == b));
                    PBT_CHECK((a != b) == !eq, "%s != %s gives %d", show(x.m).c_str(), show(y.m).c_str(), static_cast<int>(a != b));
                    if (eq && &x != &y && x.m.size() > 1)
                    {
                        c.label("equal arrays compared");
                    }
                }
            }
        }
    }
    void check_slot(Slot& s)
    {
        const V& v = *s.v;
        PBT_CHECK(v.size() == s.m.size(), "%s: array %td has size %zu, expected %zu", opname, &s - slots, v.size(), s.m.size());
        PBT_CHECK(v.size() <= v.capacity(), "%s: size %zu over capacity %zu", opname, v.size(), v.capacity());
        for (std::size_t i = 0; i < s.m.size(); ++i)
        {
            const int g = E::get(v[i]);
            PBT_CHECK(g == s.m[i], "%s: array %td element %zu is %d, expected %s", opname, &s - slots, i, g, show(s.m).c_str());
        }
        if (focus.limits)
        {
            const std::size_t max = effective(s);
            PBT_CHECK(v.max_size() == max, "%s: max_size() is %zu, expected %zu", opname, v.max_size(), max);
            PBT_CHECK(v.size() <= max, "%s: size %zu over max_size %zu", opname, v.size(), max);
            const std::size_t cap = is_bool ? (max > kBig - 8 ? max : (max + 7) / 8 * 8) : max;
            PBT_CHECK(v.capacity() <= cap, "%s: capacity %zu over max_size %zu", opname, v.capacity(), max);
        }
        if (focus.ownership)
        {
            PBT_CHECK(v.get_allocator().arena == s.arena, "%s: array %td uses allocator %d, expected %d", opname, &s - slots,
                      v.get_allocator().arena->id, s.arena->id);
        }
        if (focus.contents)
        {
            accessors(s, std::integral_constant<bool, is_bool>());
        }
    }
    void accessors_common(Slot& s)
    {
        V&       v  = *s.v;
        const V& cv = v;
        PBT_CHECK(v.empty() == s.m.empty(), "empty() is %d, size is %zu", static_cast<int>(v.empty()), s.m.size());
        PBT_CHECK(static_cast<std::size_t>(v.end() - v.begin()) == s.m.size() && static_cast<std::size_t>(cv.end() - cv.begin()) == s.m.size() &&
                      static_cast<std::size_t>(cv.cend() - cv.cbegin()) == s.m.size(),
                  "distance between begin and end");
        std::size_t i = 0;
        for (auto it = cv.begin(); it != cv.end(); ++it, ++i)
        {
            PBT_CHECK(E::get(*it) == s.m[i], "iteration: element %zu is %d, expected %s", i, E::get(*it), show(s.m).c_str());
        }
        PBT_CHECK(i == s.m.size(), "iteration visited %zu elements", i);
        if (!s.m.empty())
        {
            PBT_CHECK(E::get(cv.front()) == s.m.front() && E::get(v.front()) == s.m.front(), "front");
            PBT_CHECK(E::get(cv.back()) == s.m.back() && E::get(v.back()) == s.m.back(), "back");
        }
#if PBT_EXC
        for (std::size_t k = 0; k < s.m.size(); ++k)
        {
            PBT_CHECK(E::get(cv.at(k)) == s.m[k] && E::get(v.at(k)) == s.m[k], "at(%zu)", k);
        }
        const std::size_t outside[] = {s.m.size(), s.m.size() + 1, kBig, v.capacity(), kBig - 7};
        for (const std::size_t k : outside)
        {
            if (k >= s.m.size())
            {
                PBT_CHECK(trk::attempt([&] { (void) cv.at(k); }) == Res::Range, "at(%zu) of %zu elements does not throw out_of_range", k,
                          s.m.size());
                PBT_CHECK(trk::attempt([&] { (void) v.at(k); }) == Res::Range, "at(%zu) of %zu elements does not throw out_of_range", k,
                          s.m.size());
            }
        }
#endif
    }
    void accessors(Slot& s, std::false_type)
    {
        accessors_common(s);
        V&       v  = *s.v;
        const V& cv = v;
        PBT_CHECK(v.data() == cv.data(), "data()");
        for (std::size_t i = 0; i < s.m.size(); ++i)
        {
            PBT_CHECK(v.data() + i == &v[i] && &cv[i] == &v[i] && &*(v.begin() + static_cast<std::ptrdiff_t>(i)) == &v[i],
                      "element %zu has different addresses", i);
        }
    }
    void accessors(Slot& s, std::true_type)
    {
        accessors_common(s);
        V&                v  = *s.v;
        const V&          cv = v;
        const std::size_t n  = s.m.size();
        for (std::size_t i = 0; i < n; ++i)
        {
            const bool b = s.m[i] != 0;
            PBT_CHECK(V::test(cv, i) == b, "test(%zu)", i);
            PBT_CHECK(static_cast<bool>(v[i]) == b && ~v[i] == !b, "reference %zu", i);
            PBT_CHECK((v[i] == v[0]) == (s.m[i] == s.m[0]) && (v[i] != v[0]) == (s.m[i] != s.m[0]), "comparison of references %zu and 0", i);
            PBT_CHECK(cv.begin()[static_cast<std::ptrdiff_t>(i)] == b && *(cv.end() - static_cast<std::ptrdiff_t>(n - i)) == b &&
                          static_cast<bool>(*(v.begin() + static_cast<std::ptrdiff_t>(i))) == b,
                      "iterator arithmetic at %zu", i);
        }
        for (const std::size_t k : {n, n + 1, n + 8, kBig})
        {
            if (k >= n)
            {
                PBT_CHECK(!V::test(cv, k), "test(%zu) of %zu bits is set", k, n);
            }
        }
        if (n > 0)
        {
            auto a = v.begin();
            auto b = v.end();
            PBT_CHECK(a < b && a <= b && b > a && b >= a && a != b && !(a == b), "iterator order");
            auto d = v.end();
            --d;
            PBT_CHECK(static_cast<bool>(*d) == (s.m[n - 1] != 0), "--end()");
            auto e = d--;
            (void) e;
            auto f = a++;
            PBT_CHECK(f == v.begin() && a - f == 1, "iterator postfix increment");
            a += static_cast<std::ptrdiff_t>(n) - 1;
            PBT_CHECK(a == v.end(), "iterator +=");
            a -= static_cast<std::ptrdiff_t>(n);
            PBT_CHECK(a == v.begin(), "iterator -=");
        }
    }

    void finish()
    {
        opname = "destruction";
        c.log("destroy all");
        for (auto& s : slots)
        {
            destroy(s);
        }
        if (focus.ownership || focus.oom || focus.throws)
        {
            for (auto& a : arenas)
            {
                PBT_CHECK(a.error.empty(), "%s", a.error.c_str());
                PBT_CHECK(a.blocks.empty(), "%zu block(s) of allocator %d were never returned", a.blocks.size(), a.id);
            }
            PBT_CHECK(trk::world().live == 0, "%lld element(s) were never destroyed", static_cast<long long>(trk::world().live));
        }
    }
};

template <typename T, unsigned AF>
void run(pbt::Case& c, const Focus& f)
{
    auto m = std::make_unique<Machine<T, AF>>(c, f);
    m->run();
}
}  // namespace vm
