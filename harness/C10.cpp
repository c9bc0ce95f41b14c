// C10: pmr::function against a model of the callable each object holds.
#include "mem.hpp"

#include "cetl/pmr/function.hpp"

namespace
{
using Pmr = cetl::pf17::pmr::memory_resource;

struct Call
{
    int                kind  = -1;
    int                id    = 0;
    int                calls = 0;
    int                a     = 0;
    const std::string* s     = nullptr;
    int*               out   = nullptr;
    int                count = 0;
    bool               sane  = true;
};
Call g_call;

int answer(int kind, int id, int calls, int a)
{
    return (kind * 131 + id * 17 + calls * 5 + a) & 0xFFFF;
}
int record(int kind, int id, int calls, int a, const std::string& s, int& out, bool sane = true)
{
    g_call.kind  = kind;
    g_call.id    = id;
    g_call.calls = calls;
    g_call.a     = a;
    g_call.s     = &s;
    g_call.out   = &out;
    g_call.sane  = sane;
    g_call.count++;
    out = calls * 3 + id;
    return answer(kind, id, calls, a);
}

/// A callable with state (number of calls) and a payload of a given size.
template <int Kind, std::size_t Pad, std::size_t Align>
struct alignas(Align) Fun : trk::Elem<trk::Full>
{
    static constexpr int kind = Kind;
    explicit Fun(int id)
        : trk::Elem<trk::Full>(id)
    {
        for (std::size_t i = 0; i < Pad; ++i)
        {
            pad[i] = static_cast<unsigned char>(id + static_cast<int>(i) * 7);
        }
    }
    int operator()(int a, const std::string& s, int& out)
    {
        bool sane = reinterpret_cast<std::uintptr_t>(this) % Align == 0;
        for (std::size_t i = 0; i < Pad; ++i)
        {
            sane = sane && pad[i] == static_cast<unsigned char>(get() + static_cast<int>(i) * 7);
        }
        return record(Kind, get(), calls++, a, s, out, sane);
    }
    int           calls = 0;
    unsigned char pad[Pad];
};
using F0 = Fun<0, 4, 8>;
using F1 = Fun<1, 36, 8>;
using F2 = Fun<2, 100, 16>;
int plain(int a, const std::string& s, int& out)
{
    return record(3, 0, 0, a, s, out);
}
int other_plain(int a, const std::string& s, int& out)
{
    return record(3, 1, 0, a, s, out);
}
struct ConstCall : trk::Elem<trk::Full>
{
    explicit ConstCall(int id) : trk::Elem<trk::Full>(id) {}
    int operator()(int a, const std::string& s, int& out) const { return record(4, get(), 0, a, s, out); }
};
/// Trivially copyable callable of one byte.
struct Byte
{
    unsigned char id;
    int operator()(int a, const std::string& s, int& out) { return record(5, id, 0, a, s, out); }
};

using Sig = int(int, const std::string&, int&);

enum class St
{
    Empty,
    Valueless,
    Value
};
struct Model
{
    St   st    = St::Empty;
    int  kind  = -1;
    int  id    = 0;
    int  calls = 0;
    int  res   = -1;
};
std::string show(const Model& m)
{
    return m.st == St::Value ? pbt::format("F%d(%d)#%d/r%d", m.kind, m.id, m.calls, m.res)
                             : pbt::format("%s/r%d", m.st == St::Empty ? "empty" : "valueless", m.res);
}

template <std::size_t FP, bool P>
class Machine
{
    using F     = cetl::pmr::function<Sig, FP, std::conditional_t<P, Pmr, void>>;
    using pmr_t = std::integral_constant<bool, P>;
    static constexpr int kSlots = 4;
    struct Slot
    {
        alignas(F) unsigned char raw[sizeof(F)];
        F*    f = nullptr;
        Model m;
    };
    pbt::Case&  c;
    Slot        slots[kSlots];
    mem::Res    res[2];
    const char* op     = "";
    bool        faulty = false;
    bool        fault  = false;
    int         done = 0, transfers = 0, calls = 0, faults = 0;

public:
    explicit Machine(pbt::Case& cc)
        : c(cc)
    {
        trk::reset_world();
        mem::events().error.clear();
        faulty = c.boolean();
        for (int i = 0; i < 2; ++i)
        {
            res[i].led.id = i;
            if (faulty)
            {
                res[i].led.on_fail = c.boolean() ? mem::Fail::ReturnsNull : mem::Fail::Throws;
            }
        }
    }
    void run()
    {
        for (auto& s : slots)
        {
            fresh(s);
        }
        const int n = static_cast<int>(c.range(1, c.thorough() ? 60 : 30));
        for (int i = 0; i < n; ++i)
        {
            step();
            disarm();
            verify(c.chance(1, 3));
        }
        verify(true);
        for (auto& s : slots)
        {
            destroy(s);
        }
        mem::check_events();
        PBT_CHECK(trk::world().live == 0, "%lld callables are still alive", static_cast<long long>(trk::world().live));
        for (auto& r : res)
        {
            PBT_CHECK(r.led.blocks.empty(), "%zu blocks of resource %d were not returned", r.led.blocks.size(), r.led.id);
        }
        if (done >= 3 && transfers >= 1 && calls >= 1)
        {
            c.nontrivial();
        }
        if (faults > 0)
        {
            c.label("with failures");
        }
    }

private:
    Slot& pick() { return slots[c.below(kSlots)]; }
    long  idx(const Slot& s) const { return &s - slots; }
    F*    make_empty(void* p, int r, std::true_type) { return new (p) F(static_cast<Pmr*>(&res[r])); }
    F*    make_empty(void* p, int, std::false_type) { return new (p) F(); }
    template <typename A>
    F* make(void* p, int r, std::true_type, A&& a)
    {
        return new (p) F(static_cast<Pmr*>(&res[r]), std::forward<A>(a));
    }
    template <typename A>
    F* make(void* p, int, std::false_type, A&& a)
    {
        return new (p) F(std::forward<A>(a));
    }
    void fresh(Slot& s, int r = -1)
    {
        destroy(s);
        s.m = Model{};
        if (P)
        {
            s.m.res = r >= 0 ? r : static_cast<int>(c.below(2));
        }
        std::memset(s.raw, 0xEE, sizeof(s.raw));
        s.f = make_empty(s.raw, s.m.res, pmr_t{});
    }
    void destroy(Slot& s)
    {
        if (s.f != nullptr)
        {
            s.f->~F();
            s.f = nullptr;
        }
    }
    void arm()
    {
        fault = false;
        if (!faulty || !c.boolean())
        {
            return;
        }
        const auto at = static_cast<std::int64_t>(c.below(3));
        if (PBT_EXC && c.boolean())
        {
            c.log("  (copy %lld throws)", static_cast<long long>(at));
            trk::arm(at);
        }
        else
        {
            c.log("  (allocation %lld fails)", static_cast<long long>(at));
            for (auto& r : res)
            {
                r.led.arm(at, true);
            }
        }
    }
    void disarm()
    {
        trk::disarm();
        for (auto& r : res)
        {
            r.led.disarm();
        }
    }
    template <typename G>
    trk::Res exec(G&& g)
    {
        trk::world().thrown = false;
        for (auto& r : res)
        {
            r.led.failed = false;
        }
        const trk::Res x = trk::attempt(std::forward<G>(g));
        fault            = trk::world().thrown;
        for (auto& r : res)
        {
            fault = fault || r.led.failed;
        }
        disarm();
        faults += fault ? 1 : 0;
        PBT_CHECK(x == trk::Res::Ok || fault, "%s threw %s although nothing failed", op, trk::name(x));
        PBT_CHECK(!PBT_EXC || x != trk::Res::Ok || !fault, "%s swallowed a failure", op);
        ++done;
        return x;
    }
    template <typename T>
    using holds = std::integral_constant<bool, P || sizeof(T) + 24 <= FP>;
    template <typename T, typename G>
    static void pass(T t, G& g, std::true_type)
    {
        g(std::move(t));
    }
    template <typename T, typename G>
    static void pass(T, G&, std::false_type)
    {
    }
    template <typename T, typename G>
    static void try_pass(T t, G& g)
    {
        pass(std::move(t), g, holds<T>{});
    }
    template <typename G>
    void with(int kind, int id, G&& g)
    {
        switch (kind)
        {
        case 0:
            return try_pass(F0(id), g);
        case 1:
            return try_pass(F1(id), g);
        case 2:
            return try_pass(F2(id), g);
        case 3:
            return try_pass(id == 0 ? &plain : &other_plain, g);
        case 4:
            return try_pass(ConstCall(id), g);
        case 5:
            return try_pass(Byte{static_cast<unsigned char>(id)}, g);
        default:
            return;
        }
    }
    /// Only copies of the callables are throwing points.
    void no_copies(std::int64_t points) const { PBT_CHECK(trk::world().points == points, "%s copied the callable instead of moving it", op); }
    void intact(const trk::Elem<trk::Full>& t) const { PBT_CHECK(t.get() != trk::kMoved, "%s moved from a callable that was not given away", op); }
    template <typename T>
    std::enable_if_t<!std::is_base_of<trk::Elem<trk::Full>, T>::value> intact(const T&) const
    {
    }
    struct Ctor
    {
        Machine& k;
        Slot&    s;
        int      r;
        bool     copy;
        template <typename T>
        void operator()(T t) const
        {
            if (copy)
            {
                const T& ct = t;
                s.f         = k.make(s.raw, r, pmr_t{}, ct);
                k.intact(ct);
            }
            else
            {
                const auto points = trk::world().points;
                s.f               = k.make(s.raw, r, pmr_t{}, std::move(t));
                k.no_copies(points);
            }
        }
    };
    struct Assign
    {
        Machine& k;
        Slot&    s;
        bool     copy;
        template <typename T>
        void operator()(T t) const
        {
            if (copy)
            {
                const T& ct = t;
                *s.f        = ct;
                k.intact(ct);
            }
            else
            {
                const auto points = trk::world().points;
                *s.f              = std::move(t);
                k.no_copies(points);
            }
        }
    };
    int pick_kind()
    {
        int ok[6];
        int n = 0;
        const bool fits[] = {holds<F0>::value, holds<F1>::value, holds<F2>::value, true, holds<ConstCall>::value, true};
        for (int i = 0; i < 6; ++i)
        {
            if (fits[i])
            {
                ok[n++] = i;
            }
        }
        return ok[c.below(static_cast<std::uint64_t>(n))];
    }
    int pick_id(int kind) { return static_cast<int>(c.below(kind == 3 ? 2 : 200)); }

    Model observe(const F& f)
    {
        Model m;
        m.res = res_of(f, pmr_t{});
        m.st  = static_cast<bool>(f) ? St::Value : (f.valueless_by_exception() ? St::Valueless : St::Empty);
        PBT_CHECK(m.st != St::Value || !f.valueless_by_exception(), "%s: callable and valueless at once", op);
        return m;
    }
    int res_of(const F& f, std::true_type)
    {
        PBT_CHECK(f.get_memory_resource() == &res[0] || f.get_memory_resource() == &res[1], "%s: a foreign memory resource", op);
        return f.get_memory_resource() == &res[0] ? 0 : 1;
    }
    int res_of(const F&, std::false_type) { return -1; }

    /// After a failure: unchanged (or holding `b`), empty or valueless.
    void settle(Slot& s, const Model& a, const Model& b)
    {
        const Model now = observe(*s.f);
        if (now.st != St::Value)
        {
            s.m = now;
            return;
        }
        const int got_res = now.res;
        call(s, true, &a, &b);
        s.m.res = got_res;
    }
    void call(Slot& s, bool alternatives = false, const Model* a = nullptr, const Model* b = nullptr)
    {
        const int         arg = static_cast<int>(c.below(50));
        const std::string str = "text";
        int               out = -1;
        g_call                = Call{};
        const F& f            = *s.f;
        const int r           = f(arg, str, out);
        ++calls;
        PBT_CHECK(g_call.count == 1, "%s: one call reached %d callables", op, g_call.count);
        PBT_CHECK(g_call.sane, "%s: the state of the callable changed or is not aligned", op);
        PBT_CHECK(g_call.a == arg && g_call.s == &str && g_call.out == &out, "%s: arguments were changed on the way", op);
        PBT_CHECK(r == answer(g_call.kind, g_call.id, g_call.calls, arg) && out == g_call.calls * 3 + g_call.id,
                  "%s: the result was changed on the way", op);
        if (alternatives)
        {
            bool ok = false;
            for (const Model* m : {a, b})
            {
                ok = ok || (m->st == St::Value && m->kind == g_call.kind && m->id == g_call.id && m->calls == g_call.calls);
            }
            PBT_CHECK(ok, "%s that failed left %ld with F%d(%d)#%d", op, idx(s), g_call.kind, g_call.id, g_call.calls);
            s.m.st    = St::Value;
            s.m.kind  = g_call.kind;
            s.m.id    = g_call.id;
            s.m.calls = g_call.calls;
        }
        PBT_CHECK(g_call.kind == s.m.kind && g_call.id == s.m.id && g_call.calls == s.m.calls,
                  "%s: function %ld called F%d(%d)#%d instead of %s", op, idx(s), g_call.kind, g_call.id, g_call.calls, show(s.m).c_str());
        if (s.m.kind <= 2)
        {
            ++s.m.calls;
        }
    }
    void step()
    {
        Slot& s = pick();
        switch (c.weighted({4, 5, 3, 3, 3, 3, 3, 2, 1, 1, 4, 1}))
        {
        case 0: {
            const int  k    = pick_kind();
            const int  id   = pick_id(k);
            const bool copy = c.boolean();
            const int  r    = P ? static_cast<int>(c.below(2)) : -1;
            op              = "constructor from a callable";
            c.log("%ld: function(F%d(%d)) by %s in resource %d", idx(s), k, id, copy ? "copy" : "move", r);
            destroy(s);
            std::memset(s.raw, 0xEE, sizeof(s.raw));
            arm();
            const trk::Res x = exec([&] { with(k, id, Ctor{*this, s, r, copy}); });
            if (x != trk::Res::Ok)
            {
                s.f = nullptr;
                fresh(s, r);
                return;
            }
            if (fault)
            {
                s.m = Model{};
                settle(s, s.m, s.m);
                return;
            }
            s.m = Model{St::Value, k, id, 0, r};
            return;
        }
        case 1: {
            const int  k    = pick_kind();
            const int  id   = pick_id(k);
            const bool copy = c.boolean();
            op              = "assignment of a callable";
            c.log("%ld: = F%d(%d) by %s", idx(s), k, id, copy ? "copy" : "move");
            arm();
            (void) exec([&] { with(k, id, Assign{*this, s, copy}); });
            if (fault)
            {
                settle(s, s.m, s.m);
                return;
            }
            s.m = Model{St::Value, k, id, 0, s.m.res};
            return;
        }
        case 2: {
            Slot& o = pick();
            if (&o == &s)
            {
                return;
            }
            op = "copy constructor";
            c.log("%ld: copy of %ld", idx(s), idx(o));
            destroy(s);
            std::memset(s.raw, 0xEE, sizeof(s.raw));
            arm();
            const trk::Res x = exec([&] { s.f = new (s.raw) F(static_cast<const F&>(*o.f)); });
            if (x != trk::Res::Ok)
            {
                s.f = nullptr;
                fresh(s);
                return;
            }
            return take(s, o.m);
        }
        case 3: {
            Slot& o = pick();
            if (&o == &s)
            {
                return;
            }
            op = "move constructor";
            c.log("%ld: move of %ld", idx(s), idx(o));
            destroy(s);
            std::memset(s.raw, 0xEE, sizeof(s.raw));
            arm();
            const auto points = trk::world().points;
            (void) exec([&] { s.f = new (s.raw) F(std::move(*o.f)); });
            no_copies(points);
            take(s, o.m);
            return moved(o);
        }
        case 4: {
            Slot& o = pick();
            op      = "copy assignment";
            c.log("%ld: = copy of %ld", idx(s), idx(o));
            arm();
            (void) exec([&] { *s.f = static_cast<const F&>(*o.f); });
            if (&s != &o)
            {
                take(s, o.m);
            }
            return;
        }
        case 5: {
            Slot& o = pick();
            op      = "move assignment";
            c.log("%ld: = move of %ld", idx(s), idx(o));
            arm();
            const auto points = trk::world().points;
            (void) exec([&] { *s.f = std::move(*o.f); });
            no_copies(points);
            if (&s != &o)
            {
                take(s, o.m);
                moved(o);
            }
            else
            {
                moved(s);
            }
            return;
        }
        case 6: {
            Slot& o = pick();
            op      = "swap";
            c.log("%ld: swap with %ld", idx(s), idx(o));
            const Model a = s.m;
            const Model b = o.m;
            arm();
            const auto points = trk::world().points;
            (void) exec([&] { s.f->swap(*o.f); });
            no_copies(points);
            if (&s != &o)
            {
                take(s, b);
                take(o, a);
            }
            return;
        }
        case 7:
            op = "reset";
            c.log("%ld: reset", idx(s));
            s.f->reset();
            s.m.st = St::Empty;
            ++done;
            return;
        case 8:
            return reset_to(s, pmr_t{});
        case 9:
            op = "= nullptr";
            c.log("%ld: = nullptr", idx(s));
            *s.f   = nullptr;
            s.m.st = St::Empty;
            ++done;
            return;
        case 10:
            op = "call";
            if (s.m.st == St::Value)
            {
                c.log("%ld: call", idx(s));
                call(s);
            }
            return;
        default:
            op = "new empty function";
            fresh(s);
            c.log("%ld: new empty function in resource %d", idx(s), s.m.res);
            return;
        }
    }
    void reset_to(Slot&, std::false_type) {}
    void reset_to(Slot& s, std::true_type)
    {
        const int r = static_cast<int>(c.below(2));
        op          = "reset(resource)";
        c.log("%ld: reset(resource %d)", idx(s), r);
        s.f->reset(&res[r]);
        s.m.st  = St::Empty;
        s.m.res = r;
        ++done;
    }
    void take(Slot& s, const Model& from)
    {
        if (fault)
        {
            return settle(s, s.m, from);
        }
        transfers += from.st == St::Value ? 1 : 0;
        const Model now = observe(*s.f);
        PBT_CHECK((now.st == St::Value) == (from.st == St::Value), "%s: function %ld is %s, the source was %s", op, idx(s), show(now).c_str(),
                  show(from).c_str());
        PBT_CHECK(now.res == from.res, "%s: function %ld uses resource %d, the source used %d", op, idx(s), now.res, from.res);
        s.m    = from;
        s.m.st = now.st;
    }
    /// A function that was moved from is empty or still holds its callable.
    void moved(Slot& s)
    {
        const Model now = observe(*s.f);
        PBT_CHECK(now.st != St::Value || s.m.st == St::Value, "%s: the source is %s", op, show(now).c_str());
        PBT_CHECK(now.res == s.m.res, "%s: the source changed its resource", op);
        s.m.st = now.st;
    }
    void verify(bool call_all)
    {
        mem::check_events();
        std::int64_t tracked = 0;
        std::size_t  values  = 0;
        for (auto& s : slots)
        {
            const Model now = observe(*s.f);
            PBT_CHECK(now.st == s.m.st && now.res == s.m.res, "%s: function %ld is %s instead of %s", op, idx(s), show(now).c_str(), show(s.m).c_str());
            tracked += s.m.st == St::Value && s.m.kind != 3 && s.m.kind != 5 ? 1 : 0;
            values += s.m.st != St::Empty ? 1 : 0;
            if (s.m.st == St::Value)
            {
                if (call_all)
                {
                    call(s);
                }
            }
            else
            {
#if PBT_EXC
                bool threw = false;
                int  out   = 0;
                try
                {
                    (*s.f)(1, std::string{}, out);
                } catch (const std::bad_function_call&)
                {
                    threw = true;
                }
                PBT_CHECK(threw, "%s: calling a function without target did not throw bad_function_call", op);
#endif
            }
        }
        PBT_CHECK(trk::world().live == tracked, "%s: %lld callables are alive, the functions hold %lld", op,
                  static_cast<long long>(trk::world().live), static_cast<long long>(tracked));
        const std::size_t blocks = res[0].led.blocks.size() + res[1].led.blocks.size();
        PBT_CHECK(blocks <= values, "%s: %zu blocks are allocated for %zu functions", op, blocks, values);
    }
};

template <std::size_t FP, bool P>
void go(pbt::Case& c)
{
    Machine<FP, P> m(c);
    m.run();
}

// Other signatures: results and arguments of every kind.
struct Big
{
    long a[6];
};
void shapes(pbt::Case& c)
{
    trk::reset_world();
    mem::Res res;
    const int    i = static_cast<int>(c.range(0, 1000)) - 500;
    const double d = static_cast<double>(c.below(1000)) / 8;
    switch (c.below(6))
    {
    case 0: {
        // reference results stay references to the same object
        int x = i;
        c.log("reference result");
        cetl::pmr::function<int&(int&), 32> f([](int& r) -> int& { return r; });
        PBT_CHECK(&f(x) == &x, "reference result denotes another object");
        f(x) = 5;
        PBT_CHECK(x == 5, "write through the result was lost");
        break;
    }
    case 1: {
        int hits = 0;
        c.log("no result, no arguments");
        cetl::pmr::function<void(), 32> f([&hits] { ++hits; });
        const auto                      g = f;
        f();
        g();
        PBT_CHECK(hits == 2, "%d calls instead of 2", hits);
        break;
    }
    case 2: {
        c.log("large result and many arguments");
        cetl::pmr::function<Big(int, double, char, long, const char*, short), 0, Pmr>
            f(&res, [i](int a, double b, char ch, long l, const char* p, short s) {
                return Big{{a + i, static_cast<long>(b * 8), ch, l, p[0], s}};
            });
        const auto g = f;
        const Big  b = g(7, d, 'x', 1234567890123L, "q", -3);
        PBT_CHECK(b.a[0] == 7 + i && b.a[1] == static_cast<long>(d * 8) && b.a[2] == 'x' && b.a[3] == 1234567890123L && b.a[4] == 'q' &&
                      b.a[5] == -3,
                  "arguments or result were changed");
        break;
    }
    case 3: {
        c.log("string arguments by value");
        const std::string                                             s(static_cast<std::size_t>(c.below(60)), 'k');
        cetl::pmr::function<std::string(std::string, std::string), 64, Pmr> f(&res, [](std::string a, std::string b) { return a + "|" + b; });
        auto                                                          g = std::move(f);
        PBT_CHECK(g(s, "z") == s + "|z" && s == std::string(s.size(), 'k'), "string argument or result was changed");
        break;
    }
    case 4: {
        c.log("function inside a function");
        cetl::pmr::function<int(int), 32> inner([i](int a) { return a * 2 + i; });
        cetl::pmr::function<int(int), 160> outer([inner](int a) { return inner(a) + 1; });
        inner = [](int) { return -9; };
        PBT_CHECK(outer(10) == 21 + i && inner(10) == -9, "nested function changed");
        break;
    }
    default: {
        c.log("converted result");
        cetl::pmr::function<double(short), 32> f([i](int a) { return a + i; });
        PBT_CHECK(f(3) == static_cast<double>(3 + i), "converted result is wrong");
        break;
    }
    }
    c.nontrivial();
}

/// Arguments as the callable sees them, compared with std::function.
struct Arg
{
    int v;
    explicit Arg(int x) : v(x) {}
    Arg(const Arg&) = default;
    Arg(Arg&& o) noexcept : v(o.v) { o.v = -1; }
    Arg& operator=(const Arg&) = default;
    Arg& operator=(Arg&&) = default;
};
struct Only
{
    int v;
    explicit Only(int x) : v(x) {}
    Only(Only&& o) noexcept : v(o.v) { o.v = -1; }
    Only& operator=(Only&&) = delete;
};
std::string g_seen;
void        seen(const char* how, int v, const void* p, const void* q)
{
    g_seen += pbt::format("%s(%d%s)", how, v, p == q ? " same" : "");
}
struct After
{
    int& x;
    ~After() { g_seen += pbt::format(" after %d", x); }
};
const void* g_outer = nullptr;  // the argument of the caller
struct ByCategory
{
    int operator()(Arg& a) const { return seen("&", a.v, &a, g_outer), ++a.v; }
    int operator()(const Arg& a) const { return seen("const&", a.v, &a, g_outer), a.v + 1; }
    int operator()(Arg&& a) const { return seen("&&", a.v, &a, g_outer), a.v + 2; }
    int operator()(const Arg&& a) const { return seen("const&&", a.v, &a, g_outer), a.v + 3; }
};
struct Takes
{
    int operator()(Arg a) const
    {
        seen("value", a.v, nullptr, g_outer);
        a.v = 77;
        return 5;
    }
};
struct Reads
{
    int operator()(const Arg& a) { return seen("read", a.v, &a, g_outer), a.v * 2; }
};
struct Generic
{
    template <typename A>
    std::size_t operator()(A&& a) const
    {
        seen(std::is_lvalue_reference<A>::value ? "lvalue" : "rvalue", a.v, &a, g_outer);
        return std::is_const<std::remove_reference_t<A>>::value ? 8 : 9;
    }
};
struct TakesOnly
{
    int operator()(Only a) const { return seen("only", a.v, nullptr, g_outer), a.v; }
};
struct ByCategoryOnly
{
    int operator()(Only& a) const { return seen("&", a.v, &a, g_outer), a.v; }
    int operator()(Only&& a) const { return seen("&&", a.v, &a, g_outer), a.v + 1; }
};
struct Mixed
{
    template <typename A, typename B, typename C>
    long operator()(A&& a, B&& b, C* p) const
    {
        seen(std::is_lvalue_reference<A>::value ? "lvalue" : "rvalue", a.v, &a, g_outer);
        seen(std::is_lvalue_reference<B>::value ? "lvalue" : "rvalue", b.v, &b, g_outer);
        *p += a.v;
        return *p;
    }
};

template <typename R>
struct Drop
{
    template <typename F>
    static long of(F&& f)
    {
        return static_cast<long>(f());
    }
};
template <>
struct Drop<void>
{
    template <typename F>
    static long of(F&& f)
    {
        f();
        return 0;
    }
};
template <typename Sig>
struct result_of_sig;
template <typename R, typename... A>
struct result_of_sig<R(A...)>
{
    using type = R;
};

/// `call` invokes the function it is given with arguments made of `v`.
template <typename Sig, typename F, typename Call>
void same_as_std(pbt::Case& c, const char* what, F f, Call call)
{
    mem::Res   res;
    const int  v   = static_cast<int>(c.below(100));
    const bool pmr = c.boolean();
    const bool cp  = c.boolean();
    c.log("%s with %d%s%s", what, v, pmr ? ", stored in a resource" : "", cp ? ", copied" : "");
    using R = typename result_of_sig<Sig>::type;
    g_seen.clear();
    const std::function<Sig> s(f);
    const long               want      = Drop<R>::of([&] { return call(s, v); });
    const std::string        want_seen = g_seen;
    g_seen.clear();
    long got = 0;
    if (pmr)
    {
        const cetl::pmr::function<Sig, 0, Pmr> g(&res, f);
        const auto                             h = g;
        got                                      = Drop<R>::of([&] { return call(cp ? h : g, v); });
    }
    else
    {
        const cetl::pmr::function<Sig, 64> g(f);
        const auto                         h = g;
        got                                  = Drop<R>::of([&] { return call(cp ? h : g, v); });
    }
    PBT_CHECK(g_seen == want_seen, "%s: the callable saw %s, with std::function %s", what, g_seen.c_str(), want_seen.c_str());
    PBT_CHECK(got == want, "%s: the result is %ld, with std::function %ld", what, got, want);
}
template <typename Sig, typename F>
void sig_value(pbt::Case& c, const char* what, F f)
{
    if (c.boolean())
    {
        same_as_std<Sig>(c, what, f, [](const auto& g, int v) {
            g_outer = nullptr;
            return g(Arg(v));
        });
        return;
    }
    same_as_std<Sig>(c, what, f, [](const auto& g, int v) {
        Arg a(v);
        g_outer = &a;
        const After after{a.v};
        return g(a);
    });
}
template <typename Sig, typename F>
void sig_lvalue(pbt::Case& c, const char* what, F f)
{
    same_as_std<Sig>(c, what, f, [](const auto& g, int v) {
        Arg a(v);
        g_outer = &a;
        const After after{a.v};
        return g(a);
    });
}
template <typename Sig, typename F>
void sig_rvalue(pbt::Case& c, const char* what, F f)
{
    same_as_std<Sig>(c, what, f, [](const auto& g, int v) {
        Arg a(v);
        g_outer = &a;
        const After after{a.v};
        return g(std::move(a));
    });
}
template <typename R, typename F>
void each_sig(pbt::Case& c, F f, const char* name)
{
    switch (c.below(5))
    {
    case 0: return sig_value<R(Arg)>(c, pbt::format("R(T), %s", name).c_str(), f);
    case 1: return sig_value<R(const Arg&)>(c, pbt::format("R(const T&), %s", name).c_str(), f);
    case 2: return sig_rvalue<R(Arg&&)>(c, pbt::format("R(T&&), %s", name).c_str(), f);
    case 3: return sig_rvalue<R(const Arg&&)>(c, pbt::format("R(const T&&), %s", name).c_str(), f);
    default: return sig_lvalue<R(Arg&)>(c, pbt::format("R(T&), %s", name).c_str(), f);
    }
}
template <typename R>
void each_callable(pbt::Case& c)
{
    switch (c.below(7))
    {
    case 0: return each_sig<R>(c, ByCategory{}, "overloads");
    case 1: return each_sig<R>(c, Takes{}, "by value");
    case 2: return each_sig<R>(c, Reads{}, "by const reference");
    case 3: return each_sig<R>(c, Generic{}, "generic");
    case 4:
        return same_as_std<R(Only)>(c, "R(move-only)", TakesOnly{}, [](const auto& g, int v) {
            g_outer = nullptr;
            return g(Only(v));
        });
    case 5:
        return same_as_std<R(Only&&)>(c, "R(move-only&&)", ByCategoryOnly{}, [](const auto& g, int v) {
            Only o(v);
            g_outer = &o;
            return g(std::move(o));
        });
    default:
        return same_as_std<R(Arg, Arg&, int*)>(c, "R(T, T&, int*)", Mixed{}, [](const auto& g, int v) {
            Arg a(v);
            Arg b(v + 1);
            int n   = v;
            g_outer = &b;
            const After after{n};
            return g(std::move(a), b, &n);
        });
    }
}
void forwarding(pbt::Case& c)
{
    switch (c.below(3))
    {
    case 0: each_callable<int>(c); break;
    case 1: each_callable<void>(c); break;
    default: each_callable<double>(c);
    }
    c.nontrivial();
}
}  // namespace
PBT_TARGET(fn_forward, forwarding, 300, 3000);
PBT_TARGET(fn_inplace_small, (go<48, false>), 3000, 60000);
PBT_TARGET(fn_inplace, (go<200, false>), 3000, 60000);
PBT_TARGET(fn_pmr, (go<0, true>), 3000, 60000);
PBT_TARGET(fn_both, (go<64, true>), 3000, 60000);
PBT_TARGET(fn_large, (go<240, true>), 1000, 20000);
PBT_TARGET(fn_shapes, shapes, 300, 3000);
