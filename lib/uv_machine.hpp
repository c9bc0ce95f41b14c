// State machine over cetl::unbounded_variant: four variants, a model of the value each one holds.
#pragma once
#include "mem.hpp"

#include "cetl/unbounded_variant.hpp"

#include <array>

namespace uv
{
using Pmr = cetl::pf17::pmr::memory_resource;

/// A value of a given size and alignment: tracked core plus a pattern in the remaining bytes.
template <int Tag, std::size_t Size, std::size_t Align, unsigned F>
class alignas(Align) Val : public trk::Elem<F>
{
public:
    static constexpr std::uint8_t tag = static_cast<std::uint8_t>(Tag);
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {{0xA0, static_cast<std::uint8_t>(Tag)}};
    }
    explicit Val(int v)
        : trk::Elem<F>(v)
    {
        paint(v);
    }
    Val(int a, int b)
        : trk::Elem<F>(a + b)
    {
        paint(a + b);
    }
    Val(std::initializer_list<int> l, int b)
        : trk::Elem<F>(sum(l) + b)
    {
        paint(sum(l) + b);
    }
    bool intact() const
    {
        const int v = this->get();
        for (std::size_t i = 0; i < sizeof(pad_); ++i)
        {
            if (v != trk::kMoved && pad_[i] != static_cast<unsigned char>(v * 31 + static_cast<int>(i)))
            {
                return false;
            }
        }
        return true;
    }
    void set(int v)
    {
        this->core.set(v);
        paint(v);
    }

private:
    static int sum(std::initializer_list<int> l)
    {
        int s = 0;
        for (int x : l)
        {
            s += x;
        }
        return s;
    }
    void paint(int v)
    {
        for (std::size_t i = 0; i < sizeof(pad_); ++i)
        {
            pad_[i] = static_cast<unsigned char>(v * 31 + static_cast<int>(i));
        }
    }
    unsigned char pad_[Size > sizeof(trk::Elem<F>) ? Size - sizeof(trk::Elem<F>) : 1];
};

struct Tiny
{
    static constexpr std::uint8_t tag = 1;
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{0xA1}}; }
    // Construction and copies may throw here as well, moves do not.
    explicit Tiny(int v) : v_((trk::tick(), static_cast<signed char>(v))) {}
    Tiny(int a, int b) : Tiny(a + b) {}
    Tiny(std::initializer_list<int> l, int b) : Tiny(b) { for (int x : l) v_ = static_cast<signed char>(v_ + x); }
    Tiny(const Tiny& o) : v_((trk::tick(), o.v_)) {}
    Tiny(Tiny&& o) noexcept : v_(o.v_) {}
    Tiny& operator=(const Tiny& o) { trk::tick(); v_ = o.v_; return *this; }
    Tiny& operator=(Tiny&& o) noexcept { v_ = o.v_; return *this; }
    ~Tiny() = default;
    int  get() const { return v_; }
    bool intact() const { return true; }
    void set(int v) { v_ = static_cast<signed char>(v); }
    signed char v_;
};

// A small hierarchy with a base that is not at the start of the object.
struct Ba : cetl::rtti_helper<cetl::type_id_type<0xB1>>
{
    long a = 11;
};
struct Bb : cetl::rtti_helper<cetl::type_id_type<0xB2>>
{
    long b = 22;
};
struct Poly : cetl::rtti_helper<cetl::type_id_type<0xB3>, Ba, Bb>
{
    explicit Poly(int v) : e(v) { a = v + 1; b = v + 2; }
    Poly(int x, int y) : Poly(x + y) {}
    Poly(std::initializer_list<int> l, int y) : e(y) { int s = y; for (int x : l) s += x; e.core.set(s); a = s + 1; b = s + 2; }
    Poly(const Poly&) = default;
    Poly(Poly&& o) noexcept : cetl::rtti(), rtti_helper(), e(std::move(o.e)) { a = o.a; b = o.b; }
    int  get() const { return e.get(); }
    bool intact() const { return get() == trk::kMoved || (a == get() + 1 && b == get() + 2); }
    void set(int v) { e.core.set(v); a = v + 1; b = v + 2; }
    trk::Elem<trk::Full> e;
};

using V24  = Val<2, 24, 8, trk::Full>;
using V32  = Val<3, 32, 8, trk::Full>;
using V48  = Val<4, 48, 16, trk::Full>;
using V80  = Val<5, 80, 16, trk::Full>;
using V64A = Val<6, 64, 32, trk::Full>;
using VMo  = Val<7, 40, 8, trk::MoveOnly>;
using VTh  = Val<8, 40, 8, trk::ThrowingMove>;
using VCo  = Val<9, 56, 8, trk::CopyOnly>;

template <typename... Ts>
struct List
{};
using Types = List<Tiny, V24, V32, V48, V80, V64A, VMo, VTh, VCo, Poly>;
constexpr int kTypes = 10;

/// Types whose objects show that they were moved from.
template <typename T>
struct MovesVisibly : std::true_type
{};
template <>
struct MovesVisibly<Tiny> : std::false_type
{};
template <>
struct MovesVisibly<VCo> : std::false_type
{};
template <typename T>
struct IsTracked : std::integral_constant<bool, !std::is_same<T, Tiny>::value>
{};

template <std::size_t FP, bool Cp, bool Mv, std::size_t Al, bool P>
struct Conf
{
    static constexpr std::size_t footprint = FP;
    static constexpr bool        copyable  = Cp;
    static constexpr bool        movable   = Mv;
    static constexpr std::size_t align     = Al;
    static constexpr bool        pmr       = P;
    using type = cetl::unbounded_variant<FP, Cp, Mv, Al, std::conditional_t<P, Pmr, void>>;
};

template <typename C, typename T>
struct Fits : std::integral_constant<bool, (C::pmr || sizeof(T) <= C::footprint) && alignof(T) <= C::align &&
                                               (!C::copyable || std::is_copy_constructible<T>::value) &&
                                               (!C::movable || std::is_nothrow_move_constructible<T>::value)>
{};
/// Types that may be asked for.
template <typename C, typename T>
struct Askable : std::integral_constant<bool, C::pmr || sizeof(T) <= C::footprint>
{};

struct Focus
{
    bool storage = false;
    bool faults  = false;
};

enum class St
{
    Empty,
    Valueless,
    Value
};

struct Model
{
    St  st    = St::Empty;
    int type  = -1;
    int value = 0;
    int res   = -1;
    bool same_content(const Model& o) const { return st == o.st && (st != St::Value || (type == o.type && value == o.value)); }
    bool no_value() const { return st != St::Value; }
};
inline std::string show(const Model& m)
{
    switch (m.st)
    {
    case St::Empty:
        return pbt::format("empty/r%d", m.res);
    case St::Valueless:
        return pbt::format("valueless/r%d", m.res);
    default:
        return pbt::format("T%d(%d)/r%d", m.type, m.value, m.res);
    }
}

template <typename C>
class Machine
{
    using V = typename C::type;
    static constexpr int kSlots = 4;
    struct Slot
    {
        alignas(V) unsigned char raw[sizeof(V)];
        V*    v = nullptr;
        Model m;
    };

    pbt::Case& c;
    Focus      focus;
    Slot       slots[kSlots];
    mem::Res   res[3];
    const char* op     = "";
    int        done    = 0;
    int        moves   = 0;
    bool       fault   = false;  // an injected fault fired in this step
    int        faults  = 0;

public:
    Machine(pbt::Case& cc, Focus f)
        : c(cc)
        , focus(f)
    {
        trk::reset_world();
        mem::events().error.clear();
        for (int i = 0; i < 3; ++i)
        {
            res[i].led.id = i;
            if (focus.faults)
            {
                res[i].led.on_fail = c.boolean() ? mem::Fail::ReturnsNull : mem::Fail::Throws;
            }
        }
    }
    void run()
    {
        for (auto& s : slots)
        {
            fresh(s);
        }
        verify();
        const int n = static_cast<int>(c.range(1, c.thorough() ? 60 : 30));
        for (int i = 0; i < n; ++i)
        {
            step();
            disarm();
            verify();
        }
        for (auto& s : slots)
        {
            destroy(s);
        }
        op = "end";
        mem::check_events();
        PBT_CHECK(trk::world().live == 0, "%lld values are still alive", static_cast<long long>(trk::world().live));
        for (auto& r : res)
        {
            PBT_CHECK(r.led.blocks.empty(), "%zu blocks of resource %d were not returned", r.led.blocks.size(), r.led.id);
        }
        if (done >= 3 && moves >= 1 && (!focus.faults || faults > 0))
        {
            c.nontrivial();
        }
    }

private:
    // --- dispatch over the types ---
    template <typename F, typename... Ts>
    static void each(List<Ts...>, F&& f)
    {
        int i = 0;
        const int dummy[] = {(f(static_cast<Ts*>(nullptr), i++), 0)...};
        (void) dummy;
    }
    template <typename T>
    using fits_t = Fits<C, T>;

    int pick_type()
    {
        int ok[kTypes];
        int n = 0;
        each(Types{}, FitsCollector{ok, n});
        return ok[c.below(static_cast<std::uint64_t>(n))];
    }
    struct FitsCollector
    {
        int* ok;
        int& n;
        template <typename T>
        void operator()(T*, int i) const
        {
            if (Fits<C, T>::value)
            {
                ok[n++] = i;
            }
        }
    };

    /// Calls f<T>() for the type with index k, if it fits.
    template <typename F>
    struct OnType
    {
        int k;
        F&  f;
        template <typename T>
        void operator()(T* t, int i) const
        {
            if (i == k)
            {
                call(t, Fits<C, T>{});
            }
        }
        template <typename T>
        void call(T* t, std::true_type) const
        {
            f(t);
        }
        template <typename T>
        void call(T*, std::false_type) const
        {
        }
    };
    template <typename F>
    void on_type(int k, F&& f)
    {
        each(Types{}, OnType<F>{k, f});
    }

    int  value() { return static_cast<int>(c.below(90)); }
    Slot& pick() { return slots[c.below(kSlots)]; }
    long  idx(const Slot& s) const { return &s - slots; }

    // --- creation ---
    V* make_empty(void* p, int r, std::true_type) { return new (p) V(&res[r]); }
    V* make_empty(void* p, int, std::false_type) { return new (p) V(); }
    template <typename... A>
    V* make(void* p, int r, std::true_type, A&&... a)
    {
        return new (p) V(static_cast<Pmr*>(&res[r]), std::forward<A>(a)...);
    }
    template <typename... A>
    V* make(void* p, int, std::false_type, A&&... a)
    {
        return new (p) V(std::forward<A>(a)...);
    }
    using pmr_t = std::integral_constant<bool, C::pmr>;

    void fresh(Slot& s, int r = -1)
    {
        destroy(s);
        s.m = Model{};
        if (C::pmr)
        {
            s.m.res = r >= 0 ? r : static_cast<int>(c.below(3));
        }
        std::memset(s.raw, 0xEE, sizeof(s.raw));
        s.v = make_empty(s.raw, s.m.res, pmr_t{});
    }
    void destroy(Slot& s)
    {
        if (s.v != nullptr)
        {
            s.v->~V();
            s.v = nullptr;
        }
    }

    // --- faults ---
    void arm()
    {
        fault = false;
        if (!focus.faults || !c.chance(2, 3))
        {
            return;
        }
        const bool throws = PBT_EXC && c.boolean();
        const auto at     = static_cast<std::int64_t>(c.below(3));
        if (throws)
        {
            c.log("  (value operation %lld throws)", static_cast<long long>(at));
            trk::arm(at);
        }
        else
        {
            c.log("  (allocation %lld fails)", static_cast<long long>(at));
            const bool rest = c.boolean();
            for (auto& r : res)
            {
                r.led.arm(at, rest);
            }
        }
    }
    void disarm()
    {
        trk::disarm();
        for (auto& r : res)
        {
            r.led.disarm();
        }
    }
    template <typename F>
    trk::Res exec(F&& f)
    {
        trk::world().thrown = false;
        for (auto& r : res)
        {
            r.led.failed = false;
        }
        gave             = true;
        const trk::Res x = trk::attempt(std::forward<F>(f));
        fault            = trk::world().thrown;
        for (auto& r : res)
        {
            fault = fault || r.led.failed;
        }
        disarm();
        if (fault)
        {
            ++faults;
            c.label(x == trk::Res::Ok ? "fault without exception" : "fault with exception");
        }
        PBT_CHECK(x != trk::Res::Other && x != trk::Res::Length && x != trk::Res::Range, "%s ended with an unexpected exception", op);
        PBT_CHECK(x == trk::Res::Ok || fault, "%s threw %s although nothing failed", op, trk::name(x));
        PBT_CHECK(!PBT_EXC || x != trk::Res::Ok || !fault, "%s swallowed a failure", op);
        PBT_CHECK(gave || fault, "%s copied the value it was allowed to move from", op);
        return x;
    }

    // --- observation ---
    struct Reader
    {
        const V& v;
        Model&   m;
        template <typename T>
        void operator()(T* t, int i) const
        {
            go(t, i, Fits<C, T>{});
        }
        template <typename T>
        void go(T*, int i, std::true_type) const
        {
            if (v.type_id() == cetl::type_id_value<T>)
            {
                m.type  = i;
                m.value = cetl::get_if<T>(&v)->get();
            }
        }
        template <typename T>
        void go(T*, int, std::false_type) const
        {
        }
    };
    int res_of(const V& v, std::true_type) const
    {
        for (int i = 0; i < 3; ++i)
        {
            if (v.get_memory_resource() == &res[i])
            {
                return i;
            }
        }
        pbt::fail("%s: a variant reports a foreign memory resource", op);
        return -1;
    }
    int   res_of(const V&, std::false_type) const { return -1; }
    Model observe(const V& v) const
    {
        Model m;
        m.res = res_of(v, pmr_t{});
        if (v.has_value())
        {
            PBT_CHECK(!v.valueless_by_exception(), "%s: has a value and is valueless_by_exception", op);
            m.st = St::Value;
            each(Types{}, Reader{v, m});
            PBT_CHECK(m.type >= 0, "%s: unknown type id", op);
        }
        else
        {
            m.st = v.valueless_by_exception() ? St::Valueless : St::Empty;
        }
        return m;
    }

    /// After a failed step: the variant is as before or without value. `says_so`: when it ended without the value it had,
    /// it reports valueless_by_exception.
    void settle(Slot& s, std::initializer_list<Model> allowed_values, bool says_so)
    {
        const Model now = observe(*s.v);
        bool        ok  = now.st == St::Valueless || (now.st == St::Empty && !(says_so && s.m.st == St::Value));
        for (const auto& a : allowed_values)
        {
            ok = ok || now.same_content(a);
        }
        PBT_CHECK(ok, "%s that failed left variant %ld as %s (was %s)", op, idx(s), show(now).c_str(), show(s.m).c_str());
        s.m = now;
    }

    // --- the steps ---
    void step()
    {
        Slot& s = pick();
        switch (c.weighted({4, 4, 4, 3, 3, 3, 3, 3, 2, 1, 2, 1, 2}))
        {
        case 0:
            return construct_value(s);
        case 1:
            return assign_value(s);
        case 2:
            return emplace(s);
        case 3:
            return copy_construct(s, std::integral_constant<bool, C::copyable>{});
        case 4:
            return move_construct(s, std::integral_constant<bool, C::movable>{});
        case 5:
            return copy_assign(s, std::integral_constant<bool, C::copyable>{});
        case 6:
            return move_assign(s, std::integral_constant<bool, C::movable>{});
        case 7:
            return swap(s, std::integral_constant<bool, C::copyable || C::movable>{});
        case 8:
            op = "reset";
            c.log("%ld: reset", idx(s));
            s.v->reset();
            s.m.st = St::Empty;
            ++done;
            return;
        case 9:
            return reset_to(s, pmr_t{});
        case 10:
            return mutate(s);
        case 11:
            op = "new empty variant";
            fresh(s);
            c.log("%ld: new empty variant in resource %d", idx(s), s.m.res);
            return;
        default:
            return extract(s);
        }
    }
    struct Constructing
    {
        Machine& k;
        Slot&    s;
        int      how;
        int      v;
        int      r;
        trk::Res* out;
        template <typename T>
        void operator()(T*) const
        {
            *out = k.exec([&] {
                switch (how)
                {
                case 0:
                    value_ctor<T>(std::integral_constant<bool, std::is_copy_constructible<T>::value>{});
                    break;
                case 1: {
                    T t(v);
                    s.v = k.make(s.raw, r, pmr_t{}, std::move(t));
                    k.given_away(t);
                    break;
                }
                case 5: {
                    T t(v);
                    s.v = k.make(s.raw, r, pmr_t{}, typename V::template in_place_type_t<T>{}, std::move(t));
                    k.given_away(t);
                    break;
                }
                case 6:
                    k.template helper<T>(s, r, pmr_t{}, v - 1, 1);
                    break;
                case 7:
                    k.template helper_list<T>(s, r, pmr_t{}, v);
                    break;
                case 8: {
                    T t(v);
                    k.template helper<T>(s, r, pmr_t{}, std::move(t));
                    k.given_away(t);
                    break;
                }
                case 2:
                    s.v = k.make(s.raw, r, pmr_t{}, typename V::template in_place_type_t<T>{}, v);
                    break;
                case 3:
                    s.v = k.make(s.raw, r, pmr_t{}, typename V::template in_place_type_t<T>{}, v - 1, 1);
                    break;
                default:
                    s.v = k.make(s.raw, r, pmr_t{}, typename V::template in_place_type_t<T>{}, {v - 5, 2}, 3);
                    break;
                }
            });
        }
        template <typename T>
        void value_ctor(std::true_type) const
        {
            const T t(v);
            s.v = k.make(s.raw, r, pmr_t{}, t);
        }
        template <typename T>
        void value_ctor(std::false_type) const
        {
            T t(v);
            s.v = k.make(s.raw, r, pmr_t{}, std::move(t));
        }
    };
    template <typename Tag>
    V* make(void* p, int r, std::true_type, Tag tag, std::initializer_list<int> l, int b)
    {
        return new (p) V(static_cast<Pmr*>(&res[r]), tag, l, b);
    }
    template <typename Tag>
    V* make(void* p, int, std::false_type, Tag tag, std::initializer_list<int> l, int b)
    {
        return new (p) V(tag, l, b);
    }
    /// make_unbounded_variant, for variants that can be returned by value.
    template <typename T, typename... A>
    void helper(Slot& s, int r, std::true_type, A&&... a)
    {
        helper_go<T>(s, std::integral_constant<bool, C::movable>{}, static_cast<Pmr*>(&res[r]), std::forward<A>(a)...);
    }
    template <typename T, typename... A>
    void helper(Slot& s, int, std::false_type, A&&... a)
    {
        helper_go<T>(s, std::integral_constant<bool, C::movable>{}, std::forward<A>(a)...);
    }
    template <typename T>
    void helper_list(Slot& s, int r, std::true_type, int v)
    {
        list_go<T>(s, std::integral_constant<bool, C::movable>{}, static_cast<Pmr*>(&res[r]), v);
    }
    template <typename T>
    void helper_list(Slot& s, int, std::false_type, int v)
    {
        list_go<T>(s, std::integral_constant<bool, C::movable>{}, v);
    }
    template <typename T, typename... A>
    void list_go(Slot& s, std::true_type, Pmr* r, int v)
    {
        s.v = new (s.raw) V(cetl::make_unbounded_variant<T, V>(r, {v - 5, 2}, 3));
    }
    template <typename T, typename... A>
    void list_go(Slot& s, std::true_type, int v)
    {
        s.v = new (s.raw) V(cetl::make_unbounded_variant<T, V>({v - 5, 2}, 3));
    }
    template <typename T, typename... A>
    void list_go(Slot&, std::false_type, A&&...)
    {
    }
    template <typename T, typename... A>
    void helper_go(Slot& s, std::true_type, A&&... a)
    {
        s.v = new (s.raw) V(cetl::make_unbounded_variant<T, V>(std::forward<A>(a)...));
    }
    template <typename T, typename... A>
    void helper_go(Slot&, std::false_type, A&&...)
    {
    }
    /// A value handed over as an rvalue is moved from.
    template <typename T>
    void given_away(const T& t)
    {
        gave = !MovesVisibly<T>::value || t.get() == trk::kMoved;
    }
    bool gave = true;
    void construct_value(Slot& s)
    {
        const int k   = pick_type();
        const int how = static_cast<int>(c.below(C::movable ? 9 : 6));
        const int v   = value();
        const int r   = C::pmr ? static_cast<int>(c.below(3)) : -1;
        op            = "constructor from a value";
        c.log("%ld: variant(T%d(%d)) way %d in resource %d", idx(s), k, v, how, r);
        destroy(s);
        std::memset(s.raw, 0xEE, sizeof(s.raw));
        trk::Res x = trk::Res::Ok;
        arm();
        Constructing f{*this, s, how, v, r, &x};
        on_type(k, f);
        ++done;
        if (x != trk::Res::Ok)
        {
            s.v = nullptr;
            mem::check_events();
            fresh(s, r);
            return;
        }
        if (fault)
        {
            s.m.st = St::Value;  // the value it should have had
            settle(s, {}, true);
            return;
        }
        s.m = Model{St::Value, k, v, r};
    }
    struct Assigning
    {
        Machine& k;
        Slot&    s;
        bool     copy;
        int      v;
        trk::Res* out;
        template <typename T>
        void operator()(T*) const
        {
            *out = k.exec([&] { go<T>(std::integral_constant<bool, std::is_copy_constructible<T>::value>{}); });
        }
        template <typename T>
        void go(std::true_type) const
        {
            if (copy)
            {
                const T t(v);
                *s.v = t;
            }
            else
            {
                go<T>(std::false_type{});
            }
        }
        template <typename T>
        void go(std::false_type) const
        {
            T t(v);
            *s.v = std::move(t);
            k.given_away(t);
        }
    };
    void assign_value(Slot& s)
    {
        const int  k    = pick_type();
        const int  v    = value();
        const bool copy = c.boolean();
        op              = "value assignment";
        c.log("%ld: = T%d(%d) by %s", idx(s), k, v, copy ? "copy" : "move");
        trk::Res x = trk::Res::Ok;
        arm();
        Assigning f{*this, s, copy, v, &x};
        on_type(k, f);
        ++done;
        if (fault)
        {
            settle(s, {s.m}, true);
            return;
        }
        s.m.st    = St::Value;
        s.m.type  = k;
        s.m.value = v;
    }
    struct Emplacing
    {
        Machine& k;
        Slot&    s;
        int      how;
        int      v;
        trk::Res* out;
        template <typename T>
        void operator()(T*) const
        {
            T* p = nullptr;
            *out = k.exec([&] {
                switch (how)
                {
                case 0:
                    p = s.v->template emplace<T>(v);
                    break;
                case 1:
                    p = s.v->template emplace<T>(v - 1, 1);
                    break;
                case 2: {
                    T t(v);
                    p = s.v->template emplace<T>(std::move(t));
                    k.given_away(t);
                    break;
                }
                default:
                    p = s.v->template emplace<T>({v - 5, 2}, 3);
                    break;
                }
            });
            if (*out == trk::Res::Ok && !k.fault)
            {
                PBT_CHECK(p != nullptr && p == cetl::get_if<T>(s.v), "emplace returned another object than get_if");
            }
            if (*out == trk::Res::Ok && k.fault)
            {
                PBT_CHECK(p == nullptr, "emplace without memory returned an object");
            }
        }
    };
    void emplace(Slot& s)
    {
        const int k   = pick_type();
        const int v   = value();
        const int how = static_cast<int>(c.below(4));
        op            = "emplace";
        c.log("%ld: emplace T%d(%d) way %d", idx(s), k, v, how);
        trk::Res x = trk::Res::Ok;
        arm();
        Emplacing f{*this, s, how, v, &x};
        on_type(k, f);
        ++done;
        if (fault)
        {
            settle(s, {s.m}, true);
            return;
        }
        s.m.st    = St::Value;
        s.m.type  = k;
        s.m.value = v;
    }
    /// What a copy of, or a move from, `src` must hold.
    static Model taken(const Model& src)
    {
        Model m = src;
        return m;
    }
    void expect_taken(Slot& s, const Model& from)
    {
        const Model now = observe(*s.v);
        if (from.st == St::Value)
        {
            PBT_CHECK(now.same_content(from), "%s: variant %ld is %s, the source was %s", op, idx(s), show(now).c_str(), show(from).c_str());
        }
        else
        {
            PBT_CHECK(now.no_value(), "%s from a variant without value: variant %ld is %s", op, idx(s), show(now).c_str());
        }
        PBT_CHECK(now.res == from.res, "%s: variant %ld uses resource %d, the source used %d", op, idx(s), now.res, from.res);
        s.m = now;
    }
    void copy_construct(Slot&, std::false_type) {}
    void copy_construct(Slot& s, std::true_type)
    {
        Slot& src = pick();
        if (&src == &s)
        {
            return;
        }
        op = "copy constructor";
        c.log("%ld: copy of %ld", idx(s), idx(src));
        destroy(s);
        std::memset(s.raw, 0xEE, sizeof(s.raw));
        arm();
        const trk::Res x = exec([&] { s.v = new (s.raw) V(static_cast<const V&>(*src.v)); });
        ++done;
        moves += src.m.st == St::Value ? 1 : 0;
        if (x != trk::Res::Ok)
        {
            s.v = nullptr;
            fresh(s);
            return;
        }
        if (fault)
        {
            s.m.st = St::Value;  // the value it should have had
            settle(s, {}, true);
            return;
        }
        expect_taken(s, src.m);
    }
    void move_construct(Slot&, std::false_type) {}
    void move_construct(Slot& s, std::true_type)
    {
        Slot& src = pick();
        if (&src == &s)
        {
            return;
        }
        op = "move constructor";
        c.log("%ld: move of %ld", idx(s), idx(src));
        destroy(s);
        std::memset(s.raw, 0xEE, sizeof(s.raw));
        const Model from = src.m;
        arm();
        (void) exec([&] { s.v = new (s.raw) V(std::move(*src.v)); });
        ++done;
        moves += from.st == St::Value ? 1 : 0;
        expect_taken(s, from);
        moved_from(src);
    }
    void moved_from(Slot& src)
    {
        const Model now = observe(*src.v);
        if (src.m.st == St::Valueless)
        {
            PBT_CHECK(now.no_value(), "%s: a valueless source became %s", op, show(now).c_str());
        }
        else
        {
            PBT_CHECK(now.st == St::Empty, "%s: the source is %s", op, show(now).c_str());
        }
        PBT_CHECK(now.res == src.m.res, "%s: the source changed its resource from %d to %d", op, src.m.res, now.res);
        src.m = now;
    }
    void copy_assign(Slot&, std::false_type) {}
    void copy_assign(Slot& s, std::true_type)
    {
        Slot& src = pick();
        op        = "copy assignment";
        c.log("%ld: = copy of %ld", idx(s), idx(src));
        arm();
        (void) exec([&] { *s.v = static_cast<const V&>(*src.v); });
        ++done;
        moves += src.m.st == St::Value ? 1 : 0;
        if (&s == &src)
        {
            return;
        }
        if (fault)
        {
            settle(s, {s.m}, true);
            return;
        }
        expect_taken(s, src.m);
    }
    void move_assign(Slot&, std::false_type) {}
    void move_assign(Slot& s, std::true_type)
    {
        Slot& src = pick();
        op        = "move assignment";
        c.log("%ld: = move of %ld", idx(s), idx(src));
        const Model from = src.m;
        arm();
        (void) exec([&] { *s.v = std::move(*src.v); });
        ++done;
        moves += from.st == St::Value ? 1 : 0;
        if (&s == &src)
        {
            const Model now = observe(*s.v);
            PBT_CHECK(now.same_content(from) || now.no_value(), "self move left %s", show(now).c_str());
            s.m = now;
            return;
        }
        expect_taken(s, from);
        moved_from(src);
    }
    void swap(Slot&, std::false_type) {}
    void swap(Slot& s, std::true_type)
    {
        Slot& o = pick();
        op      = "swap";
        c.log("%ld: swap with %ld", idx(s), idx(o));
        const Model a = s.m;
        const Model b = o.m;
        arm();
        (void) exec([&] { s.v->swap(*o.v); });
        ++done;
        moves += (a.st == St::Value || b.st == St::Value) ? 1 : 0;
        if (&s == &o)
        {
            return;
        }
        if (fault)
        {
            settle(s, {a, b}, false);
            settle(o, {a, b}, false);
            return;
        }
        expect_taken(s, b);
        expect_taken(o, a);
    }
    void reset_to(Slot&, std::false_type) {}
    void reset_to(Slot& s, std::true_type)
    {
        const int r = static_cast<int>(c.below(3));
        op          = "reset(resource)";
        c.log("%ld: reset(resource %d)", idx(s), r);
        s.v->reset(&res[r]);
        s.m.st  = St::Empty;
        s.m.res = r;
        ++done;
    }
    struct Mutating
    {
        V&  v;
        int x;
        int how;
        template <typename T>
        void operator()(T*) const
        {
            if (how == 0)
            {
                cetl::get_if<T>(&v)->set(x);
            }
            else
            {
                cetl::get<T&>(v).set(x);
            }
        }
    };
    void mutate(Slot& s)
    {
        if (s.m.st != St::Value)
        {
            return;
        }
        const int v = value();
        op          = "write through get";
        c.log("%ld: set(%d)", idx(s), v);
        Mutating f{*s.v, v, static_cast<int>(c.below(2))};
        on_type(s.m.type, f);
        s.m.value = v;
    }
    struct Extracting
    {
        V&   v;
        int  how;
        int* out;
        template <typename T>
        void operator()(T*) const
        {
            switch (how)
            {
            case 0:
                *out = cetl::get<const T&>(static_cast<const V&>(v)).get();
                break;
            case 1:
                *out = cetl::get<T&&>(std::move(v)).get();
                break;
            default:
                by_value<T>(std::integral_constant<bool, std::is_copy_constructible<T>::value>{});
                break;
            }
        }
        template <typename T>
        void by_value(std::true_type) const
        {
            *out = cetl::get<T>(static_cast<const V&>(v)).get();
        }
        template <typename T>
        void by_value(std::false_type) const
        {
            *out = cetl::get<const T&>(static_cast<const V&>(v)).get();
        }
    };
    void extract(Slot& s)
    {
        if (s.m.st != St::Value)
        {
            return;
        }
        op = "get";
        c.log("%ld: get", idx(s));
        int        out = -1;
        Extracting f{*s.v, static_cast<int>(c.below(3)), &out};
        on_type(s.m.type, f);
        PBT_CHECK(out == s.m.value, "get returned %d instead of %d", out, s.m.value);
    }

    // --- checks after each step ---
    struct Asking
    {
        Machine& k;
        Slot&    s;
        template <typename T>
        void operator()(T* t, int i) const
        {
            go(t, i, Askable<C, T>{});
        }
        template <typename T>
        void go(T*, int, std::false_type) const
        {
        }
        template <typename T>
        void go(T*, int i, std::true_type) const
        {
            const V& cv  = *s.v;
            T*       p   = cetl::get_if<T>(s.v);
            const T* cp  = cetl::get_if<T>(&cv);
            const bool is = s.m.st == St::Value && s.m.type == i;
            PBT_CHECK(p == cp, "%s: const and non-const get_if differ", k.op);
            PBT_CHECK((p != nullptr) == is, "%s: get_if<T%d> of %s is %s", k.op, i, show(s.m).c_str(), p != nullptr ? "not null" : "null");
#if PBT_EXC
            bool threw = false;
            try
            {
                const T& r = cetl::get<const T&>(cv);
                PBT_CHECK(&r == cp, "%s: get and get_if differ", k.op);
                T& q = cetl::get<T&>(*s.v);
                PBT_CHECK(&q == cp, "%s: get and get_if differ", k.op);
            } catch (const cetl::bad_unbounded_variant_access&)
            {
                threw = true;
            }
            PBT_CHECK(threw != is, "%s: get<T%d> of %s", k.op, i, show(s.m).c_str());
#endif
            if (is)
            {
                PBT_CHECK(p->get() == s.m.value, "%s: variant %ld holds %d instead of %d", k.op, k.idx(s), p->get(), s.m.value);
                PBT_CHECK(p->intact(), "%s: the bytes of the value in variant %ld changed", k.op, k.idx(s));
                PBT_CHECK(cv.type_id() == cetl::type_id_value<T>, "%s: wrong type id", k.op);
                PBT_CHECK(cv.type_size() == sizeof(T), "%s: type_size %zu of a value of %zu bytes", k.op, cv.type_size(), sizeof(T));
                k.where(s, p, sizeof(T), alignof(T));
            }
        }
    };
    void where(Slot& s, const void* p, std::size_t size, std::size_t al)
    {
        const auto a = reinterpret_cast<std::uintptr_t>(p);
        PBT_CHECK(a % al == 0, "%s: value with alignment %zu at %p", op, al, p);
        if (!focus.storage)
        {
            return;
        }
        const bool inside = p >= static_cast<const void*>(s.raw) && static_cast<const char*>(p) + size <= reinterpret_cast<const char*>(s.raw) + sizeof(s.raw);
        PBT_CHECK(inside == (size <= C::footprint), "%s: value of %zu bytes with footprint %zu is %s the variant", op, size, C::footprint,
                  inside ? "inside" : "outside");
        if (!inside)
        {
            char*             start = nullptr;
            const mem::Block* b     = res[s.m.res].led.find(p, size, &start);
            PBT_CHECK(b != nullptr, "%s: the value is not in memory of its resource", op);
            PBT_CHECK(start == p && b->bytes == size && b->align == C::align, "%s: a value of %zu bytes is in a block of %zu, alignment %zu", op,
                      size, b->bytes, b->align);
        }
    }
    void base_access(Slot& s, std::true_type)
    {
        const V&   cv = *s.v;
        const Poly* p = cetl::get_if<Poly>(&cv);
        const Ba*  a  = cetl::get_if<Ba>(&cv);
        Bb*        b  = cetl::get_if<Bb>(s.v);
        if (p == nullptr)
        {
            PBT_CHECK(a == nullptr && b == nullptr, "%s: a base was found in a value without bases", op);
            return;
        }
        PBT_CHECK(a == static_cast<const Ba*>(p) && b == static_cast<const Bb*>(p), "%s: base subobject at the wrong address", op);
        if (s.m.st == St::Value)
        {
            PBT_CHECK(a->a == s.m.value + 1 && b->b == s.m.value + 2, "%s: base subobject holds other values", op);
        }
    }
    void base_access(Slot&, std::false_type) {}
    void verify()
    {
        mem::check_events();
        std::int64_t tracked = 0;
        std::size_t  outside = 0;
        std::size_t  valueless = 0;
        for (auto& s : slots)
        {
            const Model now = observe(*s.v);
            PBT_CHECK(now.same_content(s.m) && now.res == s.m.res, "%s: variant %ld is %s instead of %s", op, idx(s), show(now).c_str(),
                      show(s.m).c_str());
            if (s.m.st != St::Value)
            {
                PBT_CHECK(s.v->type_id() == cetl::type_id{} && s.v->type_size() == 0, "%s: variant without value has a type", op);
            }
            each(Types{}, Asking{*this, s});
            base_access(s, std::integral_constant<bool, Fits<C, Poly>::value && (C::pmr || sizeof(Ba) <= C::footprint)>{});
            tracked += s.m.st == St::Value && s.m.type != 0 ? 1 : 0;
            outside += s.m.st == St::Value && s.v->type_size() > C::footprint ? 1 : 0;
            valueless += s.m.st == St::Valueless ? 1 : 0;
        }
        PBT_CHECK(cetl::get_if<Tiny>(static_cast<V*>(nullptr)) == nullptr, "get_if of null");
        PBT_CHECK(trk::world().live == tracked, "%s: %lld values are alive, the variants hold %lld", op,
                  static_cast<long long>(trk::world().live), static_cast<long long>(tracked));
        if (C::pmr)
        {
            std::size_t blocks = 0;
            for (auto& r : res)
            {
                blocks += r.led.blocks.size();
            }
            // a variant that lost its value may keep the block until it is reset
            PBT_CHECK(blocks >= outside && blocks <= outside + valueless, "%s: %zu blocks are allocated, the variants need %zu", op, blocks,
                      outside);
            if (focus.storage)
            {
                PBT_CHECK(C::footprint < 80 || blocks == 0, "%s: a value that fits uses the memory resource", op);
            }
        }
    }
};

template <typename C>
void run(pbt::Case& c, Focus f)
{
    Machine<C> m(c, f);
    m.run();
}

}  // namespace uv
