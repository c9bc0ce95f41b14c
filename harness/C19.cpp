// C19: visit calls the visitor once, with exactly the active alternatives, and returns what it returned.
#include "track.hpp"

#include "cetl/pf17/variant.hpp"
#include "cetl/visit_helpers.hpp"

#include <functional>
#include <memory>
#include <string>

namespace
{
template <int K>
struct E
{
    static constexpr int kind = K;
    int                  v    = 0;
    bool                 moved = false;
    E() = default;
    explicit E(int x) : v(x) {}
    ~E() {}
};
template <>
struct E<0>  // trivially destructible
{
    static constexpr int kind = 0;
    int                  v    = 0;
    bool                 moved = false;
};
struct Pin  // neither copyable nor movable
{
    static constexpr int kind = 7;
    int                  v    = 0;
    bool                 moved = false;
    explicit Pin(int x = 0) : v(x) {}
    Pin(const Pin&)            = delete;
    Pin& operator=(const Pin&) = delete;
};
struct Boom
{
    static constexpr int kind = 8;
    int                  v    = 0;
    bool                 moved = false;
    explicit Boom(int x = 0) : v(x)
    {
#if PBT_EXC
        if (x < 0)
        {
            throw x;
        }
#endif
    }
};
struct Arg
{
    const void* at;
    int         kind;
    int         cat;
    bool        operator==(const Arg& o) const { return at == o.at && kind == o.kind && cat == o.cat; }
};
struct Rec
{
    int              calls = 0;
    int              fcat  = -1;
    std::vector<Arg> args;
};
Rec g_rec;
int         g_cells[16];
std::string g_text[16];

template <typename A>
constexpr int cat_of()
{
    return (std::is_lvalue_reference<A>::value ? 0 : 2) + (std::is_const<std::remove_reference_t<A>>::value ? 1 : 0);
}
template <typename A>
void consume(A& a, std::true_type)
{
    a.moved = true;
}
template <typename A>
void consume(A&, std::false_type)
{
}
template <typename... A>
void record(int fcat, A&&... a)
{
    ++g_rec.calls;
    g_rec.fcat = fcat;
    g_rec.args.clear();
    using sw = int[];
    (void) sw{0, (g_rec.args.push_back(Arg{static_cast<const void*>(&a), std::decay_t<A>::kind, cat_of<A&&>()}), 0)...};
}
inline int first_kind() { return 0; }
template <typename A, typename... B>
constexpr int first_kind(const A&, const B&...)
{
    return A::kind;
}
struct MoveOnlyResult
{
    std::unique_ptr<int> p;
};

enum Kind
{
    Int,
    Ref,
    CRef,
    XRef,
    Void,
    Move,
    Mixed,
    Consume,
    Throws,
    ArgRef,
    kinds
};
int hash_args()
{
    int h = 17;
    for (auto& a : g_rec.args)
    {
        h = h * 31 + a.kind * 4 + a.cat;
    }
    return h;
}
template <Kind K>
struct Ret;
#define RET(K, TYPE, ...)                                                                                              \
    template <>                                                                                                        \
    struct Ret<K>                                                                                                      \
    {                                                                                                                  \
        using type = TYPE;                                                                                             \
        template <typename... A>                                                                                       \
        static TYPE get(A&&... a)                                                                                      \
        {                                                                                                              \
            const int k = first_kind(a...);                                                                            \
            (void) k;                                                                                                  \
            __VA_ARGS__                                                                                                    \
        }                                                                                                              \
    };
RET(Int, int, return hash_args();)
RET(Ref, int&, return g_cells[k];)
RET(CRef, const std::string&, return g_text[k];)
RET(XRef, std::string&&, return std::move(g_text[k]);)
RET(Void, void, return;)
RET(Move, MoveOnlyResult, return MoveOnlyResult{std::unique_ptr<int>(new int(hash_args()))};)
RET(Consume, long, using sw = int[]; (void) sw{0, (consume(a, std::integral_constant<bool, cat_of<A&&>() == 2>{}), 0)...}; return hash_args();)
#if PBT_EXC
RET(Throws, int, throw hash_args();)
#else
RET(Throws, int, return hash_args();)
#endif

template <Kind K>
struct Vis
{
    template <typename... A>
    typename Ret<K>::type operator()(A&&... a) &
    {
        record(0, std::forward<A>(a)...);
        return Ret<K>::get(std::forward<A>(a)...);
    }
    template <typename... A>
    typename Ret<K>::type operator()(A&&... a) const&
    {
        record(1, std::forward<A>(a)...);
        return Ret<K>::get(std::forward<A>(a)...);
    }
    template <typename... A>
    typename Ret<K>::type operator()(A&&... a) &&
    {
        record(2, std::forward<A>(a)...);
        return Ret<K>::get(std::forward<A>(a)...);
    }
};
/// Results of different types are converted to their common type.
template <>
struct Vis<Mixed>
{
    template <typename A, typename... B>
    std::conditional_t<std::decay_t<A>::kind == 0, int, std::conditional_t<std::decay_t<A>::kind == 1, short, double>> operator()(A&& a, B&&... b) const
    {
        record(1, std::forward<A>(a), std::forward<B>(b)...);
        return static_cast<std::conditional_t<std::decay_t<A>::kind == 0, int, std::conditional_t<std::decay_t<A>::kind == 1, short, double>>>(std::decay_t<A>::kind + 0.5);
    }
};
/// The result refers into the visited alternative.
template <>
struct Vis<ArgRef>
{
    template <typename A, typename... B>
    std::conditional_t<std::is_const<std::remove_reference_t<A>>::value, const int&, int&> operator()(A&& a, B&&... b) const
    {
        record(1, std::forward<A>(a), std::forward<B>(b)...);
        return a.v;
    }
};

/// What happened in a call.
struct Seen
{
    bool        bad = false, threw = false, type_ok = true;
    const void* at  = nullptr;
    double      num = 0;
};
template <Kind K>
struct Take
{
    template <typename Call>
    static void run(Seen& s, Call&& call)
    {
        s.type_ok = std::is_same<decltype(call()), typename Ret<K>::type>::value;
        s.num     = static_cast<double>(call());
    }
};
#define TAKE_REF(K)                                                                                                    \
    template <>                                                                                                        \
    struct Take<K>                                                                                                     \
    {                                                                                                                  \
        template <typename Call>                                                                                       \
        static void run(Seen& s, Call&& call)                                                                          \
        {                                                                                                              \
            s.type_ok = std::is_same<decltype(call()), typename Ret<K>::type>::value;                                  \
            auto&& r  = call();                                                                                        \
            s.at      = &r;                                                                                            \
        }                                                                                                              \
    };
TAKE_REF(Ref)
TAKE_REF(CRef)
TAKE_REF(XRef)
template <>
struct Take<ArgRef>
{
    template <typename Call>
    static void run(Seen& s, Call&& call)
    {
        s.type_ok = std::is_lvalue_reference<decltype(call())>::value;
        auto&& r  = call();
        s.at      = &r;
    }
};
template <>
struct Take<Void>
{
    template <typename Call>
    static void run(Seen& s, Call&& call)
    {
        s.type_ok = std::is_same<decltype(call()), void>::value;
        call();
    }
};
template <>
struct Take<Move>
{
    template <typename Call>
    static void run(Seen& s, Call&& call)
    {
        s.type_ok = std::is_same<decltype(call()), MoveOnlyResult>::value;
        s.num     = *call().p;
    }
};
template <>
struct Take<Mixed>
{
    template <typename Call>
    static void run(Seen& s, Call&& call)
    {
        s.type_ok = std::is_arithmetic<decltype(call())>::value;
        s.num     = static_cast<double>(call());
    }
};

using LA = cetl::pf17::variant<E<0>, E<1>, E<2>>;
using LB = cetl::pf17::variant<Pin, Boom>;
using LC = cetl::pf17::variant<E<3>, E<0>, Boom, E<3>>;  // a repeated type
using LD = cetl::pf17::variant<E<0>>;

template <typename V>
struct Lists;
#define LIST(V, ...)                                                                                                   \
    template <>                                                                                                        \
    struct Lists<V>                                                                                                    \
    {                                                                                                                  \
        static constexpr std::size_t count = cetl::pf17::variant_size_v<V>;                                            \
    };
LIST(LA)
LIST(LB)
LIST(LC)
LIST(LD)

template <typename V, std::size_t... I>
void put(V& v, std::size_t n, int value, std::index_sequence<I...>)
{
    using sw = int[];
    (void) sw{0, (n == I ? (v.template emplace<I>(), cetl::pf17::get<I>(v).v = value, 0) : 0)...};
}
#if PBT_EXC
inline void make_valueless(LA&) {}
template <typename V, std::size_t I>
void make_valueless_at(V& v)
{
    try
    {
        v.template emplace<I>(-1);
    } catch (int)
    {}
}
inline void make_valueless(LB& v) { make_valueless_at<LB, 1>(v); }
inline void make_valueless(LC& v) { make_valueless_at<LC, 2>(v); }
inline void make_valueless(LD&) {}
#endif
template <typename V>
void setup(pbt::Case& c, V& v)
{
    constexpr std::size_t n = Lists<V>::count;
    put(v, static_cast<std::size_t>(c.below(n)), static_cast<int>(c.below(100)), std::make_index_sequence<n>{});
#if PBT_EXC
    if (c.chance(1, 8))
    {
        make_valueless(v);
    }
#endif
}
struct State
{
    std::size_t index = 0;
    const void* at    = nullptr;
    int         kind  = 0;
    int         v     = 0;
    bool        moved = false;
};
template <typename V, std::size_t... I>
State look(const V& v, std::index_sequence<I...>)
{
    State s;
    s.index  = v.index();
    using sw = int[];
    auto f = [&](auto* p) {
        if (p != nullptr)
        {
            s.at    = p;
            s.kind  = p->kind;
            s.v     = p->v;
            s.moved = p->moved;
        }
    };
    (void) sw{0, (f(cetl::pf17::get_if<I>(&v)), 0)...};
    return s;
}
template <typename V>
State look(const V& v)
{
    return look(v, std::make_index_sequence<Lists<V>::count>{});
}
/// A category as a type: 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue.
template <int C, typename V>
decltype(auto) as(V& v)
{
    using X = std::conditional_t<(C & 1) != 0, const V, V>;
    return static_cast<std::conditional_t<(C & 2) == 0, X&, X&&>>(v);
}

void judge_impl(pbt::Case& c, const Kind K, int fcat, const std::vector<State>& before, const std::vector<int>& cats, const std::function<void(Seen&)>& call)
{
    bool valueless = false;
    std::vector<Arg> want;
    std::string      shape;
    for (std::size_t i = 0; i < before.size(); ++i)
    {
        valueless = valueless || before[i].index == cetl::pf17::variant_npos;
        want.push_back(Arg{before[i].at, before[i].kind, cats[i]});
        shape += pbt::format(" [%d: kind %d cat %d]", static_cast<int>(before[i].index), before[i].kind, cats[i]);
    }
    c.log("visitor %d result %d variants%s", fcat, static_cast<int>(K), shape.c_str());
    g_rec = Rec{};
    Seen s;
#if PBT_EXC
    try
    {
        call(s);
    } catch (const cetl::pf17::bad_variant_access&)
    {
        s.bad = true;
    } catch (int x)
    {
        s.threw = true;
        s.num   = x;
    }
#else
    call(s);
#endif
    PBT_CHECK(s.type_ok, "the result of visit has another type than the result of the visitor");
    PBT_CHECK(s.bad == valueless, "bad_variant_access: %d, valueless: %d", s.bad, valueless);
    PBT_CHECK(g_rec.calls == (valueless ? 0 : 1), "the visitor was called %d times", g_rec.calls);
    if (valueless)
    {
        c.label("valueless");
        return;
    }
    PBT_CHECK(g_rec.args.size() == want.size(), "%d arguments", static_cast<int>(g_rec.args.size()));
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        PBT_CHECK(g_rec.args[i].at == want[i].at, "argument %d is not the active alternative", static_cast<int>(i));
        PBT_CHECK(g_rec.args[i].kind == want[i].kind, "argument %d has the type of alternative kind %d instead of %d", static_cast<int>(i), g_rec.args[i].kind, want[i].kind);
        PBT_CHECK(g_rec.args[i].cat == want[i].cat, "argument %d has category %d instead of %d", static_cast<int>(i), g_rec.args[i].cat, want[i].cat);
    }
    PBT_CHECK(K == Mixed || K == ArgRef || g_rec.fcat == fcat, "the visitor was called with category %d instead of %d", g_rec.fcat, fcat);
    const int k0 = before.empty() ? 0 : before[0].kind;
    switch (K)
    {
    case Int:
    case Move:
    case Consume: PBT_CHECK(s.num == hash_args(), "result %g instead of %d", s.num, hash_args()); break;
    case Ref: PBT_CHECK(s.at == &g_cells[k0], "the result refers to another object"); break;
    case CRef:
    case XRef: PBT_CHECK(s.at == &g_text[k0], "the result refers to another object"); break;
    case ArgRef: PBT_CHECK(s.at != nullptr && s.at == before[0].at, "the result does not refer into the alternative"); break;
    case Mixed: PBT_CHECK(s.num == (k0 == 0 ? 0.0 : (k0 == 1 ? 1.0 : k0 + 0.5)), "result %g for kind %d", s.num, k0); break;
    case Throws: PBT_CHECK(!PBT_EXC || (s.threw && s.num == hash_args()), "the exception of the visitor was lost"); break;
    default: break;
    }
}
template <Kind K, typename Call>
void judge(pbt::Case& c, int fcat, const std::vector<State>& before, const std::vector<int>& cats, Call&& call)
{
    judge_impl(c, K, fcat, before, cats, [&](Seen& s) { Take<K>::run(s, call); });
}
template <Kind K, typename V>
void unchanged(const V& v, const State& b, int cat)
{
    const State a = look(v);
    PBT_CHECK(a.index == b.index && a.at == b.at && a.v == b.v, "visit changed the variant");
    PBT_CHECK(a.moved == (b.index != cetl::pf17::variant_npos && K == Consume && cat == 2 && g_rec.calls == 1), "visit moved from the variant: %d", a.moved);
}
// ArgRef: v is the first member of every alternative, so its address is that of the alternative.
static_assert(std::is_standard_layout<E<0>>::value && std::is_standard_layout<Boom>::value && std::is_standard_layout<E<1>>::value, "");

template <Kind K, int FC, int C0, typename V0>
void one(pbt::Case& c)
{
    V0 v0;
    setup(c, v0);
    const State b0 = look(v0);
    Vis<K>      f;
    judge<K>(c, FC, {b0}, {C0}, [&]() -> decltype(auto) { return cetl::pf17::visit(as<FC>(f), as<C0>(v0)); });
    unchanged<K>(v0, b0, C0);
    if (g_rec.calls == 1)
    {
        c.nontrivial();
    }
}
template <Kind K, int FC, int C0, typename V0, int C1, typename V1>
void two(pbt::Case& c)
{
    V0 v0;
    V1 v1;
    setup(c, v0);
    setup(c, v1);
    const State b0 = look(v0), b1 = look(v1);
    Vis<K>      f;
    judge<K>(c, FC, {b0, b1}, {C0, C1}, [&]() -> decltype(auto) { return cetl::pf17::visit(as<FC>(f), as<C0>(v0), as<C1>(v1)); });
    unchanged<K>(v0, b0, C0);
    unchanged<K>(v1, b1, C1);
    c.nontrivial();
}
template <Kind K, int FC, int C0, typename V0, int C1, typename V1, int C2, typename V2>
void three(pbt::Case& c)
{
    V0 v0;
    V1 v1;
    V2 v2;
    setup(c, v0);
    setup(c, v1);
    setup(c, v2);
    const State b0 = look(v0), b1 = look(v1), b2 = look(v2);
    Vis<K>      f;
    judge<K>(c, FC, {b0, b1, b2}, {C0, C1, C2}, [&]() -> decltype(auto) { return cetl::pf17::visit(as<FC>(f), as<C0>(v0), as<C1>(v1), as<C2>(v2)); });
    unchanged<K>(v0, b0, C0);
    unchanged<K>(v1, b1, C1);
    unchanged<K>(v2, b2, C2);
    c.nontrivial();
}
template <Kind K, int C0, int C1, int C2, int C3>
void four(pbt::Case& c)
{
    LB v0;
    LA v1;
    LD v2;
    LB v3;
    setup(c, v0);
    setup(c, v1);
    setup(c, v2);
    setup(c, v3);
    const State b0 = look(v0), b1 = look(v1), b2 = look(v2), b3 = look(v3);
    Vis<K>      f;
    judge<K>(c, 0, {b0, b1, b2, b3}, {C0, C1, C2, C3}, [&]() -> decltype(auto) { return cetl::pf17::visit(f, as<C0>(v0), as<C1>(v1), as<C2>(v2), as<C3>(v3)); });
    unchanged<K>(v0, b0, C0);
    unchanged<K>(v1, b1, C1);
    unchanged<K>(v2, b2, C2);
    unchanged<K>(v3, b3, C3);
    c.nontrivial();
}
using Fn = void (*)(pbt::Case&);
void run(pbt::Case& c, std::initializer_list<Fn> l)
{
    (*(l.begin() + c.below(l.size())))(c);
}
#define CATS1(K, FC, V) one<K, FC, 0, V>, one<K, FC, 1, V>, one<K, FC, 2, V>, one<K, FC, 3, V>
#define CATS2A(K, FC, V, D, W) two<K, FC, 0, V, D, W>, two<K, FC, 1, V, D, W>, two<K, FC, 2, V, D, W>, two<K, FC, 3, V, D, W>
#define CATS2(K, FC, V, W) CATS2A(K, FC, V, 0, W), CATS2A(K, FC, V, 1, W), CATS2A(K, FC, V, 2, W), CATS2A(K, FC, V, 3, W)
#define CATS3A(K, V, D, W, G, X) three<K, 0, 0, V, D, W, G, X>, three<K, 0, 3, V, D, W, G, X>
#define CATS3(K, V, W, X) CATS3A(K, V, 0, W, 1, X), CATS3A(K, V, 2, W, 0, X), CATS3A(K, V, 1, W, 2, X), CATS3A(K, V, 3, W, 3, X), CATS3A(K, V, 2, W, 2, X)

#if PART == 1
/// Same variant given more than once.
void twice(pbt::Case& c)
{
    LA v;
    setup(c, v);
    const State b = look(v);
    Vis<Int>    f;
    judge<Int>(c, 0, {b, b, b}, {0, 1, 0}, [&]() -> decltype(auto) { return cetl::pf17::visit(f, v, static_cast<const LA&>(v), v); });
    c.nontrivial();
}
void none(pbt::Case& c)
{
    switch (c.below(3))
    {
    case 0:
    {
        Vis<Int> f;
        judge<Int>(c, 0, {}, {}, [&]() -> decltype(auto) { return cetl::pf17::visit(f); });
        break;
    }
    case 1:
    {
        const Vis<Ref> f{};
        judge<Ref>(c, 1, {}, {}, [&]() -> decltype(auto) { return cetl::pf17::visit(f); });
        break;
    }
    default:
        judge<Void>(c, 2, {}, {}, [&]() -> decltype(auto) { return cetl::pf17::visit(Vis<Void>{}); });
        break;
    }
    c.nontrivial();
}
void single_full(pbt::Case& c)
{
    run(c, {CATS1(Int, 0, LA), CATS1(Int, 1, LA), CATS1(Int, 2, LA), CATS1(Int, 0, LB), CATS1(Int, 2, LB), CATS1(Int, 1, LC), CATS1(Int, 0, LC), CATS1(Int, 1, LD)});
}
template <Kind K>
void single(pbt::Case& c)
{
    run(c, {CATS1(K, 0, LA), CATS1(K, 2, LC), one<K, 1, 0, LB>, one<K, 0, 3, LD>});
}
PBT_TARGET(visit_int, single_full, 800, 8000);
PBT_TARGET(visit_ref, single<Ref>, 800, 8000);
PBT_TARGET(visit_cref, single<CRef>, 800, 8000);
PBT_TARGET(visit_xref, single<XRef>, 800, 8000);
PBT_TARGET(visit_void, single<Void>, 800, 8000);
PBT_TARGET(visit_move, single<Move>, 800, 8000);
PBT_TARGET(visit_mixed, single<Mixed>, 800, 8000);
PBT_TARGET(visit_consume, single<Consume>, 800, 8000);
PBT_TARGET(visit_throws, single<Throws>, 800, 8000);
PBT_TARGET(visit_argref, single<ArgRef>, 800, 8000);
PBT_TARGET(visit_none, none, 100, 300);
PBT_TARGET(visit_same, twice, 100, 1000);
#elif PART == 2
template <Kind K>
void pair(pbt::Case& c)
{
    run(c, {CATS2(K, 0, LA, LB)});
}
template <Kind K>
void pair_some(pbt::Case& c)
{
    run(c, {CATS2A(K, 0, LC, 2, LB), CATS2A(K, 2, LB, 0, LC), two<K, 1, 0, LC, 1, LC>, two<K, 0, 2, LC, 2, LC>});
}
PBT_TARGET(visit2_int, pair<Int>, 4000, 40000);
PBT_TARGET(visit2_ref, pair_some<Ref>, 2000, 40000);
PBT_TARGET(visit2_consume, pair_some<Consume>, 2000, 40000);
PBT_TARGET(visit2_argref, pair_some<ArgRef>, 2000, 40000);
#else
template <Kind K>
void triple(pbt::Case& c)
{
    run(c, {CATS3(K, LB, LA, LB)});
}
template <Kind K>
void quadruple(pbt::Case& c)
{
    run(c, {four<K, 0, 0, 0, 0>, four<K, 1, 2, 3, 0>, four<K, 2, 3, 0, 1>, four<K, 3, 0, 1, 2>, four<K, 2, 2, 2, 2>});
}
PBT_TARGET(visit3_ref, triple<Ref>, 4000, 40000);

PBT_TARGET(visit4_int, quadruple<Int>, 2000, 20000);
PBT_TARGET(visit4_xref, quadruple<XRef>, 2000, 20000);
#endif
}  // namespace
