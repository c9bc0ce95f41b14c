// C17: pf17::optional does what std::optional does, call by call and object by object.
#include "val.hpp"

#include "cetl/pf17/optional.hpp"

#if __cplusplus >= 201703L
#    include <optional>
#endif

namespace
{
namespace ref
{
// The wording of the standard for std::optional, spelled out over an allocated object.
struct nullopt_t
{
    explicit constexpr nullopt_t(int) {}
};
struct in_place_t
{};
struct bad_optional_access
{};
template <typename T>
class optional;
template <typename T>
struct is_opt : std::false_type
{};
template <typename T>
struct is_opt<optional<T>> : std::true_type
{};
template <typename U>
using not_special = std::enable_if_t<!is_opt<std::decay_t<U>>::value && !std::is_same<std::decay_t<U>, nullopt_t>::value &&
                                         !std::is_same<std::decay_t<U>, in_place_t>::value,
                                     int>;
template <typename T>
class optional
{
public:
    T* p = nullptr;
    optional() = default;
    optional(nullopt_t) {}
    optional(const optional& o) { init(o); }
    optional(optional&& o) { init(std::move(o)); }
    template <typename U>
    optional(const optional<U>& o)
    {
        init(o);
    }
    template <typename U>
    optional(optional<U>&& o)
    {
        init(std::move(o));
    }
    template <typename... A>
    explicit optional(in_place_t, A&&... a)
    {
        make(std::forward<A>(a)...);
    }
    template <typename U, typename... A>
    explicit optional(in_place_t, std::initializer_list<U> il, A&&... a)
    {
        make(il, std::forward<A>(a)...);
    }
    template <typename U, not_special<U> = 0>
    optional(U&& u)
    {
        make(std::forward<U>(u));
    }
    ~optional() { reset(); }
    optional& operator=(nullopt_t)
    {
        reset();
        return *this;
    }
    optional& operator=(const optional& o) { return set(o); }
    optional& operator=(optional&& o) { return set(std::move(o)); }
    template <typename U>
    optional& operator=(const optional<U>& o)
    {
        return set(o);
    }
    template <typename U>
    optional& operator=(optional<U>&& o)
    {
        return set(std::move(o));
    }
    template <typename U, not_special<U> = 0>
    optional& operator=(U&& u)
    {
        if (p != nullptr)
        {
            *p = std::forward<U>(u);
        }
        else
        {
            make(std::forward<U>(u));
        }
        return *this;
    }
    template <typename... A>
    T& emplace(A&&... a)
    {
        reset();
        make(std::forward<A>(a)...);
        return *p;
    }
    template <typename U, typename... A>
    T& emplace(std::initializer_list<U> il, A&&... a)
    {
        reset();
        make(il, std::forward<A>(a)...);
        return *p;
    }
    void reset()
    {
        if (p != nullptr)
        {
            p->~T();
            std::free(const_cast<std::remove_const_t<T>*>(p));
            p = nullptr;
        }
    }
    void swap(optional& o)
    {
        using std::swap;
        if (p != nullptr && o.p != nullptr)
        {
            swap(*p, *o.p);
        }
        else if (p != nullptr)
        {
            o.make(std::move(*p));
            reset();
        }
        else if (o.p != nullptr)
        {
            make(std::move(*o.p));
            o.reset();
        }
    }
    bool     has_value() const { return p != nullptr; }
    explicit operator bool() const { return p != nullptr; }
    T&       operator*() & { return *p; }
    const T& operator*() const& { return *p; }
    T&&      operator*() && { return std::move(*p); }
    const T&& operator*() const&& { return std::move(*p); }
    T*       operator->() { return p; }
    const T* operator->() const { return p; }
    T&       value() & { return ensure(), *p; }
    const T& value() const& { return ensure(), *p; }
    T&&      value() && { return ensure(), std::move(*p); }
    const T&& value() const&& { return ensure(), std::move(*p); }
    template <typename U>
    T value_or(U&& u) const&
    {
        return p != nullptr ? *p : static_cast<T>(std::forward<U>(u));
    }
    template <typename U>
    T value_or(U&& u) &&
    {
        return p != nullptr ? std::move(*p) : static_cast<T>(std::forward<U>(u));
    }

private:
    void ensure() const
    {
#if PBT_EXC
        if (p == nullptr)
        {
            throw bad_optional_access{};
        }
#endif
    }
    template <typename... A>
    void make(A&&... a)
    {
        struct Guard
        {
            void* m;
            ~Guard() { std::free(m); }
        } g{std::malloc(sizeof(T))};
        p   = ::new (g.m) T(std::forward<A>(a)...);
        g.m = nullptr;
    }
    template <typename O>
    void init(O&& o)
    {
        if (o.p != nullptr)
        {
            make(*std::forward<O>(o));
        }
    }
    template <typename O>
    optional& set(O&& o)
    {
        if (p != nullptr && o.p != nullptr)
        {
            *p = *std::forward<O>(o);
        }
        else if (o.p != nullptr)
        {
            make(*std::forward<O>(o));
        }
        else
        {
            reset();
        }
        return *this;
    }
};
#define REF_OP(op, empty_empty, empty_full, full_empty)                                                                \
    template <typename T, typename U>                                                                                  \
    bool operator op(const optional<T>& a, const optional<U>& b)                                                       \
    {                                                                                                                  \
        return a.p != nullptr ? (b.p != nullptr ? (*a.p op * b.p) : full_empty) : (b.p != nullptr ? empty_full : empty_empty); \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    bool operator op(const optional<T>& a, nullopt_t)                                                                  \
    {                                                                                                                  \
        return a.p != nullptr ? full_empty : empty_empty;                                                              \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    bool operator op(nullopt_t, const optional<T>& b)                                                                  \
    {                                                                                                                  \
        return b.p != nullptr ? empty_full : empty_empty;                                                              \
    }                                                                                                                  \
    template <typename T, typename U, not_special<U> = 0>                                                              \
    bool operator op(const optional<T>& a, const U& b)                                                                 \
    {                                                                                                                  \
        return a.p != nullptr ? (*a.p op b) : empty_full;                                                              \
    }                                                                                                                  \
    template <typename T, typename U, not_special<U> = 0>                                                              \
    bool operator op(const U& a, const optional<T>& b)                                                                 \
    {                                                                                                                  \
        return b.p != nullptr ? (a op * b.p) : full_empty;                                                             \
    }
REF_OP(==, true, false, false)
REF_OP(!=, false, true, true)
REF_OP(<, false, true, false)
REF_OP(<=, true, true, false)
REF_OP(>, false, false, true)
REF_OP(>=, true, false, true)
template <typename T>
optional<std::decay_t<T>> make_optional(T&& v)
{
    return optional<std::decay_t<T>>(std::forward<T>(v));
}
template <typename T, typename... A>
optional<T> make_optional(A&&... a)
{
    return optional<T>(in_place_t{}, std::forward<A>(a)...);
}
template <typename T, typename U, typename... A>
optional<T> make_optional(std::initializer_list<U> il, A&&... a)
{
    return optional<T>(in_place_t{}, il, std::forward<A>(a)...);
}
}  // namespace ref

#define FAMILY(Name, ns, nullv, inv)                                                                                   \
    struct Name                                                                                                        \
    {                                                                                                                  \
        template <typename T>                                                                                          \
        using opt = ns::optional<T>;                                                                                   \
        static auto none() { return nullv; }                                                                           \
        static auto in() { return inv; }                                                                               \
        PBT_IF_EXC(using bad = ns::bad_optional_access;)                                                               \
        template <typename T, typename... A>                                                                           \
        static auto make(A&&... a)                                                                                     \
        {                                                                                                              \
            return ns::make_optional<T>(std::forward<A>(a)...);                                                        \
        }                                                                                                              \
        template <typename T>                                                                                          \
        static auto make_il(std::initializer_list<int> il, int v, val::Extra e)                                                      \
        {                                                                                                              \
            return ns::make_optional<T>(il, v, e);                                                                        \
        }                                                                                                              \
        template <typename T>                                                                                          \
        static auto make_from(T&& v)                                                                                   \
        {                                                                                                              \
            return ns::make_optional(std::forward<T>(v));                                                              \
        }                                                                                                              \
    };
#if PBT_EXC
#    define PBT_IF_EXC(...) __VA_ARGS__
#else
#    define PBT_IF_EXC(...)
#endif
FAMILY(Cetl, cetl::pf17, cetl::pf17::nullopt, cetl::pf17::in_place)
#if __cplusplus >= 201703L && !defined(NO_STD)
FAMILY(Want, std, std::nullopt, std::in_place)
#else
FAMILY(Want, ref, ref::nullopt_t(0), ref::in_place_t{})
#endif
#ifdef SELF_TEST  // compares the spelled out wording with the standard library
FAMILY(Real, ref, ref::nullopt_t(0), ref::in_place_t{})
#else
using Real = Cetl;
#endif

// ---------------------------------------------------------------------------------------------------------------------

template <typename T>
struct Traits  // class types with the conversions of val.hpp
{
    using U = val::Src;
    template <typename X>
    static std::string show(const X& x)
    {
        return std::to_string(x.get());
    }
    static constexpr bool scalar = false;
};
template <>
struct Traits<int>
{
    using U = short;
    template <typename X>
    static std::string show(const X& x)
    {
        return std::to_string(x);
    }
    static constexpr bool scalar = true;
};
template <>
struct Traits<double>
{
    using U = float;
    template <typename X>
    static std::string show(const X& x)
    {
        return pbt::format("%g", static_cast<double>(x));
    }
    static constexpr bool scalar = true;
};
template <typename X, std::enable_if_t<!std::is_arithmetic<X>::value, int> = 0>
int arg(int v)
{
    return v;
}
template <typename X, std::enable_if_t<std::is_arithmetic<X>::value, int> = 0>
X arg(int v)
{
    if (std::is_floating_point<X>::value && v >= 7)  // unordered and signed zero
    {
        return v == 7 ? static_cast<X>(-0.0) : std::numeric_limits<X>::quiet_NaN();
    }
    return static_cast<X>(v);
}

struct Op
{
    int  kind = 0, form = 0, a = 0, b = 0, v = 0, w = 0;
    long arm = -1;
};

constexpr int N  = 3;
constexpr int NU = 2;

/// One implementation with its slots.
template <typename F, typename T>
struct Side
{
    using Tr   = Traits<T>;
    using U    = typename Tr::U;
    using Opt  = typename F::template opt<T>;
    using OptU = typename F::template opt<U>;
    static constexpr bool cc = std::is_copy_constructible<T>::value;
    static constexpr bool mc = std::is_move_constructible<T>::value;
    static constexpr bool ca = cc && std::is_copy_assignable<T>::value;
    static constexpr bool mut = !std::is_const<T>::value;
    static constexpr bool ma = mc && std::is_move_assignable<T>::value;

    std::unique_ptr<Opt>  o[N];
    std::unique_ptr<OptU> u[NU];
    std::string           out;     // what the operation gave
    bool                  exact = true;  // the number of objects made is prescribed
    const char*           name  = "";

    Side()
    {
        for (auto& x : o)
        {
            x.reset(new Opt());
        }
        for (auto& x : u)
        {
            x.reset(new OptU());
        }
    }
    void say(bool b) { out += b ? "1" : "0"; }
    void say(const std::string& s) { out += s + ","; }

    template <typename... A>
    void rebuild(int i, A&&... a)
    {
        std::unique_ptr<Opt> n(new Opt(std::forward<A>(a)...));
        o[i] = std::move(n);
    }
    bool construct(const Op& p)
    {
        switch (p.form)
        {
        case 0: name = "default"; rebuild(p.a); return true;
        case 1: name = "nullopt"; rebuild(p.a, F::none()); return true;
        case 2: name = "copy"; return val::When<cc>::run([&](const auto& s) { this->rebuild(p.a, s); }, *o[p.b]);
        case 3: name = "move"; return val::When<mc>::run([&](auto& s) { this->rebuild(p.a, std::move(s)); }, *o[p.b]);
        case 4: name = "in_place"; rebuild(p.a, F::in(), arg<T>(p.v)); return true;
        case 5:
            name = "in_place il";
            return val::When<!Tr::scalar>::run([&](auto in) { this->rebuild(p.a, in, std::initializer_list<int>{p.w, 2}, p.v, val::Extra{}); }, F::in());
        case 6: name = "const U&"; return with_u(p, [&](U& s) { rebuild(p.a, static_cast<const U&>(s)); });
        case 7: name = "U&&"; return with_u(p, [&](U& s) { rebuild(p.a, std::move(s)); });
        case 8: name = "const optional<U>&"; rebuild(p.a, static_cast<const OptU&>(*u[p.b % NU])); return true;
        case 9: name = "optional<U>&&"; rebuild(p.a, std::move(*u[p.b % NU])); return true;
        case 10: name = "const T&"; return val::When<cc>::run([&](auto tag) { this->with_t(p, tag, [&](auto& t) { this->rebuild(p.a, static_cast<const T&>(t)); }); }, static_cast<T*>(nullptr));
        case 11: name = "T&&"; return val::When<mc>::run([&](auto tag) { this->with_t(p, tag, [&](auto& t) { this->rebuild(p.a, std::move(t)); }); }, static_cast<T*>(nullptr));
        case 12:
            name  = "make_optional<T>(args)";
            exact = false;  // the optional itself may be moved out of the function
            return val::When<mc && std::is_nothrow_move_constructible<T>::value>::run([&](auto tag) { using X = std::remove_pointer_t<decltype(tag)>; this->rebuild(p.a, F::template make<X>(arg<X>(p.v))); }, static_cast<T*>(nullptr));
        case 13:
            name  = "make_optional<T>(il, args)";
            exact = false;
            return val::When<mc && std::is_nothrow_move_constructible<T>::value && !Tr::scalar>::run(
                [&](auto tag) { using X = std::remove_pointer_t<decltype(tag)>; this->rebuild(p.a, F::template make_il<X>({p.w, 3}, p.v, val::Extra{})); }, static_cast<T*>(nullptr));
        case 14:
            name  = "make_optional(T&&)";
            exact = false;
            return val::When<mc && std::is_nothrow_move_constructible<T>::value>::run(
                [&](auto tag) { this->with_t(p, tag, [&](auto& t) { this->rebuild(p.a, F::make_from(std::move(t))); }); }, static_cast<T*>(nullptr));
        default: return false;
        }
    }
    /// Builds a value outside of the measured part.
    template <typename G>
    bool with_u(const Op& p, G&& g)
    {
        const auto arm  = trk::world().throw_in;
        trk::disarm();
        U          s(arg<U>(p.v));
        val::events().clear();
        trk::world().throw_in = arm;
        struct Report
        {
            Side& me;
            U&    s;
            ~Report() { me.say("arg " + Tr::show(s)); }
        } r{*this, s};
        g(s);
        return true;
    }
    template <typename X, typename G>
    void with_t(const Op& p, X*, G&& g)
    {
        const auto arm  = trk::world().throw_in;
        trk::disarm();
        X          s(arg<X>(p.v));
        val::events().clear();
        trk::world().throw_in = arm;
        struct Report
        {
            Side& me;
            X&    s;
            ~Report() { me.say("arg " + Tr::show(s)); }
        } r{*this, s};
        g(s);
    }
    bool assign(const Op& p)
    {
        Opt& d = *o[p.a];
        switch (p.form)
        {
        case 0: name = "= nullopt"; check_ref(d = F::none(), d); return true;
        case 1: name = "= copy"; return val::When<ca>::run([&](auto& x, const auto& s) { this->check_ref(x = s, x); }, d, *o[p.b]);
        case 2:
            name = "= move";
            if (p.a == p.b)
            {
                return false;
            }
            return val::When<ma>::run([&](auto& x, auto& s) { this->check_ref(x = std::move(s), x); }, d, *o[p.b]);
        case 3: name = "= const U&"; return val::When<mut>::run([&](auto& x) { this->with_u(p, [&](U& s) { this->check_ref(x = static_cast<const U&>(s), x); }); }, d);
        case 4: name = "= U&&"; return val::When<mut>::run([&](auto& x) { this->with_u(p, [&](U& s) { this->check_ref(x = std::move(s), x); }); }, d);
        case 5: name = "= const optional<U>&"; return val::When<mut>::run([&](auto& x) { this->check_ref(x = static_cast<const OptU&>(*u[p.b % NU]), x); }, d);
        case 6: name = "= optional<U>&&"; return val::When<mut>::run([&](auto& x) { this->check_ref(x = std::move(*u[p.b % NU]), x); }, d);
        case 7: name = "= const T&"; return val::When<ca>::run([&](auto& x, auto tag) { this->with_t(p, tag, [&](auto& t) { this->check_ref(x = static_cast<const T&>(t), x); }); }, d, static_cast<T*>(nullptr));
        case 8: name = "= T&&"; return val::When<ma>::run([&](auto& x, auto tag) { this->with_t(p, tag, [&](auto& t) { this->check_ref(x = std::move(t), x); }); }, d, static_cast<T*>(nullptr));
        case 9: name = "= {}"; return val::When<ma && !Tr::scalar>::run([&](auto& x) { x = {}; this->say(true); }, d);
        case 10: name = "= own value"; return val::When<ca>::run([&](auto& x) { if (x.has_value()) { this->check_ref(x = static_cast<const T&>(*x), x); } }, d);
        default: return false;
        }
    }
    void check_ref(Opt& got, Opt& want) { say(&got == &want); }

    bool change(const Op& p)
    {
        Opt& d = *o[p.a];
        switch (p.form)
        {
        case 0: name = "reset"; d.reset(); return true;
        case 1: { name = "emplace"; T& r = d.emplace(arg<T>(p.v)); say(&r == &*d); return true; }
        case 2: name = "emplace il"; return val::When<!Tr::scalar>::run([&](auto& x) { T& r = x.emplace({p.w, 4}, p.v, val::Extra{}); this->say(&r == &*x); }, d);
        case 3: name = "emplace()"; { T& r = d.emplace(); say(&r == &*d); return true; }
        case 4: name = "emplace(const U&)"; return with_u(p, [&](U& s) { T& r = d.emplace(static_cast<const U&>(s)); say(&r == &*d); });
        case 5: name = "emplace(U&&)"; return with_u(p, [&](U& s) { T& r = d.emplace(std::move(s)); say(&r == &*d); });
        case 6: name = "swap"; return val::When<mc && cetl::pf17::is_swappable_v<T>>::run([&](auto& x, auto& y) { x.swap(y); }, d, *o[p.b]);
        case 7:
            name  = "swap (free)";
            exact = false;
            trk::disarm();
            if (p.a == p.b)
            {
                return false;
            }
            return val::When<ma && cetl::pf17::is_swappable_v<T>>::run([&](auto& x, auto& y) { using std::swap; swap(x, y); }, d, *o[p.b]);
        case 8: name = "U emplace"; u[p.b % NU]->emplace(arg<U>(p.v)); return true;
        case 9: name = "U reset"; u[p.b % NU]->reset(); return true;
        case 10: name = "write through *"; return val::When<std::is_assignable<T&, U>::value>::run([&](auto& x) { if (x.has_value()) { this->with_u(p, [&](U& s) { *x = static_cast<const U&>(s); }); } }, d);
        default: return false;
        }
    }
    template <typename G>
    void access(G&& g)
    {
#if PBT_EXC
        try
        {
            g();
        } catch (const typename F::bad&)
        {
            say("bad_optional_access");
        }
#else
        g();
#endif
    }
    /// Reads through every accessor; nothing may be made or moved.
    bool observe(const Op& p)
    {
        name = "observers";
        Opt&       d = *o[p.a];
        const Opt& k = d;
        say(d.has_value());
        say(static_cast<bool>(k));
        if (d.has_value())
        {
            T* const q = &*d;
            say(&*k == q && d.operator->() == q && k.operator->() == q);
            T&&       r  = *std::move(d);
            const T&& kr = *std::move(k);
            say(&r == q && &kr == q);
            say(Tr::show(r));
        }
        if (d.has_value() || PBT_EXC)
        {
            access([&] { T& r = d.value(); say(&r == &*d); });
            access([&] { const T& r = k.value(); say(&r == &*k); });
            access([&] { T&& r = std::move(d).value(); say(&r == &*d); });
            access([&] { const T&& r = std::move(k).value(); say(&r == &*k); });
        }
        return true;
    }
    bool take(const Op& p)
    {
        Opt& d = *o[p.a];
        exact  = false;
        switch (p.form)
        {
        case 0:
            name = "value_or const&";
            return val::When<cc && std::is_nothrow_move_constructible<T>::value>::run([&](const auto& x, auto tag) {
                this->with_t(p, tag, [&](auto& t) { this->say(Tr::show(T(x.value_or(t)))); }); }, d, static_cast<T*>(nullptr));
        case 1:
            name = "value_or const& from U";
            return val::When<cc && std::is_nothrow_move_constructible<T>::value>::run([&](const auto& x) { this->with_u(p, [&](U& s) { this->say(Tr::show(T(x.value_or(static_cast<const U&>(s))))); }); }, d);
        case 2:
            name = "value_or &&";
            return val::When<mc && std::is_nothrow_move_constructible<T>::value>::run([&](auto& x, auto tag) {
                this->with_t(p, tag, [&](auto& t) { this->say(Tr::show(T(std::move(x).value_or(std::move(t))))); }); }, d, static_cast<T*>(nullptr));
        case 3:
            name = "value_or && from U";
            return val::When<mc && std::is_nothrow_move_constructible<T>::value>::run([&](auto& x) { this->with_u(p, [&](U& s) { this->say(Tr::show(T(std::move(x).value_or(std::move(s))))); }); }, d);
        case 4:
            name  = "move out of *";
            exact = true;
            return val::When<mc>::run([&](auto& x) { if (x.has_value()) { T t(*std::move(x)); this->say(Tr::show(t)); } }, d);
        case 5:
            name  = "copy out of const value()";
            exact = true;
            return val::When<cc>::run([&](const auto& x) { if (x.has_value()) { T t(x.value()); this->say(Tr::show(t)); } }, d);
        default: return false;
        }
    }
    template <typename A, typename B>
    void six(const A& a, const B& b)
    {
        say(a == b);
        say(a != b);
        say(a < b);
        say(a <= b);
        say(a > b);
        say(a >= b);
        out += ' ';
    }
    bool compare(const Op& p)
    {
        const Opt& d = *o[p.a];
        switch (p.form)
        {
        case 0: name = "compare optionals"; six(d, *o[p.b]); return true;
        case 1: name = "compare with optional<U>"; six(d, *u[p.b % NU]); six(*u[p.b % NU], d); return true;
        case 2: name = "compare with nullopt"; six(d, F::none()); six(F::none(), d); return true;
        case 3: name = "compare with U"; return with_u(p, [&](U& s) { six(d, s); six(s, d); });
        case 4: name = "compare with T"; with_t(p, static_cast<T*>(nullptr), [&](auto& s) { six(d, s); six(s, d); }); return true;
        default: return false;
        }
    }
    bool run(const Op& p)
    {
        out.clear();
        exact = true;
        val::events().clear();
        trk::arm(p.arm);
        bool ran = false;
        const trk::Res r = trk::attempt([&] {
            switch (p.kind)
            {
            case 0: ran = true; ran = construct(p); break;
            case 1: ran = true; ran = assign(p); break;
            case 2: ran = true; ran = change(p); break;
            case 3: ran = true; ran = observe(p); break;
            case 4: ran = true; ran = take(p); break;
            default: ran = true; ran = compare(p); break;
            }
        });
        trk::disarm();
        say(std::string(trk::name(r)));
        return ran;
    }
    std::string state() const
    {
        std::string s;
        for (auto& x : o)
        {
            s += (x->has_value() ? Tr::show(**x) : std::string("-")) + " ";
        }
        s += "| ";
        for (auto& x : u)
        {
            s += (x->has_value() ? Tr::show(**x) : std::string("-")) + " ";
        }
        return s;
    }
};

template <typename T>
void history(pbt::Case& c)
{
    trk::reset_world();
    int done = 0, engaged = 0, thrown = 0;
    {
        Side<Real, T> got;
        Side<Want, T> want;
        std::size_t   n     = 0;
        const bool    fault = PBT_EXC && c.boolean();
        while (c.more(n, 12, c.thorough() ? 60 : 30))
        {
            Op p;
            p.kind = static_cast<int>(c.weighted({6, 6, 6, 1, 2, 3}));
            static const int forms[] = {15, 11, 11, 1, 6, 5};
            p.form = static_cast<int>(c.below(static_cast<std::uint64_t>(forms[p.kind])));
            p.a    = static_cast<int>(c.below(N));
            p.b    = static_cast<int>(c.below(N));
            p.v    = static_cast<int>(c.below(10));
            p.w    = static_cast<int>(c.below(4));
            if (fault && c.chance(1, 3))
            {
                p.arm = static_cast<long>(c.below(3));
            }
            const auto        live0 = trk::world().live;
            const bool        ran   = got.run(p);
            const auto        live1 = trk::world().live;
            const std::string ev    = val::events();
            const bool        threw = trk::world().thrown;
            if (!ran)
            {
                continue;
            }
            want.run(p);
            const auto        live2 = trk::world().live;
            const std::string ew    = val::events();
            c.log("%s o%d (o%d) v=%d%s -> %s state %s", got.name, p.a, p.b, p.v, p.arm >= 0 ? pbt::format(" throw at %ld", p.arm).c_str() : "",
                  got.out.c_str(), got.state().c_str());
            PBT_CHECK(got.out == want.out, "%s gave %s, expected %s (objects: %s, expected: %s)", got.name, got.out.c_str(), want.out.c_str(), ev.c_str(), ew.c_str());
            PBT_CHECK(got.state() == want.state(), "after %s: %s, expected %s", got.name, got.state().c_str(), want.state().c_str());
            PBT_CHECK(live1 - live0 == live2 - live1, "%s: %d objects more alive, expected %d", got.name, static_cast<int>(live1 - live0), static_cast<int>(live2 - live1));
            PBT_CHECK(!got.exact || ev == ew, "%s did [%s] to the contained objects, expected [%s]", got.name, ev.c_str(), ew.c_str());
            ++done;
            engaged += got.o[p.a]->has_value() ? 1 : 0;
            thrown += threw ? 1 : 0;
        }
    }
    PBT_CHECK(trk::world().live == 0, "%d objects left", static_cast<int>(trk::world().live));
    if (thrown > 0)
    {
        c.label("exception injected");
    }
    if (done >= 3 && engaged >= 1)
    {
        c.nontrivial();
    }
}
#if PART == 1
PBT_TARGET(opt_int, history<int>, 1500, 20000);
PBT_TARGET(opt_double, history<double>, 3000, 40000);
PBT_TARGET(opt_full, history<val::Full>, 2000, 30000);
PBT_TARGET(opt_allthrow, history<val::AllThrow>, 2000, 30000);
PBT_TARGET(opt_neverthrow, history<val::NeverThrow>, 1000, 20000);
PBT_TARGET(opt_moveonly, history<val::MoveOnly>, 1500, 20000);
PBT_TARGET(opt_moveonlythrow, history<val::MoveOnlyThrow>, 1500, 20000);
PBT_TARGET(opt_copyonly, history<val::CopyOnly>, 1500, 20000);
PBT_TARGET(opt_noassign, history<val::NoAssign>, 1500, 20000);
PBT_TARGET(opt_pinned, history<val::Pinned>, 1500, 20000);
#elif PART == 2
PBT_TARGET(opt_swappy, history<val::Swappy>, 1500, 20000);
PBT_TARGET(opt_mixa, history<val::MixA>, 1500, 20000);
PBT_TARGET(opt_mixb, history<val::MixB>, 1500, 20000);
PBT_TARGET(opt_odd, history<val::Odd>, 3000, 40000);
PBT_TARGET(opt_flatthrow, history<val::FlatThrow>, 1500, 20000);
PBT_TARGET(opt_flatcopytrivial, history<val::FlatCopyTrivial>, 1500, 20000);
PBT_TARGET(opt_flatassigntrivial, history<val::FlatAssignTrivial>, 1500, 20000);
PBT_TARGET(opt_flatmovetrivial, history<val::FlatMoveTrivial>, 1500, 20000);
PBT_TARGET(opt_flatmoveonly, history<val::FlatMoveOnly>, 1500, 20000);
PBT_TARGET(opt_flattrivial, history<val::FlatTrivial>, 1000, 20000);
#else
PBT_TARGET(opt_const_full, history<const val::Full>, 1500, 20000);
PBT_TARGET(opt_const_flat, history<const val::FlatThrow>, 1500, 20000);
#endif
}  // namespace
