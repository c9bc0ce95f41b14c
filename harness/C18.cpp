// C18: pf17::variant does what std::variant does, call by call and object by object.
#include "val.hpp"

#include "cetl/pf17/variant.hpp"

#if __cplusplus >= 201703L
#    include <variant>
#endif

namespace
{
template <typename F, std::size_t... I>
void dispatch_impl(std::size_t n, F&& f, std::index_sequence<I...>)
{
    using sw = int[];
    (void) sw{0, (n == I ? (f(std::integral_constant<std::size_t, I>{}), 0) : 0)...};
}
/// Calls f with n as a constant; nothing happens when n is not below Count.
template <std::size_t Count, typename F>
void dispatch(std::size_t n, F&& f)
{
    dispatch_impl(n, std::forward<F>(f), std::make_index_sequence<Count>{});
}
template <bool... B>
struct All : std::is_same<std::integer_sequence<bool, true, B...>, std::integer_sequence<bool, B..., true>>
{};
template <typename T, typename... Ts>
struct Index;
template <typename T>
struct Index<T> : std::integral_constant<std::size_t, 0>
{};
template <typename T, typename H, typename... Ts>
struct Index<T, H, Ts...> : std::integral_constant<std::size_t, std::is_same<T, H>::value ? 0 : 1 + Index<T, Ts...>::value>
{};
template <typename T, typename... Ts>
struct Count;
template <typename T>
struct Count<T> : std::integral_constant<std::size_t, 0>
{};
template <typename T, typename H, typename... Ts>
struct Count<T, H, Ts...> : std::integral_constant<std::size_t, (std::is_same<T, H>::value ? 1 : 0) + Count<T, Ts...>::value>
{};
/// The alternative the conversions of the generated histories select: the type itself, or for Src the only class type.
template <typename U, typename... Ts>
struct Target : Index<U, Ts...>
{};
template <typename T>
struct Scalar : std::is_arithmetic<T>
{};
template <>
struct Scalar<cetl::pf17::monostate> : std::true_type
{};
#if __cplusplus >= 201703L
template <>
struct Scalar<std::monostate> : std::true_type
{};
#endif
template <>
struct Target<val::Src> : std::integral_constant<std::size_t, 0>
{};
template <typename H, typename... Ts>
struct Target<val::Src, H, Ts...> : std::integral_constant<std::size_t, !Scalar<H>::value ? 0 : 1 + Target<val::Src, Ts...>::value>
{};

namespace ref
{
// The wording of the standard for std::variant, spelled out over an allocated object.
template <std::size_t I>
struct in_place_index_t
{};
template <typename T>
struct in_place_type_t
{};
template <typename T>
struct special : std::false_type
{};
template <std::size_t I>
struct special<in_place_index_t<I>> : std::true_type
{};
template <typename T>
struct special<in_place_type_t<T>> : std::true_type
{};
struct bad_variant_access
{};
using monostate = cetl::pf17::monostate;
constexpr std::size_t npos = static_cast<std::size_t>(-1);

template <typename... Ts>
class variant
{
public:
    template <std::size_t I>
    using nth = std::tuple_element_t<I, std::tuple<Ts...>>;
    static constexpr std::size_t count = sizeof...(Ts);
    std::size_t ix = npos;
    void*       p  = nullptr;

    variant() { make<0>(); }
    variant(const variant& o)
    {
        dispatch<count>(o.ix, [&](auto i) { this->template make<i.value>(o.template at<i.value>()); });
    }
    variant(variant&& o)
    {
        dispatch<count>(o.ix, [&](auto i) { this->template make<i.value>(std::move(o.template at<i.value>())); });
    }
    template <std::size_t I, typename... A>
    explicit variant(in_place_index_t<I>, A&&... a)
    {
        make<I>(std::forward<A>(a)...);
    }
    template <typename T, typename... A>
    explicit variant(in_place_type_t<T>, A&&... a)
    {
        make<Index<T, Ts...>::value>(std::forward<A>(a)...);
    }
    template <typename U, std::enable_if_t<!std::is_same<std::decay_t<U>, variant>::value && !special<std::decay_t<U>>::value, int> = 0>
    variant(U&& u)
    {
        make<Target<std::decay_t<U>, Ts...>::value>(std::forward<U>(u));
    }
    ~variant() { drop(); }
    variant& operator=(const variant& o)
    {
        if (o.ix == npos)
        {
            drop();
            return *this;
        }
        if (ix == o.ix)
        {
            dispatch<count>(ix, [&](auto i) { this->template at<i.value>() = o.template at<i.value>(); });
            return *this;
        }
        dispatch<count>(o.ix, [&](auto i) {
            using T = nth<i.value>;
            if (std::is_nothrow_copy_constructible<T>::value || !std::is_nothrow_move_constructible<T>::value)
            {
                this->template emplace<i.value>(o.template at<i.value>());
            }
            else
            {
                this->operator=(variant(o));
            }
        });
        return *this;
    }
    variant& operator=(variant&& o)
    {
        if (o.ix == npos)
        {
            drop();
            return *this;
        }
        if (ix == o.ix)
        {
            dispatch<count>(ix, [&](auto i) { this->template at<i.value>() = std::move(o.template at<i.value>()); });
            return *this;
        }
        dispatch<count>(o.ix, [&](auto i) { this->template emplace<i.value>(std::move(o.template at<i.value>())); });
        return *this;
    }
    template <typename U, std::enable_if_t<!std::is_same<std::decay_t<U>, variant>::value, int> = 0>
    variant& operator=(U&& u)
    {
        constexpr std::size_t J = Target<std::decay_t<U>, Ts...>::value;
        using T                 = nth<J>;
        if (ix == J)
        {
            at<J>() = std::forward<U>(u);
        }
        else if (std::is_nothrow_constructible<T, U>::value || !std::is_nothrow_move_constructible<T>::value)
        {
            emplace<J>(std::forward<U>(u));
        }
        else
        {
            val::When<std::is_move_constructible<T>::value>::run([&](auto j, auto&& x) { this->template emplace<j.value>(T(std::forward<decltype(x)>(x))); },
                std::integral_constant<std::size_t, J>{}, std::forward<U>(u));
        }
        return *this;
    }
    template <std::size_t I, typename... A>
    nth<I>& emplace(A&&... a)
    {
        drop();
        make<I>(std::forward<A>(a)...);
        return at<I>();
    }
    template <std::size_t I, typename U, typename... A>
    nth<I>& emplace(std::initializer_list<U> il, A&&... a)
    {
        drop();
        make<I>(il, std::forward<A>(a)...);
        return at<I>();
    }
    template <typename T, typename... A>
    T& emplace(A&&... a)
    {
        return emplace<Index<T, Ts...>::value>(std::forward<A>(a)...);
    }
    template <typename T, typename U, typename... A>
    T& emplace(std::initializer_list<U> il, A&&... a)
    {
        return emplace<Index<T, Ts...>::value>(il, std::forward<A>(a)...);
    }
    void swap(variant& o)
    {
        if (ix == npos && o.ix == npos)
        {
            return;
        }
        if (ix == o.ix)
        {
            dispatch<count>(ix, [&](auto i) {
                using std::swap;
                swap(this->template at<i.value>(), o.template at<i.value>());
            });
            return;
        }
        variant t(std::move(*this));
        *this = std::move(o);
        o     = std::move(t);
    }
    std::size_t index() const { return ix; }
    bool        valueless_by_exception() const { return ix == npos; }
    template <std::size_t I>
    nth<I>& at()
    {
        return *static_cast<nth<I>*>(p);
    }
    template <std::size_t I>
    const nth<I>& at() const
    {
        return *static_cast<const nth<I>*>(p);
    }

private:
    template <std::size_t I, typename... A>
    void make(A&&... a)
    {
        struct Guard
        {
            void* m;
            ~Guard() { std::free(m); }
        } g{std::malloc(sizeof(nth<I>))};
        ::new (g.m) nth<I>(std::forward<A>(a)...);
        p   = g.m;
        g.m = nullptr;
        ix  = I;
    }
    void drop()
    {
        dispatch<count>(ix, [&](auto i) {
            using T = nth<i.value>;
            static_cast<T*>(p)->~T();
            std::free(p);
        });
        ix = npos;
        p  = nullptr;
    }
};
#define REF_OP(op, none_none, none_full, full_none)                                                                    \
    template <typename... Ts>                                                                                          \
    bool operator op(const variant<Ts...>& a, const variant<Ts...>& b)                                                 \
    {                                                                                                                  \
        if (a.ix == npos || b.ix == npos)                                                                              \
        {                                                                                                              \
            return a.ix == b.ix ? none_none : (a.ix == npos ? none_full : full_none);                                  \
        }                                                                                                              \
        if (a.ix != b.ix)                                                                                              \
        {                                                                                                              \
            return a.ix op b.ix;                                                                                       \
        }                                                                                                              \
        bool r = false;                                                                                                \
        dispatch<sizeof...(Ts)>(a.ix, [&](auto i) { r = a.template at<i.value>() op b.template at<i.value>(); });      \
        return r;                                                                                                      \
    }
REF_OP(==, true, false, false)
REF_OP(!=, false, true, true)
REF_OP(<, false, true, false)
REF_OP(<=, true, true, false)
REF_OP(>, false, false, true)
REF_OP(>=, true, false, true)
template <std::size_t I, typename... Ts>
auto get_if(variant<Ts...>* v)
{
    return v != nullptr && v->ix == I ? &v->template at<I>() : nullptr;
}
template <std::size_t I, typename... Ts>
auto get_if(const variant<Ts...>* v)
{
    return v != nullptr && v->ix == I ? &v->template at<I>() : nullptr;
}
inline void ensure(bool b)
{
#if PBT_EXC
    if (!b)
    {
        throw bad_variant_access{};
    }
#else
    (void) b;
#endif
}
template <std::size_t I, typename... Ts>
decltype(auto) get(variant<Ts...>& v)
{
    ensure(v.ix == I);
    return v.template at<I>();
}
template <std::size_t I, typename... Ts>
decltype(auto) get(const variant<Ts...>& v)
{
    ensure(v.ix == I);
    return v.template at<I>();
}
template <std::size_t I, typename... Ts>
decltype(auto) get(variant<Ts...>&& v)
{
    ensure(v.ix == I);
    return std::move(v.template at<I>());
}
template <std::size_t I, typename... Ts>
decltype(auto) get(const variant<Ts...>&& v)
{
    ensure(v.ix == I);
    return std::move(v.template at<I>());
}
template <typename T, typename... Ts>
auto get_if(variant<Ts...>* v)
{
    return get_if<Index<T, Ts...>::value>(v);
}
template <typename T, typename... Ts>
auto get_if(const variant<Ts...>* v)
{
    return get_if<Index<T, Ts...>::value>(v);
}
template <typename T, typename V>
decltype(auto) get_type(V&& v);
template <typename T, typename... Ts>
decltype(auto) get(variant<Ts...>& v)
{
    return get<Index<T, Ts...>::value>(v);
}
template <typename T, typename... Ts>
decltype(auto) get(const variant<Ts...>& v)
{
    return get<Index<T, Ts...>::value>(v);
}
template <typename T, typename... Ts>
decltype(auto) get(variant<Ts...>&& v)
{
    return get<Index<T, Ts...>::value>(std::move(v));
}
template <typename T, typename... Ts>
decltype(auto) get(const variant<Ts...>&& v)
{
    return get<Index<T, Ts...>::value>(std::move(v));
}
template <typename T, typename... Ts>
bool holds_alternative(const variant<Ts...>& v)
{
    return v.ix == Index<T, Ts...>::value;
}
}  // namespace ref

#if PBT_EXC
#    define PBT_IF_EXC(...) __VA_ARGS__
#else
#    define PBT_IF_EXC(...)
#endif
#define FAMILY(Name, ns)                                                                                               \
    struct Name                                                                                                        \
    {                                                                                                                  \
        template <typename... Ts>                                                                                      \
        using var = ns::variant<Ts...>;                                                                                \
        template <std::size_t I>                                                                                       \
        using inx = ns::in_place_index_t<I>;                                                                           \
        template <typename T>                                                                                          \
        using inty = ns::in_place_type_t<T>;                                                                           \
        using mono = ns::monostate;                                                                                    \
        PBT_IF_EXC(using bad = ns::bad_variant_access;)                                                                \
        template <std::size_t I, typename V>                                                                           \
        static decltype(auto) get(V&& v)                                                                               \
        {                                                                                                              \
            return ns::get<I>(std::forward<V>(v));                                                                     \
        }                                                                                                              \
        template <typename T, typename V>                                                                              \
        static decltype(auto) getty(V&& v)                                                                             \
        {                                                                                                              \
            return ns::get<T>(std::forward<V>(v));                                                                     \
        }                                                                                                              \
        template <std::size_t I, typename V>                                                                           \
        static auto get_if(V* v)                                                                                       \
        {                                                                                                              \
            return ns::get_if<I>(v);                                                                                   \
        }                                                                                                              \
        template <typename T, typename V>                                                                              \
        static auto get_ifty(V* v)                                                                                     \
        {                                                                                                              \
            return ns::get_if<T>(v);                                                                                   \
        }                                                                                                              \
        template <typename T, typename V>                                                                              \
        static bool holds(const V& v)                                                                                  \
        {                                                                                                              \
            return ns::holds_alternative<T>(v);                                                                        \
        }                                                                                                              \
    };
FAMILY(Cetl, cetl::pf17)
FAMILY(Spelled, ref)
#ifdef SELF_TEST  // compares the spelled out wording with the standard library
FAMILY(Std, std)
using Real = Spelled;
using Want = Std;
#else
using Real = Cetl;
using Want = Spelled;
#endif

// ---------------------------------------------------------------------------------------------------------------------

template <typename X, std::enable_if_t<!Scalar<X>::value, int> = 0>
std::string show(const X& x)
{
    return std::to_string(x.get());
}
template <typename X, std::enable_if_t<std::is_arithmetic<X>::value, int> = 0>
std::string show(const X& x)
{
    return pbt::format("%g", static_cast<double>(x));
}
template <typename X, std::enable_if_t<Scalar<X>::value && !std::is_arithmetic<X>::value, int> = 0>
std::string show(const X&)
{
    return "mono";
}
template <typename X, std::enable_if_t<!Scalar<X>::value, int> = 0>
int arg(int v)
{
    return v;
}
template <typename X, std::enable_if_t<std::is_arithmetic<X>::value, int> = 0>
X arg(int v)
{
    if (std::is_floating_point<X>::value && v >= 7)
    {
        return v == 7 ? static_cast<X>(-0.0) : std::numeric_limits<X>::quiet_NaN();
    }
    return static_cast<X>(v);
}
template <typename X, std::enable_if_t<Scalar<X>::value && !std::is_arithmetic<X>::value, int> = 0>
X arg(int)
{
    return {};
}

struct Op
{
    int  kind = 0, form = 0, a = 0, b = 0, i = 0, v = 0, w = 0;
    long arm = -1;
};
struct Mono
{};
template <typename F, typename T>
using Sub = std::conditional_t<std::is_same<T, Mono>::value, typename F::mono, T>;

constexpr int N = 3;

/// SrcOk: the list has exactly one class type, so Src converts to it.
template <typename F, bool SrcOk, typename... Ts>
struct Side
{
    using Var                      = typename F::template var<Ts...>;
    static constexpr std::size_t K = sizeof...(Ts);
    template <std::size_t I>
    using nth                = std::tuple_element_t<I, std::tuple<Ts...>>;
    static constexpr bool cc = All<std::is_copy_constructible<Ts>::value...>::value;
    static constexpr bool mc = All<std::is_move_constructible<Ts>::value...>::value;
    static constexpr bool ca = cc && All<std::is_copy_assignable<Ts>::value...>::value;
    static constexpr bool ma = mc && All<std::is_move_assignable<Ts>::value...>::value;
    static constexpr bool sw = mc && ma && All<cetl::pf17::is_swappable_v<Ts>...>::value;
    template <std::size_t I>
    static constexpr bool unique = Count<nth<I>, Ts...>::value == 1;

    std::unique_ptr<Var> o[N];
    std::string          out;
    const char*          name  = "";
    bool                 exact = true;
    bool                 loose = false;  // the state after an exception is not prescribed

    Side()
    {
        for (auto& x : o)
        {
            x.reset(new Var(typename F::template inx<0>{}, arg<nth<0>>(0)));
        }
    }
    void say(bool b) { out += b ? "1" : "0"; }
    void say(const std::string& s) { out += s + ","; }

    template <typename... A>
    void rebuild(int i, A&&... a)
    {
        std::unique_ptr<Var> n(new Var(std::forward<A>(a)...));
        o[i] = std::move(n);
    }
    /// Builds a value outside of the measured part.
    template <typename X, typename G>
    bool with(const Op& p, G&& g)
    {
        const auto arm = trk::world().throw_in;
        trk::disarm();
        X s(arg<X>(p.v));
        val::events().clear();
        trk::world().throw_in = arm;
        struct Report
        {
            Side& me;
            X&    s;
            ~Report() { me.say("arg " + show(s)); }
        } r{*this, s};
        g(s);
        return true;
    }
    bool construct(const Op& p)
    {
        bool ran = false;
        switch (p.form)
        {
        case 0: name = "default"; rebuild(p.a); return true;
        case 1: name = "copy"; return val::When<cc>::run([&](const auto& s) { this->rebuild(p.a, s); }, *o[p.b]);
        case 2: name = "move"; return val::When<mc>::run([&](auto& s) { this->rebuild(p.a, std::move(s)); }, *o[p.b]);
        case 3:
            name = "in_place_index";
            dispatch<K>(p.i, [&](auto i) { ran = true; this->rebuild(p.a, typename F::template inx<i.value>{}, arg<nth<i.value>>(p.v)); });
            return ran;
        case 4:
            name = "in_place_type";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<unique<i.value>>::run([&](auto j) { this->rebuild(p.a, typename F::template inty<nth<j.value>>{}, arg<nth<j.value>>(p.v)); }, i);
            });
            return ran;
        case 5:
            name = "in_place_index il";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<!Scalar<nth<i.value>>::value>::run(
                    [&](auto j) { this->rebuild(p.a, typename F::template inx<j.value>{}, std::initializer_list<int>{p.w, 2}, p.v, val::Extra{}); }, i);
            });
            return ran;
        case 6:
            name = "in_place_type il";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<!Scalar<nth<i.value>>::value && unique<i.value>>::run(
                    [&](auto j) { this->rebuild(p.a, typename F::template inty<nth<j.value>>{}, std::initializer_list<int>{p.w, 2}, p.v, val::Extra{}); }, i);
            });
            return ran;
        case 7:
            name = "const T&";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<unique<i.value> && !std::is_const<nth<i.value>>::value && std::is_copy_constructible<nth<i.value>>::value>::run(
                    [&](auto j) { using X = nth<j.value>; this->template with<X>(p, [&](X& s) { this->rebuild(p.a, static_cast<const X&>(s)); }); }, i);
            });
            return ran;
        case 8:
            name = "T&&";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<unique<i.value> && !std::is_const<nth<i.value>>::value && std::is_move_constructible<nth<i.value>>::value>::run(
                    [&](auto j) { using X = nth<j.value>; this->template with<X>(p, [&](X& s) { this->rebuild(p.a, std::move(s)); }); }, i);
            });
            return ran;
        case 9:
            name = "const Src&";
            return val::When<SrcOk>::run([&](auto tag) { using X = std::remove_pointer_t<decltype(tag)>; this->template with<X>(p, [&](X& s) { this->rebuild(p.a, static_cast<const X&>(s)); }); },
                                         static_cast<val::Src*>(nullptr));
        case 10:
            name = "Src&&";
            return val::When<SrcOk>::run([&](auto tag) { using X = std::remove_pointer_t<decltype(tag)>; this->template with<X>(p, [&](X& s) { this->rebuild(p.a, std::move(s)); }); },
                                         static_cast<val::Src*>(nullptr));
        default: return false;
        }
    }
    bool assign(const Op& p)
    {
        Var& d   = *o[p.a];
        bool ran = false;
        switch (p.form)
        {
        case 0: name = "= copy"; return val::When<ca>::run([&](auto& x, const auto& s) { this->say(&(x = s) == &x); }, d, *o[p.b]);
        case 1:
            name = "= move";
            if (p.a == p.b)
            {
                return false;
            }
            return val::When<ma>::run([&](auto& x, auto& s) { this->say(&(x = std::move(s)) == &x); }, d, *o[p.b]);
        case 2:
            name = "= const T&";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<unique<i.value> && std::is_copy_constructible<nth<i.value>>::value && std::is_copy_assignable<nth<i.value>>::value>::run(
                    [&](auto j, auto& x) { using X = nth<j.value>; this->template with<X>(p, [&](X& s) { this->say(&(x = static_cast<const X&>(s)) == &x); }); }, i, d);
            });
            return ran;
        case 3:
            name = "= T&&";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<unique<i.value> && std::is_move_constructible<nth<i.value>>::value && std::is_move_assignable<nth<i.value>>::value>::run(
                    [&](auto j, auto& x) { using X = nth<j.value>; this->template with<X>(p, [&](X& s) { this->say(&(x = std::move(s)) == &x); }); }, i, d);
            });
            return ran;
        case 4:
            name = "= const Src&";
            return val::When<SrcOk>::run([&](auto tag, auto& x) { using X = std::remove_pointer_t<decltype(tag)>; this->template with<X>(p, [&](X& s) { this->say(&(x = static_cast<const X&>(s)) == &x); }); },
                                         static_cast<val::Src*>(nullptr), d);
        case 5:
            name = "= Src&&";
            return val::When<SrcOk>::run([&](auto tag, auto& x) { using X = std::remove_pointer_t<decltype(tag)>; this->template with<X>(p, [&](X& s) { this->say(&(x = std::move(s)) == &x); }); },
                                         static_cast<val::Src*>(nullptr), d);
        default: return false;
        }
    }
    bool change(const Op& p)
    {
        Var& d   = *o[p.a];
        bool ran = false;
        switch (p.form)
        {
        case 0:
            name = "emplace<I>";
            dispatch<K>(p.i, [&](auto i) { ran = true; auto& r = d.template emplace<i.value>(arg<nth<i.value>>(p.v)); this->say(&r == F::template get_if<i.value>(&d)); });
            return ran;
        case 1:
            name = "emplace<T>";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<unique<i.value>>::run([&](auto j, auto& x) { using X = nth<j.value>; X& r = x.template emplace<X>(arg<X>(p.v)); this->say(&r == F::template get_if<j.value>(&x)); }, i, d);
            });
            return ran;
        case 2:
            name = "emplace<I>(il, args)";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<!Scalar<nth<i.value>>::value>::run([&](auto j, auto& x) { auto& r = x.template emplace<j.value>({p.w, 5}, p.v, val::Extra{}); this->say(&r == F::template get_if<j.value>(&x)); }, i, d);
            });
            return ran;
        case 3:
            name = "emplace<T>(il, args)";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<!Scalar<nth<i.value>>::value && unique<i.value>>::run(
                    [&](auto j, auto& x) { using X = nth<j.value>; X& r = x.template emplace<X>({p.w, 5}, p.v, val::Extra{}); this->say(&r == F::template get_if<j.value>(&x)); }, i, d);
            });
            return ran;
        case 4:
            name = "emplace<I>()";
            dispatch<K>(p.i, [&](auto i) { ran = true; auto& r = d.template emplace<i.value>(); this->say(&r == F::template get_if<i.value>(&d)); });
            return ran;
        case 5:
            name = "swap";
            if (o[p.a]->index() != o[p.b]->index())
            {
                exact = false;
                loose = true;
            }
            return val::When<sw>::run([&](auto& x, auto& y) { x.swap(y); }, d, *o[p.b]);
        case 6:
            name  = "swap (free)";
            exact = false;
            trk::disarm();
            if (p.a == p.b)
            {
                return false;
            }
            return val::When<sw>::run([&](auto& x, auto& y) { using std::swap; swap(x, y); }, d, *o[p.b]);
        case 7:
            name = "write through get<I>";
            dispatch<K>(p.i, [&](auto i) {
                ran = val::When<!Scalar<nth<i.value>>::value && !std::is_const<nth<i.value>>::value>::run(
                    [&](auto j, auto& x) {
                        if (x.index() == j.value)
                        {
                            this->template with<val::Src>(p, [&](val::Src& s) { F::template get<j.value>(x) = static_cast<const val::Src&>(s); });
                        }
                    },
                    i, d);
            });
            return ran;
        default: return false;
        }
    }
    template <typename G>
    void access(G&& g)
    {
#if PBT_EXC
        try
        {
            g();
        } catch (const typename F::bad&)
        {
            say("bad_variant_access");
        }
#else
        g();
#endif
    }
    /// Reads through every accessor; nothing may be made or moved.
    bool observe(const Op& p)
    {
        name         = "observers";
        Var&       d = *o[p.a];
        const Var& k = d;
        say(std::to_string(static_cast<long>(k.index())));
        say(k.valueless_by_exception());
        for (std::size_t n = 0; n < K; ++n)
        {
            dispatch<K>(n, [&](auto i) {
                using X    = nth<i.value>;
                X* const q = F::template get_if<i.value>(&d);
                const X* const kq = F::template get_if<i.value>(&k);
                this->say(q != nullptr);
                this->say(q == kq);
                this->say(F::template get_if<i.value>(static_cast<Var*>(nullptr)) == nullptr);
                if (q != nullptr)
                {
                    this->say(show(*q));
                }
                if (q != nullptr || PBT_EXC)
                {
                    this->access([&] { X& r = F::template get<i.value>(d); this->say(&r == q); });
                    this->access([&] { const X& r = F::template get<i.value>(k); this->say(&r == q); });
                    this->access([&] { X&& r = F::template get<i.value>(std::move(d)); this->say(&r == q); });
                    this->access([&] { const X&& r = F::template get<i.value>(std::move(k)); this->say(&r == q); });
                }
                val::When<unique<i.value>>::run(
                    [&](auto j, auto& x, const auto& y) {
                        using Z = nth<j.value>;
                        this->say(F::template holds<Z>(y));
                        this->say(F::template get_ifty<Z>(&x) == q && F::template get_ifty<Z>(&y) == q);
                        if (q != nullptr || PBT_EXC)
                        {
                            this->access([&] { Z& r = F::template getty<Z>(x); this->say(&r == q); });
                            this->access([&] { const Z& r = F::template getty<Z>(y); this->say(&r == q); });
                            this->access([&] { Z&& r = F::template getty<Z>(std::move(x)); this->say(&r == q); });
                            this->access([&] { const Z&& r = F::template getty<Z>(std::move(y)); this->say(&r == q); });
                        }
                    },
                    i, d, k);
            });
        }
        return true;
    }
    bool compare(const Op& p)
    {
        name         = "compare";
        const Var& a = *o[p.a];
        const Var& b = *o[p.b];
        say(a == b);
        say(a != b);
        say(a < b);
        say(a <= b);
        say(a > b);
        say(a >= b);
        return true;
    }
    bool run(const Op& p, bool& threw)
    {
        out.clear();
        exact = true;
        loose = false;
        val::events().clear();
        trk::arm(p.arm);
        bool ran = false;
        const trk::Res r = trk::attempt([&] {
            ran = true;
            switch (p.kind)
            {
            case 0: ran = construct(p); break;
            case 1: ran = assign(p); break;
            case 2: ran = change(p); break;
            case 3: ran = observe(p); break;
            default: ran = compare(p); break;
            }
        });
        trk::disarm();
        threw = r != trk::Res::Ok;
        say(std::string(trk::name(r)));
        return ran;
    }
    std::string state(int x) const
    {
        const Var&  d = *o[x];
        std::string s = "valueless";
        for (std::size_t n = 0; n < K; ++n)
        {
            dispatch<K>(n, [&](auto i) {
                if (d.index() == i.value)
                {
                    s = std::to_string(i.value) + ":" + show(*F::template get_if<i.value>(&d));
                }
            });
        }
        if (s == "valueless" && !d.valueless_by_exception())
        {
            s = "index " + std::to_string(d.index());
        }
        return s;
    }
    std::string state() const
    {
        std::string s;
        for (int i = 0; i < N; ++i)
        {
            s += state(i) + " ";
        }
        return s;
    }
    void restart(int i)
    {
        o[i].reset(new Var(typename F::template inx<0>{}, arg<nth<0>>(0)));
    }
};

template <bool SrcOk, typename... Ts>
void history(pbt::Case& c)
{
    trk::reset_world();
    int done = 0, changed = 0, thrown = 0;
    {
        Side<Real, SrcOk, Sub<Real, Ts>...> got;
        Side<Want, SrcOk, Sub<Want, Ts>...> want;
        std::size_t                         n     = 0;
        
#ifdef SELF_TEST
        const bool fault = false;
#else
        const bool fault = PBT_EXC && c.boolean();
#endif
        while (c.more(n, 12, c.thorough() ? 60 : 30))
        {
            Op p;
            p.kind                   = static_cast<int>(c.weighted({6, 8, 8, 1, 3}));
            static const int forms[] = {11, 6, 8, 1, 1};
            p.form = static_cast<int>(c.below(static_cast<std::uint64_t>(forms[p.kind])));
            p.a    = static_cast<int>(c.below(N));
            p.b    = static_cast<int>(c.below(N));
            p.i    = static_cast<int>(c.below(sizeof...(Ts)));
            p.v    = static_cast<int>(c.below(10));
            p.w    = static_cast<int>(c.below(4));
            if (fault && c.chance(1, 2))
            {
                p.arm = static_cast<long>(c.below(3));
            }
            const auto        before = got.state();
            const auto        live0  = trk::world().live;
            bool              threw = false, threw2 = false;
            const bool        ran   = got.run(p, threw);
            const auto        live1 = trk::world().live;
            const std::string ev    = val::events();
            if (!ran)
            {
                continue;
            }
            c.log("%s v%d (v%d) alternative %d value %d%s -> %s state %s", got.name, p.a, p.b, p.i, p.v,
                  p.arm >= 0 ? pbt::format(" throw at %ld", p.arm).c_str() : "", got.out.c_str(), got.state().c_str());
            if (got.loose && threw)
            {
                // Only the validity of the two variants is prescribed: they can be read, and are replaced here.
                for (const int i : {p.a, p.b})
                {
                    got.restart(i);
                    want.restart(i);
                }
                ++thrown;
                ++done;
                continue;
            }
            if (got.loose)
            {
                p.arm = -1;  // how many moves a swap takes is not prescribed
            }
            want.run(p, threw2);
            const auto        live2 = trk::world().live;
            const std::string ew    = val::events();
            PBT_CHECK(got.out == want.out, "%s gave %s, expected %s (objects: %s, expected: %s)", got.name, got.out.c_str(), want.out.c_str(), ev.c_str(), ew.c_str());
            PBT_CHECK(got.state() == want.state(), "after %s: %s, expected %s", got.name, got.state().c_str(), want.state().c_str());
            PBT_CHECK(live1 - live0 == live2 - live1, "%s: %d objects more alive, expected %d", got.name, static_cast<int>(live1 - live0), static_cast<int>(live2 - live1));
            PBT_CHECK(!got.exact || ev == ew, "%s did [%s] to the alternatives, expected [%s]", got.name, ev.c_str(), ew.c_str());
            ++done;
            changed += got.state() != before ? 1 : 0;
            thrown += threw ? 1 : 0;
            for (auto& x : got.o)
            {
                if (x->valueless_by_exception())
                {
                    c.label("valueless");
                }
            }
        }
    }
    PBT_CHECK(trk::world().live == 0, "%d objects left", static_cast<int>(trk::world().live));
    if (thrown > 0)
    {
        c.label("exception injected");
    }
    if (done >= 3 && changed >= 1)
    {
        c.nontrivial();
    }
}
using namespace val;
#if PART == 1
PBT_TARGET(var_general, (history<false, Full, AllThrow, NeverThrow, int>), 4000, 60000);
PBT_TARGET(var_mixed, (history<false, CopyOnly, Swappy, MixA, MixB>), 4000, 60000);
PBT_TARGET(var_full_src, (history<true, int, Full>), 2000, 30000);
PBT_TARGET(var_throw_src, (history<true, int, AllThrow, double>), 2000, 30000);
PBT_TARGET(var_one, (history<true, Full>), 1000, 20000);
#elif PART == 2
PBT_TARGET(var_moveonly, (history<false, MoveOnly, MoveOnlyThrow, FlatMoveOnly>), 3000, 40000);
PBT_TARGET(var_repeated, (history<false, Full, int, Full>), 3000, 40000);
PBT_TARGET(var_order, (history<true, Mono, Odd, double>), 4000, 60000);
PBT_TARGET(var_moveonly_src, (history<true, int, MoveOnly>), 2000, 30000);
#else
PBT_TARGET(var_trivial, (history<true, int, FlatTrivial, double>), 2000, 30000);
PBT_TARGET(var_flat, (history<false, FlatThrow, FlatCopyTrivial, FlatMoveTrivial, FlatAssignTrivial>), 3000, 40000);
PBT_TARGET(var_pinned, (history<false, Pinned, Full>), 2000, 30000);
PBT_TARGET(var_noassign, (history<false, NoAssign, AllThrow>), 2000, 30000);
PBT_TARGET(var_flat_tracked, (history<false, FlatTrivial, AllThrow, FlatMoveTrivial, Full>), 3000, 40000);
PBT_TARGET(var_const, (history<false, const Full, int, const FlatThrow>), 2000, 30000);
#endif
}  // namespace
