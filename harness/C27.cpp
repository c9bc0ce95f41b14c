// C27: checked accesses without exceptions: a failing one ends the program, every other one returns the value.
#include "mem.hpp"

#include "cetl/pf17/string_view.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/pmr/function.hpp"
#include "cetl/unbounded_variant.hpp"

#include <csignal>
#include <exception>

#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
using Pmr = cetl::pf17::pmr::memory_resource;

/// Runs f in a child process. It must return true if `valid`, and otherwise terminate (std::terminate or an abort).
template <typename F>
void access(pbt::Case& c, const char* what, bool valid, F f)
{
    c.log("%s (%s)", what, valid ? "valid" : "fails");
    std::fflush(nullptr);
    const pid_t pid = fork();
    PBT_CHECK(pid >= 0, "fork failed");
    if (pid == 0)
    {
        struct rlimit none{0, 0};
        (void) setrlimit(RLIMIT_CORE, &none);
        const int null = open("/dev/null", O_WRONLY);
        (void) dup2(null, 2);
        (void) std::set_terminate([] { _exit(42); });
        (void) std::signal(SIGABRT, [](int) { _exit(42); });
        _exit(f() ? 0 : 3);
    }
    int st = 0;
    PBT_CHECK(waitpid(pid, &st, 0) == pid, "waitpid failed");
    const int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (valid)
    {
        PBT_CHECK(code != 42, "%s: a valid access terminated the program", what);
        PBT_CHECK(code != 3, "%s: a valid access returned something else", what);
        PBT_CHECK(code == 0, "%s: a valid access ended with status %d", what, st);
    }
    else
    {
        PBT_CHECK(code != 0 && code != 3, "%s: an access that must fail returned", what);
        PBT_CHECK(code == 42, "%s: an access that must fail ended with status %d instead of terminating", what, st);
        c.nontrivial();
    }
}

// ------------------------------------------------------------------------------------------------ string_view
template <typename Ch>
void view_of(pbt::Case& c)
{
    using V = cetl::pf17::basic_string_view<Ch>;
    std::basic_string<Ch> s;
    const auto            n = static_cast<std::size_t>(c.below(12));
    for (std::size_t i = 0; i < n; ++i)
    {
        s.push_back(static_cast<Ch>('a' + c.below(26)));
    }
    const std::size_t from = static_cast<std::size_t>(c.below(n + 1));
    const std::size_t len  = static_cast<std::size_t>(c.below(n - from + 1));
    const V           v(s.data() + from, len);
    std::size_t       pos  = static_cast<std::size_t>(c.below(len + 3));
    if (c.chance(1, 6))
    {
        pos = std::numeric_limits<std::size_t>::max() - static_cast<std::size_t>(c.below(3));
    }
    const std::size_t count = c.chance(1, 4) ? V::npos : static_cast<std::size_t>(c.below(len + 2));
    c.log("view of %zu characters, position %zu, count %zu", len, pos, count);
    const std::basic_string<Ch> all(s.data() + from, len);
    switch (c.below(3))
    {
    case 0:
        return access(c, "at", pos < len, [&] { return &v.at(pos) == s.data() + from + pos; });
    case 1:
        return access(c, "substr", pos <= len, [&] {
            const V w = v.substr(pos, count);
            return std::basic_string<Ch>(w.data(), w.size()) == all.substr(pos, count);
        });
    default:
        return access(c, "copy", pos <= len, [&] {
            Ch                to[16] = {};
            const std::size_t k = v.copy(to, count, pos);
            return std::basic_string<Ch>(to, k) == all.substr(pos, count);
        });
    }
}
void view(pbt::Case& c)
{
    switch (c.below(4))
    {
    case 0:
        return view_of<char>(c);
    case 1:
        return view_of<wchar_t>(c);
    case 2:
        return view_of<char16_t>(c);
    default:
        return view_of<char32_t>(c);
    }
}

// ------------------------------------------------------------------------------------------------ variant
struct A
{
    int                  v;
    bool                 operator==(const A& o) const { return v == o.v; }
};
struct B
{
    explicit B(int x) : s(static_cast<std::size_t>(x % 40), 'b') {}
    std::string s;
    bool        operator==(const B& o) const { return s == o.s; }
};
struct C
{
    explicit C(int x) : v(x) {}
    C(const C&)            = default;
    C& operator=(const C&) = default;
    ~C() { v = -1; }
    long v;
    bool operator==(const C& o) const { return v == o.v; }
};
template <typename T>
T make(int x)
{
    return T(x);
}
template <>
A make<A>(int x)
{
    return A{x};
}
template <std::size_t I, typename V>
void variant_get(pbt::Case& c, V& v, std::size_t active, int x)
{
    using T         = std::decay_t<decltype(cetl::pf17::get<I>(v))>;
    const bool   ok = active == I;
    const V&     cv = v;
    const T      want = make<T>(x);
    const bool   by_type = c.boolean();
    switch (c.below(4))
    {
    case 0:
        return access(c, "get(variant&)", ok, [&] { return by_type ? cetl::pf17::get<T>(v) == want : cetl::pf17::get<I>(v) == want; });
    case 1:
        return access(c, "get(const variant&)", ok, [&] { return by_type ? cetl::pf17::get<T>(cv) == want : cetl::pf17::get<I>(cv) == want; });
    case 2:
        return access(c, "get(variant&&)", ok, [&] { return by_type ? cetl::pf17::get<T>(std::move(v)) == want : cetl::pf17::get<I>(std::move(v)) == want; });
    default:
        return access(c, "get(const variant&&)", ok, [&] { return by_type ? cetl::pf17::get<T>(std::move(cv)) == want : cetl::pf17::get<I>(std::move(cv)) == want; });
    }
}
void variant(pbt::Case& c)
{
    using V = cetl::pf17::variant<A, B, C>;
    V           v(A{0});
    std::size_t active = 0;
    int         x      = 0;
    const int   n      = static_cast<int>(c.below(4));
    for (int i = 0; i < n; ++i)
    {
        active = static_cast<std::size_t>(c.below(3));
        x      = static_cast<int>(c.below(100));
        c.log("variant holds alternative %zu", active);
        switch (active)
        {
        case 0:
            v = A{x};
            break;
        case 1:
            v.emplace<1>(x);
            break;
        default:
            v = V(C(x));
            break;
        }
    }
    switch (c.below(3))
    {
    case 0:
        c.log("alternative 0");
        return variant_get<0>(c, v, active, x);
    case 1:
        c.log("alternative 1");
        return variant_get<1>(c, v, active, x);
    default:
        c.log("alternative 2");
        return variant_get<2>(c, v, active, x);
    }
}

// ------------------------------------------------------------------------------------------------ unbounded_variant
template <int K>
struct Held
{
    static constexpr cetl::type_id _get_type_id_() noexcept { return {0x27, 1, 2, 3, 4, K}; }
    long                           v;
    explicit Held(int x) : v(x) {}
    bool operator==(const Held& o) const { return v == o.v; }
};
struct Wide : Held<3>
{
    using Held<3>::Held;
    long fill[8]{};
};
template <typename T, typename U>
void unbounded_get(pbt::Case& c, U& u, bool ok, int x)
{
    const U& cu = u;
    const T  want(x);
    using cetl::get;
    switch (c.below(6))
    {
    case 0:
        return access(c, "get<T>(unbounded_variant&)", ok, [&] { return get<T>(u) == want; });
    case 1:
        return access(c, "get<T&>(unbounded_variant&)", ok, [&] { return get<T&>(u) == want; });
    case 2:
        return access(c, "get<T>(const unbounded_variant&)", ok, [&] { return get<T>(cu) == want; });
    case 3:
        return access(c, "get<const T&>(const unbounded_variant&)", ok, [&] { return get<const T&>(cu) == want; });
    case 4:
        return access(c, "get<T>(unbounded_variant&&)", ok, [&] { return get<T>(std::move(u)) == want; });
    default:
        return access(c, "get<T&&>(unbounded_variant&&)", ok, [&] { return get<T&&>(std::move(u)) == want; });
    }
}
template <typename U>
void unbounded_history(pbt::Case& c, U& u, U& other)
{
    int       holds = 0;  // 0: nothing
    int       x     = 0;
    const int n     = static_cast<int>(c.below(5));
    for (int i = 0; i < n; ++i)
    {
        const int v = static_cast<int>(c.below(100));
        switch (c.below(6))
        {
        case 0:
            c.log("reset");
            u.reset();
            holds = 0;
            break;
        case 1:
            c.log("= Held<1>(%d)", v);
            u     = Held<1>(v);
            holds = 1;
            x     = v;
            break;
        case 2:
            c.log("= Held<2>(%d)", v);
            u     = Held<2>(v);
            holds = 2;
            x     = v;
            break;
        case 3:
            c.log("emplace<Wide>(%d)", v);
            u.template emplace<Wide>(v);
            holds = 3;
            x     = v;
            break;
        case 4: {
            c.log("through a copy");
            U copy(u);
            u.reset();
            u = copy;
            break;
        }
        default:
            c.log("swapped with an empty one");
            other.reset();
            u.swap(other);
            holds = 0;
            break;
        }
    }
    switch (c.below(3))
    {
    case 0:
        c.log("asked for Held<1>");
        return unbounded_get<Held<1>>(c, u, holds == 1, x);
    case 1:
        c.log("asked for Held<2>");
        return unbounded_get<Held<2>>(c, u, holds == 2, x);
    default:
        c.log("asked for Wide");
        return unbounded_get<Wide>(c, u, holds == 3, x);
    }
}
void unbounded(pbt::Case& c)
{
    if (c.boolean())
    {
        cetl::unbounded_variant<sizeof(Wide)> u, other;
        return unbounded_history(c, u, other);
    }
    mem::Res                                       res;
    cetl::unbounded_variant<16, true, true, 8, Pmr> u(&res), other(&res);
    unbounded_history(c, u, other);
}

// ------------------------------------------------------------------------------------------------ function
template <typename F>
void function_history(pbt::Case& c, F& f, F& other)
{
    int       target = -1;
    const int n      = static_cast<int>(c.below(5));
    for (int i = 0; i < n; ++i)
    {
        const int v = static_cast<int>(c.below(100));
        switch (c.below(6))
        {
        case 0:
            c.log("reset");
            f.reset();
            target = -1;
            break;
        case 1:
            c.log("= nullptr");
            f      = nullptr;
            target = -1;
            break;
        case 2: {
            c.log("= callable %d", v);
            f      = [v](int a) { return a + v; };
            target = v;
            break;
        }
        case 3: {
            c.log("through a copy");
            F copy(f);
            f.reset();
            f = copy;
            break;
        }
        case 4:
            c.log("through a move");
            other = std::move(f);
            f     = std::move(other);
            break;
        default:
            c.log("swapped with an empty one");
            other.reset();
            f.swap(other);
            target = -1;
            break;
        }
    }
    access(c, "call", target >= 0, [&] { return f(7) == 7 + target; });
}
void function(pbt::Case& c)
{
    if (c.boolean())
    {
        cetl::pmr::function<int(int), 48> f, other;
        return function_history(c, f, other);
    }
    mem::Res                              res;
    cetl::pmr::function<int(int), 0, Pmr> f(&res), other(&res);
    function_history(c, f, other);
}
}  // namespace
PBT_TARGET(term_view, view, 400, 6000);
PBT_TARGET(term_variant, variant, 300, 5000);
PBT_TARGET(term_unbounded, unbounded, 400, 6000);
PBT_TARGET(term_function, function, 300, 5000);
