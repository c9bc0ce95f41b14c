"""C26: programs written with the portable names; they must print the same with the polyfills and with the standard library."""
PRELUDE = r'''#include "cetl/pf20/cetlpf.hpp"
#include "cetl/pmr/function.hpp"
#include "cetl/pmr/memory.hpp"
#include "cetl/unbounded_variant.hpp"
#include "cetl/variable_length_array.hpp"
#include "cetl/visit_helpers.hpp"
#include <array>
#include <cstdio>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>
struct Num { long v; static constexpr cetl::type_id _get_type_id_() noexcept { return {0x26, 1}; } };
struct Text { std::string v; std::array<char, 40> pad; static constexpr cetl::type_id _get_type_id_() noexcept { return {0x26, 2}; } };
struct Pool : cetl::pmr::memory_resource
{
    std::map<void*, std::pair<std::size_t, std::size_t>> live;
    std::size_t limit = 100000, wrong = 0;
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        if (n > limit) { throw std::bad_alloc(); }
        void* p = cetl::pmr::new_delete_resource()->allocate(n, a);
        live[p] = std::make_pair(n, a);
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        wrong += live.count(p) == 0 || live[p] != std::make_pair(n, a);
        live.erase(p);
        cetl::pmr::new_delete_resource()->deallocate(p, n, a);
    }
    bool do_is_equal(const cetl::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
using PA  = cetl::pmr::polymorphic_allocator<std::string>;
using Vla = cetl::VariableLengthArray<std::string, PA>;
using Uv  = cetl::unbounded_variant<16, true, true, alignof(std::max_align_t), cetl::pmr::memory_resource>;
using Fn  = cetl::pmr::function<long(long), 16, cetl::pmr::memory_resource>;
using OI  = cetl::optional<int>;
using OS  = cetl::optional<std::string>;
using VA  = cetl::variant<cetl::monostate, int, std::string>;
using VN  = cetl::variant<long, double, const char*, std::string>;
static std::string show(long v) { return std::to_string(v); }
static std::string show(const std::string& v) { return "\"" + v + "\""; }
static std::string show(cetl::string_view v) { return "\"" + std::string(v.data(), v.size()) + "\""; }
template <typename T> std::string show(const cetl::optional<T>& o) { return o.has_value() ? show(*o) : std::string("none"); }
static std::string show(const VA& v)
{
    return cetl::visit(cetl::make_overloaded([](cetl::monostate) { return std::string("mono"); }, [](int x) { return show(long{x}); },
                                             [](const std::string& x) { return show(x); }), v);
}
static std::string show(const VN& v)
{
    return std::to_string(v.index()) + ":" + cetl::visit(cetl::make_overloaded([](long x) { return show(x); }, [](double x) { return std::to_string(x); },
                                             [](const char* x) { return std::string(x); }, [](const std::string& x) { return show(x); }), v);
}
template <typename T, std::size_t N> std::string show(cetl::span<T, N> s)
{
    std::string r = "[";
    for (auto& x : s) { r += std::to_string(x) + " "; }
    return r + "]";
}
static std::string show(const Vla& v)
{
    std::string r = "{";
    for (auto& x : v) { r += x + ","; }
    return r + "}";
}
static std::string show(const Uv& v)
{
    if (auto* n = cetl::get_if<Num>(&v)) { return "num " + show(n->v); }
    if (auto* t = cetl::get_if<Text>(&v)) { return "text " + show(t->v); }
    return v.has_value() ? "other" : "none";
}
static std::string show(const Fn& f) { return f ? show(f(3)) : std::string("none"); }
template <typename T> void out(const T& x) { std::printf("%s\n", show(x).c_str()); }
template <typename F> void guarded(F&& f)
{
    try { f(); }
    catch (const cetl::bad_optional_access&) { std::printf("bad_optional_access\n"); }
    catch (const cetl::bad_variant_access&) { std::printf("bad_variant_access\n"); }
    catch (const std::bad_alloc&) { std::printf("bad_alloc\n"); }
    catch (const std::out_of_range&) { std::printf("out_of_range\n"); }
}
struct State
{
    Pool        p[2];
    OI          oi[3];
    OS          os[3];
    VA          va[3];
    VN          vn[3];
    cetl::string_view sv[3];
    std::array<int, 8> arr{{1, 2, 3, 4, 5, 6, 7, 8}};
    cetl::span<int>    sp[3];
    Vla         vl[3] = {Vla(PA(&p[0])), Vla(PA(&p[1])), Vla(PA(&p[0]))};
    Uv          uv[3] = {Uv(&p[0]), Uv(&p[1]), Uv(&p[1])};
    Fn          fn[3] = {Fn(&p[0]), Fn(&p[1]), Fn(&p[0])};
};
'''
# @a @b: indices of variables; @n @m: numbers; @s @t: strings; @c: character; @k: small count
STATEMENTS = {
    "optional": [
        "oi[@a] = @n; out(oi[@a]);", "oi[@a] = cetl::nullopt; out(oi[@a]);", "oi[@a] = oi[@b]; out(oi[@a]);", "oi[@a].emplace(@n); out(oi[@a]);",
        "out((long) oi[@a].value_or(@n));", "guarded([&] { out((long) oi[@a].value()); });", "oi[@a].swap(oi[@b]); out(oi[@a]); out(oi[@b]);",
        "out((long) (oi[@a] < oi[@b]) + 2 * (oi[@a] == oi[@b]) + 4 * (oi[@a] >= oi[@b]) + 8 * (oi[@a] != oi[@b]));",
        "out((long) (oi[@a] < @n) + 2 * (oi[@a] == @n) + 4 * (@n >= oi[@a]) + 8 * (oi[@a] == cetl::nullopt) + 16 * (cetl::nullopt < oi[@a]));",
        "os[@a] = std::string(@s); out(os[@a]);", "os[@a] = @s; out(os[@a]);", "os[@a].emplace(@k, @c); out(os[@a]);", "os[@a] = std::move(os[@b]); out(os[@a]); out((long) os[@b].has_value());",
        "os[@a].reset(); out(os[@a]);", "os[@a] = cetl::make_optional(std::string(@s)); out(os[@a]);", "os[@a] = OS(cetl::in_place, @k, @c); out(os[@a]);",
        "if (os[@a]) { *os[@a] += @s; os[@a]->push_back(@c); } out(os[@a]);", "out(os[@a].value_or(@s));", "guarded([&] { out(std::move(os[@a]).value()); });",
        "out((long) (os[@a] < os[@b]) + 2 * (os[@a] == @s) + 4 * (os[@a] > @t));", "{ cetl::optional<long> l; l = oi[@a]; cetl::optional<long> m{oi[@b]}; out(l); out(m); out((long) (l == oi[@a])); }",
        "{ const OI c = oi[@a]; out((long) noexcept(c.has_value()) + (c ? *c : 0)); }", "{ auto o = cetl::make_optional<std::string>(@k, @c); out(o); std::swap(o, os[@a]); out(os[@a]); }",
    ],
    "variant": [
        "va[@a] = @n; out(va[@a]);", "va[@a] = @s; out(va[@a]);", "va[@a] = cetl::monostate{}; out(va[@a]);", "va[@a] = va[@b]; out(va[@a]);", "va[@a].emplace<2>(@k, @c); out(va[@a]);",
        "va[@a].emplace<int>(@n); out(va[@a]);", "out((long) va[@a].index());", "guarded([&] { out((long) cetl::get<int>(va[@a])); });", "guarded([&] { out(cetl::get<2>(va[@a])); });",
        "if (auto* x = cetl::get_if<std::string>(&va[@a])) { *x += @s; } out(va[@a]);", "out((long) cetl::holds_alternative<int>(va[@a]) + 2 * (long) cetl::holds_alternative<cetl::monostate>(va[@a]));",
        "va[@a].swap(va[@b]); out(va[@a]); out(va[@b]);", "out((long) (va[@a] == va[@b]) + 2 * (va[@a] != va[@b]));",
        "va[@a] = VA(cetl::in_place_type_t<std::string>{}, @k, @c); out(va[@a]);", "va[@a] = VA(cetl::in_place_index_t<1>{}, @n); out(va[@a]);",
        "vn[@a] = @n; out(vn[@a]);", "vn[@a] = @n / 4.0; out(vn[@a]);", "vn[@a] = @s; out(vn[@a]);", "vn[@a] = std::string(@s); out(vn[@a]);", "vn[@a] = 'x'; out(vn[@a]);", "vn[@a] = 2.5f; out(vn[@a]);",
        "vn[@a] = std::move(vn[@b]); out(vn[@a]); vn[@b] = 0;", "out(cetl::visit([](const auto& x, const auto& y) { return show(long(sizeof(x) * 100 + sizeof(y))); }, va[@a], vn[@b]));",
        "cetl::visit(cetl::make_overloaded([](std::string& x) { x += @s; }, [](auto&) {}), vn[@a]); out(vn[@a]);",
        "out(cetl::visit(cetl::make_overloaded([](std::string&& x) { std::string y = std::move(x); return y; }, [](auto&&) { return std::string(\"no\"); }), std::move(vn[@a]))); vn[@a] = @n;",
        "out((long) cetl::variant_size_v<VA> + 10 * (long) cetl::variant_size<VN>::value + 100 * (long) std::is_same<cetl::variant_alternative_t<1, VA>, int>::value);",
        "out((long) va[@a].valueless_by_exception() + (long) (cetl::variant_npos == static_cast<std::size_t>(-1)));",
    ],
    "view": [
        "sv[@a] = cetl::string_view(@s); out(sv[@a]);", "sv[@a] = @s; out(sv[@a]);", "sv[@a] = sv[@b]; out(sv[@a]);", "guarded([&] { sv[@a] = sv[@b].substr(@k); out(sv[@a]); });",
        "guarded([&] { sv[@a] = sv[@b].substr(@k, @k); out(sv[@a]); });", "out((long) sv[@a].find(@c));", "out((long) sv[@a].find(sv[@b]));", "out((long) sv[@a].find(@s, @k));",
        "{ int r = sv[@a].compare(sv[@b]); out((long) (r > 0) - (r < 0)); }", "{ int r = sv[@a].compare(@s); out((long) (r > 0) - (r < 0)); }",
        "out((long) (sv[@a] == sv[@b]) + 2 * (sv[@a] < sv[@b]) + 4 * (sv[@a] == @s) + 8 * (@s != sv[@a]));",
        "if (!sv[@a].empty()) { sv[@a].remove_prefix(1); } out(sv[@a]);", "if (!sv[@a].empty()) { sv[@a].remove_suffix(1); } out(sv[@a]);", "std::swap(sv[@a], sv[@b]); out(sv[@a]); out(sv[@b]);",
        "{ std::ostringstream o; o.width(@k); o.fill(@c); o << sv[@a] << '|'; out(o.str()); }", "guarded([&] { out((long) sv[@a].at(@k)); });", "out(std::string(sv[@a].begin(), sv[@a].end()));",
        "{ char b[8] = {}; guarded([&] { out((long) sv[@a].copy(b, 4, @k)); out(std::string(b)); }); }", "{ std::string s = @s; cetl::string_view v = s; out(v); out((long) v.length()); }",
    ],
    "span": [
        "sp[@a] = arr; out(sp[@a]);", "sp[@a] = cetl::span<int>(arr.data(), @k % 9); out(sp[@a]);", "sp[@a] = sp[@b]; out(sp[@a]);", "{ std::size_t k = @k; if (k <= sp[@b].size()) { sp[@a] = sp[@b].first(k); } out(sp[@a]); }",
        "{ std::size_t k = @k; if (k <= sp[@b].size()) { sp[@a] = sp[@b].last(k); } out(sp[@a]); }", "{ std::size_t k = @k; if (k <= sp[@b].size()) { sp[@a] = sp[@b].subspan(k); } out(sp[@a]); }",
        "{ std::size_t k = @k; if (k + 2 <= sp[@b].size()) { sp[@a] = sp[@b].subspan(k, 2); } out(sp[@a]); }", "for (auto& x : sp[@a]) { x += @n % 100; } out(cetl::span<int>(arr));",
        "if (!sp[@a].empty()) { sp[@a].front() = @n % 100; out((long) sp[@a].back()); } out(sp[@a]);", "{ cetl::span<const int> c = sp[@a]; out(c); out((long) c.size_bytes()); }",
        "{ cetl::span<int, 8> f(arr); out(f); auto g = f.subspan<2, 3>(); out(g); out((long) g.extent); }", "{ cetl::span<const int, 8> f(arr); out(f.first<3>()); out(f.last(2)); out((long) (f.extent == cetl::dynamic_extent)); }",
        "{ long s = 0; for (auto it = sp[@a].rbegin(); it != sp[@a].rend(); ++it) { s = s * 3 + *it; } out(s % 1000003); }", "out((long) (sp[@a].end() - sp[@a].begin()));", "{ int c[3] = {@n, @m, 7}; cetl::span<int> s(c); out(s); cetl::span<const int, 3> t(c); out(t); }",
        "{ const std::array<int, 2> c{{@n, @m}}; cetl::span<const int> s(c); out(s); }", "if (sp[@a].size() > @k) { out((long) sp[@a][@k]); }",
    ],
    "array": [
        "vl[@a].push_back(@s); out(vl[@a]);", "vl[@a].emplace_back(@k, @c); out(vl[@a]);", "vl[@a].resize(@k); out(vl[@a]);", "vl[@a].resize(@k, @s); out(vl[@a]);", "vl[@a].assign(@k, @s); out(vl[@a]);",
        "vl[@a] = vl[@b]; out(vl[@a]);", "if (@a != @b) { vl[@a] = std::move(vl[@b]); vl[@b].clear(); } out(vl[@a]); out(vl[@b]);", "vl[@a].clear(); out(vl[@a]);", "vl[@a].reserve(@k); out(vl[@a]);", "vl[@a].shrink_to_fit(); out(vl[@a]);",
        "if (!vl[@a].empty()) { vl[@a].pop_back(); } out(vl[@a]);", "{ Vla c(vl[@a], PA(&p[1])); out(c); Vla d(std::move(c), PA(&p[0])); out(d); }", "out((long) (vl[@a] == vl[@b]));",
        "{ Vla c{{@s, @t, @s}, PA(&p[0])}; out(c); vl[@a] = c; out(vl[@a]); }", "p[0].limit = @k * 64; guarded([&] { vl[@a].push_back(@s); }); p[0].limit = 100000; out((long) vl[@a].empty());",
        "guarded([&] { out(vl[@a].at(@k)); });",
        "{ cetl::VariableLengthArray<bool, cetl::pmr::polymorphic_allocator<bool>> b{cetl::pmr::polymorphic_allocator<bool>(&p[1])}; b.resize(@k, true); b.push_back(false); b.push_back(true); long n = 0; for (std::size_t i = 0; i < b.size(); ++i) { n = n * 2 + b[i]; } out(n); }",
    ],
    "any": [
        "uv[@a].emplace<Num>(Num{@n}); out(uv[@a]);", "uv[@a].emplace<Text>(Text{@s, {}}); out(uv[@a]);", "uv[@a] = Num{@n}; out(uv[@a]);", "uv[@a] = Text{@s, {}}; out(uv[@a]);", "uv[@a] = uv[@b]; out(uv[@a]);",
        "if (@a != @b) { uv[@a] = std::move(uv[@b]); uv[@b].reset(); } out(uv[@a]); out(uv[@b]);", "uv[@a].reset(); out(uv[@a]);", "uv[@a].swap(uv[@b]); out(uv[@a]); out(uv[@b]);",
        "out((long) uv[@a].type_size() * 10 + uv[@a].has_value());", "fn[@a] = [](long x) { return x + @n; }; out(fn[@a]);", "{ std::array<long, 9> k{{@n, @m}}; fn[@a] = [k](long x) { return x + k[0] * k[1]; }; out(fn[@a]); }",
        "{ std::string s = @s; fn[@a] = [s](long x) { return x + (long) s.size(); }; out(fn[@a]); }", "fn[@a] = fn[@b]; out(fn[@a]);", "if (@a != @b) { fn[@a] = std::move(fn[@b]); fn[@b].reset(); } out(fn[@a]); out(fn[@b]);",
        "fn[@a].reset(); out(fn[@a]);", "p[1].limit = @k * 8; guarded([&] { uv[1].emplace<Text>(Text{@s, {}}); }); p[1].limit = 100000; out((long) uv[1].has_value());",
    ],
    "memory": [
        "{ cetl::pmr::polymorphic_allocator<long> a(&p[0]); long* x = a.allocate(3); a.construct(x, @n); out(*x); out((long) p[0].live.count(x)); a.deallocate(x, 3); out((long) p[0].live.count(x)); }",
        "{ auto* before = cetl::pmr::set_default_resource(&p[1]); out((long) (cetl::pmr::get_default_resource() == &p[1])); auto* mine = cetl::pmr::set_default_resource(nullptr); out((long) (mine == &p[1]) + 2 * (before == cetl::pmr::new_delete_resource()) + 4 * (cetl::pmr::get_default_resource() == cetl::pmr::new_delete_resource())); }",
        "guarded([&] { cetl::pmr::null_memory_resource()->allocate(@k + 1, 8); out(1L); });", "{ void* x = cetl::pmr::new_delete_resource()->allocate(@k + 1, 16); out((long) ((std::size_t) x % 16)); cetl::pmr::new_delete_resource()->deallocate(x, @k + 1, 16); }",
        "out((long) p[0].is_equal(p[1]) + 2 * p[0].is_equal(p[0]) + 4 * (PA(&p[0]) == PA(&p[1])) + 8 * (PA(&p[1]) != PA(&p[1])));",
        "{ PA a(&p[0]); auto u = cetl::pmr::Factory::make_unique(a, @k, @c); out(*u); auto w = std::move(u); out(*w); out((long) (u == nullptr)); }",
        "{ std::vector<int, cetl::pmr::polymorphic_allocator<int>> v{cetl::pmr::polymorphic_allocator<int>(&p[1])}; for (int i = 0; i < @k; ++i) { v.push_back(i * i); } long s = 0; for (int x : v) { s += x; } out(s); }",
        "{ cetl::pmr::polymorphic_allocator<std::pair<int, std::string>> a(&p[0]); auto* x = a.allocate(1); a.construct(x, @n, @s); out(x->second); out((long) x->first); std::allocator_traits<decltype(a)>::destroy(a, x); a.deallocate(x, 1); }",
        "out((long) static_cast<unsigned char>(static_cast<cetl::byte>(@k)) + (long) sizeof(cetl::byte));",
        "out((long) cetl::conjunction_v<std::is_integral<int>, cetl::negation<std::is_integral<double>>> + 2 * (long) cetl::disjunction<std::is_void<int>, std::is_void<void>>::value + 4 * (long) cetl::is_swappable_v<Pool> + 8 * (long) cetl::is_nothrow_swappable<std::string>::value);",
    ],
}
COUNTS = {"quick": 120, "thorough": 1500}
BATCH = 12
STRINGS = ["", "a", "b", "ab", "aab", "abc", "abcabc", "zz", "hello world this is a longer string"]


def make(rng, tier):
    kinds = rng.sample(sorted(STATEMENTS), rng.choice([1, 2, 3, 7]))
    out = []
    for _ in range(rng.randrange(4, 20 if tier == "quick" else 40)):
        k = rng.choice(kinds)
        t = rng.choice(STATEMENTS[k])
        for tag, f in (("@a", lambda: str(rng.randrange(3))), ("@b", lambda: str(rng.randrange(3))), ("@n", lambda: str(rng.choice([0, 1, 2, 7, -1, 100000, rng.randrange(-50, 50)]))),
                       ("@m", lambda: str(rng.randrange(-9, 9))), ("@s", lambda: '"%s"' % rng.choice(STRINGS)), ("@t", lambda: '"%s"' % rng.choice(STRINGS)),
                       ("@c", lambda: "'%s'" % rng.choice("abcz ")), ("@k", lambda: str(rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 9])))):
            t = t.replace(tag, f())
        out.append([k, t])
    return dict(steps=out)


def files(descs):
    t = [PRELUDE]
    for k, d in enumerate(descs):
        t.append("struct Case%d : State {\n    void run() {\n" % k)
        for i, (_, s) in enumerate(d["steps"]):
            t.append('        std::printf("-- %d\\n"); %s\n' % (i, s))
        t.append("    }\n};\n")
    t.append("int main() {\n")
    for k in range(len(descs)):
        t.append('    { std::printf("== %d\\n"); std::size_t l; Pool q[1]; { Case%d c; c.run(); l = c.p[0].wrong + c.p[1].wrong; for (auto& x : c.vl) { x.clear(); x.shrink_to_fit(); } for (auto& x : c.uv) { x.reset(); } for (auto& x : c.fn) { x.reset(); } '
                 'l += c.p[0].live.size() + c.p[1].live.size(); } std::printf("left %%zu\\n", l); }\n' % (k, k))
    t.append("}\n")
    return [("p.cpp", "".join(t))]


def expected(d):
    return None


def configs(d, tier):
    return ["gcc20", "clang14", "gcc17"] if tier == "quick" else ["gcc20", "clang14", "gcc17", "gcc14", "clang20"]


def shrink(d):
    n = len(d["steps"])
    if n > 3:
        yield dict(steps=d["steps"][:n // 2])
        yield dict(steps=d["steps"][n // 2:])
    for i in range(n):
        if n > 1:
            yield dict(steps=d["steps"][:i] + d["steps"][i + 1:])


def nontrivial(d):
    return len(d["steps"]) >= 4


def labels(d):
    return sorted({k for k, _ in d["steps"]})


def describe(d):
    return "\n".join(s for _, s in d["steps"])
