"""C26: programs of several translation units that include the public headers alone, in any order and repeatedly."""
HEADERS = ["cetl/cetl.hpp", "cetl/pf17/array_memory_resource.hpp", "cetl/pf17/buffer_memory_resource.hpp", "cetl/pf17/byte.hpp", "cetl/pf17/cetlpf.hpp",
           "cetl/pf17/memory_resource.hpp", "cetl/pf17/optional.hpp", "cetl/pf17/string_view.hpp", "cetl/pf17/sys/memory_resource.hpp",
           "cetl/pf17/type_traits.hpp", "cetl/pf17/utility.hpp", "cetl/pf17/variant.hpp", "cetl/pf20/cetlpf.hpp", "cetl/pf20/span.hpp",
           "cetl/pmr/buffer_memory_resource_delegate.hpp", "cetl/pmr/function.hpp", "cetl/pmr/interface_ptr.hpp", "cetl/pmr/memory.hpp",
           "cetl/pmr/o1heap_memory_resource_delegate.hpp", "cetl/rtti.hpp", "cetl/type_traits_ext.hpp", "cetl/unbounded_variant.hpp",
           "cetl/variable_length_array.hpp", "cetl/visit_helpers.hpp"]
ID = "struct A { int v; static constexpr cetl::type_id _get_type_id_() noexcept { return {1, 2}; } }; struct B { short v; static constexpr cetl::type_id _get_type_id_() noexcept { return {1, 3}; } }; "
RT = "struct B : cetl::rtti_helper<cetl::type_id_type<7>> {}; struct D : cetl::rtti_helper<cetl::type_id_type<7, 1>, B> {}; "
# name: (header that must be enough, code of a function body that returns a long, value)
USES = {
    "version": ("cetl/cetl.hpp", "CETL_DEBUG_ASSERT(true, \"\"); return CETL_CPP_STANDARD_14 + (CETL_VERSION_MAJOR >= 0 ? 1 : 0);", 201403),
    "array_mr": ("cetl/pf17/array_memory_resource.hpp",
                 "cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<64> r; void* p = r.allocate(16, 8); long n = p != nullptr; r.deallocate(p, 16, 8); return n + (long) r.max_size();", 65),
    "array_mr_up": ("cetl/pf17/array_memory_resource.hpp",
                    "cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<64> u; cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<8> r{&u, 32}; void* p = r.allocate(32, 8); long n = p != nullptr; r.deallocate(p, 32, 8); return n + (long) r.max_size();", 41),
    "buffer_mr": ("cetl/pf17/buffer_memory_resource.hpp",
                  "alignas(16) char b[48]; cetl::pf17::pmr::UnsynchronizedBufferMemoryResource r{b, 48}; void* p = r.allocate(40, 16); long n = p == b; r.deallocate(p, 40, 16); return n + (long) r.max_size();", 49),
    "pa_own": ("cetl/pf17/memory_resource.hpp",
               "struct R final : cetl::pf17::pmr::memory_resource { long b[4]; void* do_allocate(std::size_t, std::size_t) override { return b; } void do_deallocate(void*, std::size_t, std::size_t) override {} std::size_t do_max_size() const noexcept override { return 32; } bool do_is_equal(const cetl::pf17::pmr::memory_resource&) const noexcept override { return true; } } r; cetl::pf17::pmr::polymorphic_allocator<long> a{&r}; long* p = a.allocate(3); a.construct(p, 7); a.deallocate(p, 3); return r.b[0] + (a.resource() == &r) + (long) a.max_size();", 12),
    "byte": ("cetl/pf17/byte.hpp", "return (long) static_cast<cetl::pf17::byte>(200) + (long) sizeof(cetl::pf17::byte);", 201),
    "alias17": ("cetl/pf17/cetlpf.hpp",
                "cetl::optional<int> o{3}; cetl::variant<char, long> v{5L}; cetl::string_view s{\"abc\"}; return *o + cetl::get<long>(v) + (long) s.size() + (cetl::pmr::get_default_resource() != nullptr);", 12),
    "alias20": ("cetl/pf20/cetlpf.hpp",
                "int a[4] = {1, 2, 3, 4}; cetl::span<int> s{a}; cetl::optional<int> o{3}; return (long) s.size() + s[3] + *o + (cetl::dynamic_extent > 100);", 12),
    "mr": ("cetl/pf17/sys/memory_resource.hpp",
           "auto* r = cetl::pf17::pmr::new_delete_resource(); void* p = r->allocate(8, 8); long n = p != nullptr; r->deallocate(p, 8, 8); return n + r->is_equal(*r);", 2),
    "null_mr": ("cetl/pf17/sys/memory_resource.hpp",
                "return cetl::pf17::pmr::null_memory_resource()->is_equal(*cetl::pf17::pmr::null_memory_resource()) + 2 * (cetl::pf17::pmr::get_default_resource() != nullptr);", 3),
    "pa": ("cetl/pf17/sys/memory_resource.hpp",
           "cetl::pf17::pmr::polymorphic_allocator<long> a{cetl::pf17::pmr::new_delete_resource()}; long* p = a.allocate(3); a.construct(p, 7); long n = *p; a.deallocate(p, 3); return n + (a == cetl::pf17::pmr::polymorphic_allocator<char>{a});", 8),
    "optional": ("cetl/pf17/optional.hpp",
                 "cetl::pf17::optional<long> o; long n = o.value_or(4); o = 5; o.emplace(6); auto c = o; return n + *c + (o == c) + (cetl::pf17::nullopt < o);", 12),
    "string_view": ("cetl/pf17/string_view.hpp",
                    "cetl::pf17::string_view s{\"hello\"}; return (long) s.find('l') + (long) s.substr(1, 3).size() + (s == \"hello\") + (s.compare(\"help\") < 0);", 7),
    "sys_mr": ("cetl/pf17/sys/memory_resource.hpp",
               "char b[64]; cetl::pf17::pmr::monotonic_buffer_resource r{b, 64, cetl::pf17::pmr::null_memory_resource()}; void* p = r.allocate(3, 1); void* q = r.allocate(3, 1); return p == b && q == b + 3;", 1),
    "traits": ("cetl/pf17/type_traits.hpp",
               "return cetl::pf17::conjunction<std::true_type, std::true_type>::value + 2 * cetl::pf17::disjunction_v<std::false_type, std::true_type> + 4 * cetl::pf17::negation_v<std::false_type> + 8 * cetl::pf17::is_swappable_v<int>;", 15),
    "utility": ("cetl/pf17/utility.hpp", "cetl::pf17::in_place_t t; (void) t; (void) cetl::pf17::in_place_type_t<int>{}; (void) cetl::pf17::in_place_index_t<3>{}; return sizeof(t) > 0;", 1),
    "variant": ("cetl/pf17/variant.hpp",
                "cetl::pf17::variant<int, long> v{3L}; struct V { long operator()(int) const { return 1; } long operator()(long x) const { return x; } }; return cetl::pf17::visit(V{}, v) + (long) v.index() + cetl::pf17::holds_alternative<long>(v) + (cetl::pf17::get_if<int>(&v) == nullptr);", 6),
    "span": ("cetl/pf20/span.hpp",
             "int a[4] = {1, 2, 3, 4}; cetl::pf20::span<int> s{a}; cetl::pf20::span<const int, 2> t = cetl::pf20::span<int, 4>{a}.subspan<1, 2>(); return (long) s.last(3).size() + t[0] + (t.rbegin() != t.rend());", 6),
    "delegate": ("cetl/pmr/buffer_memory_resource_delegate.hpp",
                 "struct R { void* allocate(std::size_t, std::size_t) { return nullptr; } void deallocate(void*, std::size_t, std::size_t) {} void* reallocate(void*, std::size_t, std::size_t, std::size_t) { return nullptr; } std::size_t max_size() const { return 9; } } r; char b[32]; cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<R> d{b, 32, &r, 0}; void* p = d.allocate(32, 1); d.deallocate(p, 32, 1); return p == b;", 1),
    "function": ("cetl/pmr/function.hpp",
                 "long k = 4; cetl::pmr::function<long(long), 16> f{[k](long x) { return x + k; }}; auto g = f; return g(3) + static_cast<bool>(f);", 8),
    "rtti": ("cetl/rtti.hpp",
             "struct B : cetl::rtti_helper<cetl::type_id_type<7>> {}; struct D : cetl::rtti_helper<cetl::type_id_type<7, 1>, B> {} d; cetl::rtti& r = static_cast<B&>(d); return (cetl::rtti_cast<D*>(&r) == &d) + cetl::is_instance_of<B>(r);", 2),
    "ext": ("cetl/type_traits_ext.hpp", "return (long) cetl::type_traits_ext::count_v<std::is_signed, int, unsigned, long> + (long) cetl::type_traits_ext::find_v<std::is_floating_point, int, double>;", 3),
    "uv": ("cetl/unbounded_variant.hpp", ID + "cetl::unbounded_variant<8> v{A{5}}; long n = cetl::get<A>(v).v; v = B{3}; cetl::unbounded_variant<8> w{v}; return n + w.has_value() + (cetl::get_if<B>(&w) != nullptr) + (cetl::get_if<A>(&w) == nullptr);", 8),
    "vla": ("cetl/variable_length_array.hpp", "cetl::VariableLengthArray<int, std::allocator<int>> a{std::allocator<int>{}}; a.push_back(3); a.resize(4, 2); auto b = a; return (long) b.size() + b[0] + b[3] + (a == b);", 10),
    "vla_bool": ("cetl/variable_length_array.hpp", "cetl::VariableLengthArray<bool, std::allocator<bool>> a{std::allocator<bool>{}}; a.resize(20, true); a.push_back(false); long n = 0; for (std::size_t i = 0; i < a.size(); ++i) { n += a[i]; } return n;", 20),
    "visit_helpers": ("cetl/visit_helpers.hpp", "auto f = cetl::make_overloaded([](int x) { return (long) x; }, [](const char*) { return 10L; }); return f(2) + f(\"\");", 12),
    "o1heap": ("cetl/pmr/o1heap_memory_resource_delegate.hpp", "return sizeof(cetl::pmr::UnsynchronizedO1HeapMemoryResourceDelegate) > 0;", 1),
}
# state that is shared by all translation units: (header, code in one unit, code in another unit, value the second must return)
SHARED = {
    "default_resource": ("cetl/pf17/sys/memory_resource.hpp",
                         "cetl::pf17::pmr::set_default_resource(cetl::pf17::pmr::null_memory_resource()); return 0;",
                         "long n = cetl::pf17::pmr::get_default_resource() == cetl::pf17::pmr::null_memory_resource(); cetl::pf17::pmr::set_default_resource(nullptr); return n;", 1),
    "null_address": ("cetl/pf17/sys/memory_resource.hpp", "return (long) (std::size_t) cetl::pf17::pmr::null_memory_resource();",
                     "return (long) (std::size_t) cetl::pf17::pmr::null_memory_resource();", "same"),
    "new_delete_address": ("cetl/pf17/sys/memory_resource.hpp", "return (long) (std::size_t) cetl::pf17::pmr::new_delete_resource();",
                           "return (long) (std::size_t) cetl::pf17::pmr::new_delete_resource();", "same"),
    "uv_transfer": ("cetl/unbounded_variant.hpp", ID + "static cetl::unbounded_variant<32> v{A{77}}; return (long) (std::size_t) &v;",
                    ID + "auto& v = *(cetl::unbounded_variant<32>*) (std::size_t) shared; auto w = v; return cetl::get_if<B>(&w) == nullptr ? cetl::get<A>(w).v : 0;", 77),
    "function_transfer": ("cetl/pmr/function.hpp", "static long k = 7; static cetl::pmr::function<long(long), 32> f{[](long x) { return x + k; }}; return (long) (std::size_t) &f;",
                          "auto g = *(cetl::pmr::function<long(long), 32>*) (std::size_t) shared; return g(5);", 12),
    "rtti_transfer": ("cetl/rtti.hpp", RT + "static D d; return (long) (std::size_t) static_cast<cetl::rtti*>(static_cast<B*>(&d));",
                      RT + "auto* r = (cetl::rtti*) (std::size_t) shared; return cetl::is_instance_of<B>(*r) + cetl::is_instance_of<D>(*r);", 2),
}
SANITIZE = False
COUNTS = {"quick": 60, "thorough": 900}
BATCH = 1
ALL = ["%s%s%s" % (c, s, x) for c in ("clang", "gcc") for s in (14, 17, 20) for x in ("", "-noexc", "-bare", "-assert")]


def make(rng, tier):
    units = []
    for _ in range(rng.choice([2, 2, 3] if tier == "quick" else [2, 2, 3, 4])):
        uses = [rng.choice(sorted(USES)) for _ in range(rng.randrange(1, 6))]
        extra = [rng.choice(HEADERS) for _ in range(rng.randrange(0, 4))]
        incs = [USES[u][0] for u in uses] + extra
        rng.shuffle(incs)
        units.append(dict(uses=sorted(set(uses)), incs=incs))
    return dict(config=rng.choice(ALL), units=units, shared=rng.choice(sorted(SHARED)) if rng.random() < 0.7 else None)


def files(descs):
    (d,) = descs
    out, main = [], []
    for i, u in enumerate(d["units"]):
        incs = list(u["incs"])
        body = []
        for name in u["uses"]:
            body.append("long use_%s_%d() { %s }" % (name, i, USES[name][1]))
            main.append(("use_%s_%d" % (name, i), ""))
        if d["shared"] and i < 2:
            sh = SHARED[d["shared"]]
            if sh[0] not in incs:
                incs.append(sh[0])
            body.append("long shared_%d(long shared) { %s }" % (i, sh[1 + i]))
        t = "".join('#include "%s"\n' % h for h in incs)
        # what the snippets themselves need
        t += "#include <cstddef>\n#include <limits>\n#include <memory>\n#include <type_traits>\n"
        out.append(("u%d.cpp" % i, t + "\n".join(body) + "\n"))
    t = "#include <cstdio>\n"
    t += "".join("long %s();\n" % n for n, _ in main)
    if d["shared"]:
        t += "long shared_0(long);\nlong shared_1(long);\n"
    t += 'int main() {\n    std::printf("== 0\\n");\n'
    if d["shared"]:
        t += '    long a = shared_0(0); long b = shared_1(a);\n    std::printf("shared %%ld\\n", %s);\n' % ("(long) (a == b)" if SHARED[d["shared"]][3] == "same" else "b")
    t += "".join('    std::printf("%s %%ld\\n", %s());\n' % (n, n) for n, _ in main) + "}\n"
    out.append(("main.cpp", t))
    return out


def expected(d):
    out = []
    if d["shared"]:
        v = SHARED[d["shared"]][3]
        out.append("shared %d" % (1 if v == "same" else v))
    for i, u in enumerate(d["units"]):
        out += ["use_%s_%d %d" % (n, i, USES[n][2]) for n in u["uses"]]
    return out


def configs(d, tier):
    return [d["config"]]


def shrink(d):
    if len(d["units"]) > 2 or (len(d["units"]) > 1 and not d["shared"]):
        for i in range(len(d["units"])):
            yield dict(d, units=d["units"][:i] + d["units"][i + 1:])
    if d["shared"]:
        yield dict(d, shared=None)
    for i, u in enumerate(d["units"]):
        for n in u["uses"]:
            yield dict(d, units=d["units"][:i] + [dict(u, uses=[x for x in u["uses"] if x != n])] + d["units"][i + 1:])
        for j in range(len(u["incs"])):
            if u["incs"][j] not in [USES[x][0] for x in u["uses"]] or u["incs"].count(u["incs"][j]) > 1:
                yield dict(d, units=d["units"][:i] + [dict(u, incs=u["incs"][:j] + u["incs"][j + 1:])] + d["units"][i + 1:])


def nontrivial(d):
    return len(d["units"]) >= 2 and sum(len(u["uses"]) for u in d["units"]) >= 2


def labels(d):
    return [d["config"]] + ["first:" + u["incs"][0] for u in d["units"] if u["incs"]]


def describe(d):
    t = d["config"] + (" shared state: " + d["shared"] if d["shared"] else "")
    for i, u in enumerate(d["units"]):
        t += "\nunit %d: includes %s; uses %s" % (i, ", ".join(u["incs"]), ", ".join(u["uses"]))
    return t
