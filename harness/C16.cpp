// C16: the process-wide memory resources, sequentially and from several threads.
#include "blocks.hpp"

#include "cetl/pf17/sys/memory_resource.hpp"

#include <atomic>
#include <thread>

#ifdef PBT_ASAN
#    include <sanitizer/allocator_interface.h>
#endif
#include <sys/wait.h>
#include <unistd.h>

namespace
{
namespace pmr = cetl::pf17::pmr;
using Pmr     = pmr::memory_resource;

struct Dummy final : Pmr
{
    int   allocations = 0;
    void* do_allocate(std::size_t n, std::size_t) override
    {
        ++allocations;
        return std::malloc(n);
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override { std::free(p); }
    bool do_is_equal(const Pmr& o) const noexcept override { return this == &o; }
};

#ifndef FIRST_USE
/// Whether the heap still holds a block at p.
bool on_heap(const void* p)
{
#ifdef PBT_ASAN
    return __sanitizer_get_ownership(p) != 0;
#else
    (void) p;
    return false;
#endif
}
/// Blocks of the built-in resource
void use_builtin(pbt::Case& c, Pmr* r, mem::Blocks& blocks)
{
    switch (c.below(4))
    {
    case 0: {
        // impossible requests
        const bool        size_bad = c.boolean();
        const std::size_t size     = size_bad ? std::numeric_limits<std::size_t>::max() - static_cast<std::size_t>(c.below(4)) * (std::numeric_limits<std::size_t>::max() / 8)
                                              : static_cast<std::size_t>(c.below(300));
        const std::size_t align    = size_bad ? std::size_t{1} << c.below(5) : std::size_t{32} << c.below(8);
        c.log("built-in allocate(%zu, %zu)", size, align);
        void*          p = nullptr;
        const trk::Res x = trk::attempt([&] { p = r->allocate(size, align); });
        if (p != nullptr && !size_bad)
        {
            // supporting over-alignment would be fine as well
            blocks.add("allocate", p, size, align, 0);
            return;
        }
        PBT_CHECK(p == nullptr, "the built-in resource served %zu bytes aligned to %zu", size, align);
        PBT_CHECK(!PBT_EXC || x == trk::Res::BadAlloc, "the built-in resource failed for (%zu, %zu) without bad_alloc", size, align);
        PBT_CHECK(PBT_EXC || x == trk::Res::Ok, "the built-in resource threw");
        return;
    }
    case 1: {
        if (blocks.v.empty())
        {
            return;
        }
        const auto      k = static_cast<std::size_t>(c.below(blocks.v.size()));
        const mem::Live b = blocks.v[k];
        c.log("built-in deallocate(p, %zu)", b.size);
        r->deallocate(b.p, b.size, b.align);
        PBT_CHECK(!on_heap(b.p), "deallocate did not free the block of %zu bytes", b.size);
        blocks.erase(k);
        return;
    }
    case 2: {
        if (blocks.v.empty())
        {
            return;
        }
        const auto        k = static_cast<std::size_t>(c.below(blocks.v.size()));
        const mem::Live   b = blocks.v[k];
        const std::size_t n = static_cast<std::size_t>(c.range(1, 600));
        c.log("built-in reallocate(p, %zu, %zu)", b.size, n);
        void* const p = r->reallocate(b.p, b.size, n, b.align);
        PBT_CHECK(p != nullptr, "the built-in resource cannot reallocate %zu to %zu bytes", b.size, n);
        mem::Live moved = b;
        moved.p         = static_cast<char*>(p);
        PBT_CHECK(mem::Blocks::holds(moved, std::min(n, b.size)), "reallocate lost contents");
        PBT_CHECK(p == b.p || !on_heap(b.p), "reallocate did not free the block of %zu bytes", b.size);
        blocks.erase(k);
        blocks.add("reallocate", p, n, b.align, 0);
        return;
    }
    default: {
        const std::size_t size  = static_cast<std::size_t>(c.below(600));
        const std::size_t align = std::size_t{1} << c.below(5);
        c.log("built-in allocate(%zu, %zu)", size, align);
        void* const p = c.boolean() && align == alignof(std::max_align_t) ? r->allocate(size) : r->allocate(size, align);
        PBT_CHECK(p != nullptr || size == 0, "the built-in resource cannot serve (%zu, %zu)", size, align);
        if (p != nullptr)
        {
            PBT_CHECK(size < alignof(std::max_align_t) || reinterpret_cast<std::uintptr_t>(p) % alignof(std::max_align_t) == 0, "block is not aligned for any type");
            blocks.add("allocate", p, size, align, 0);
        }
        return;
    }
    }
}

void sequential(pbt::Case& c)
{
    struct Reset
    {
        Reset() { run(); }
        ~Reset() { run(); }
        static void run()
        {
            (void) pmr::deviant::set_new_delete_resource(nullptr);
            (void) pmr::set_default_resource(nullptr);
        }
    } reset;
    Dummy       d[4];
    Pmr* const  builtin = pmr::new_delete_resource();
    Pmr*        nd      = builtin;
    Pmr*        def     = builtin;
    mem::Blocks blocks;
    struct Cleanup
    {
        mem::Blocks& b;
        Pmr*         r;
        ~Cleanup()
        {
            for (const auto& l : b.v)
            {
                r->deallocate(l.p, l.size, l.align);
            }
        }
    } cleanup{blocks, builtin};
    PBT_CHECK(builtin != nullptr && pmr::get_default_resource() == builtin, "set_default_resource(nullptr) does not restore the new-delete resource");
    PBT_CHECK(builtin->is_equal(*builtin) && *builtin == *builtin && !(*builtin == d[0]) && *builtin != d[0], "comparison of the built-in resource");
    struct Mono
    {
        std::unique_ptr<pmr::monotonic_buffer_resource> r;
        Pmr*                                            upstream;
    };
    std::vector<Mono> monos;
    alignas(16) char  buffer[64];
    int               sets = 0, uses = 0;
    const int         n = static_cast<int>(c.range(1, 30));
    for (int i = 0; i < n; ++i)
    {
        switch (c.weighted({3, 3, 3, 4, 2, 2}))
        {
        case 0: {
            const auto k = c.below(5);
            Pmr*       r = k == 4 ? nullptr : &d[k];
            c.log("set_default_resource(%s)", r == nullptr ? "null" : pbt::format("%d", static_cast<int>(k)).c_str());
            Pmr* const old = pmr::set_default_resource(r);
            PBT_CHECK(old == def, "set_default_resource returned another resource than the previous one");
            def = r == nullptr ? nd : r;
            ++sets;
            break;
        }
        case 1: {
            const auto k = c.below(5);
            Pmr*       r = k == 4 ? nullptr : &d[k];
            c.log("set_new_delete_resource(%s)", r == nullptr ? "null" : pbt::format("%d", static_cast<int>(k)).c_str());
            Pmr* const old = pmr::deviant::set_new_delete_resource(r);
            PBT_CHECK(old == nd, "set_new_delete_resource returned another resource than the previous one");
            nd = r == nullptr ? builtin : r;
            ++sets;
            break;
        }
        case 2: {
            c.log("create a monotonic resource over the default resource");
            ++uses;
            Mono m;
            switch (c.below(3))
            {
            case 0:
                m.r.reset(new pmr::monotonic_buffer_resource());
                break;
            case 1:
                m.r.reset(new pmr::monotonic_buffer_resource(32));
                break;
            default:
                m.r.reset(new pmr::monotonic_buffer_resource(buffer, sizeof(buffer)));
            }
            m.upstream = def;
            monos.push_back(std::move(m));
            break;
        }
        case 3:
            use_builtin(c, builtin, blocks);
            break;
        case 4: {
            if (monos.empty())
            {
                break;
            }
            Mono& m = monos[static_cast<std::size_t>(c.below(monos.size()))];
            PBT_CHECK(m.r->upstream_resource() == m.upstream, "a resource changed the upstream it was created with");
            int before[4];
            for (int j = 0; j < 4; ++j)
            {
                before[j] = d[j].allocations;
            }
            void* const p = static_cast<Pmr&>(*m.r).allocate(100, 8);
            PBT_CHECK(p != nullptr, "allocation failed");
            std::memset(p, 1, 100);
            for (int j = 0; j < 4; ++j)
            {
                PBT_CHECK(d[j].allocations == before[j] || m.upstream == &d[j], "memory came from a resource that is not the upstream");
            }
            break;
        }
        default: {
            Pmr* const     null = pmr::null_memory_resource();
            const std::size_t size = static_cast<std::size_t>(c.below(100));
            void*          p    = nullptr;
            const trk::Res x    = trk::attempt([&] { p = null->allocate(size, std::size_t{1} << c.below(5)); });
            PBT_CHECK(p == nullptr && (!PBT_EXC || x == trk::Res::BadAlloc), "the null resource served a request");
            PBT_CHECK(null == pmr::null_memory_resource() && null->is_equal(*null) && !null->is_equal(*builtin) && null->max_size() == 0, "the null resource changed");
            null->deallocate(nullptr, 0);
            break;
        }
        }
        PBT_CHECK(pmr::get_default_resource() == def, "get_default_resource() is not the installed resource");
        PBT_CHECK(pmr::new_delete_resource() == nd, "new_delete_resource() is not the installed resource");
        blocks.verify("step");
    }
    monos.clear();
    if (sets >= 2 && (uses > 0 || !blocks.v.empty()))
    {
        c.nontrivial();
    }
}
#endif

/// Runs f(t) on n threads that start together.
template <typename F>
void together(int n, F f)
{
    std::atomic<int>         waiting{n};
    std::vector<std::thread> threads;
    for (int t = 0; t < n; ++t)
    {
        threads.emplace_back([&, t] {
            --waiting;
            while (waiting.load() > 0)
            {
            }
            f(t);
        });
    }
    for (auto& t : threads)
    {
        t.join();
    }
}

#ifndef FIRST_USE
/// Every resource installed is returned by exactly one later call or is installed at the end.
void tokens(pbt::Case& c)
{
    const int  threads = static_cast<int>(c.range(2, 6));
    const int  calls   = static_cast<int>(c.range(1, c.thorough() ? 800 : 300));
    const bool nd      = c.boolean();
    const bool readers = c.boolean();
    c.log("%d threads, %d calls each of %s%s", threads, calls, nd ? "set_new_delete_resource" : "set_default_resource", readers ? ", one thread only reads" : "");
    std::vector<std::vector<Dummy>> given(static_cast<std::size_t>(threads));
    std::vector<std::vector<Pmr*>>  got(static_cast<std::size_t>(threads));
    for (auto& g : given)
    {
        g = std::vector<Dummy>(static_cast<std::size_t>(calls));
    }
    auto set = [nd](Pmr* r) { return nd ? pmr::deviant::set_new_delete_resource(r) : pmr::set_default_resource(r); };
    auto get = [nd] { return nd ? pmr::new_delete_resource() : pmr::get_default_resource(); };
    (void) pmr::deviant::set_new_delete_resource(nullptr);
    (void) pmr::set_default_resource(nullptr);
    Pmr* const                  initial = get();
    std::vector<std::set<Pmr*>> seen(1);
    together(threads, [&](int t) {
        auto& mine = given[static_cast<std::size_t>(t)];
        auto& back = got[static_cast<std::size_t>(t)];
        for (auto& r : mine)
        {
            if (readers && t == 0)
            {
                seen[0].insert(get());
            }
            else
            {
                back.push_back(set(&r));
            }
        }
    });
    Pmr* const           last = set(nullptr);
    std::map<Pmr*, int>  balance;
    balance[initial] += 1;
    balance[last] -= 1;
    for (int t = 0; t < threads; ++t)
    {
        for (auto& r : given[static_cast<std::size_t>(t)])
        {
            if (!(readers && t == 0))
            {
                balance[&r] += 1;
            }
        }
        for (Pmr* r : got[static_cast<std::size_t>(t)])
        {
            balance[r] -= 1;
        }
    }
    (void) pmr::set_default_resource(nullptr);
    for (const auto& b : balance)
    {
        PBT_CHECK(b.second == 0, "an installed resource was returned %d times by later calls and as the final one", 1 - b.second);
    }
    for (Pmr* r : seen[0])
    {
        PBT_CHECK(balance.count(r) == 1, "a reader saw a resource that was never installed");
    }
    c.nontrivial();
}
/// The calls of one thread may be ordered only as they were made: a thread alone in installing sees its own values.
void mixed(pbt::Case& c)
{
    const int threads = static_cast<int>(c.range(2, 4));
    const int calls   = static_cast<int>(c.range(1, 200));
    c.log("%d threads: one sets the default resource, one the new-delete resource, the others read, allocate and create", threads);
    (void) pmr::deviant::set_new_delete_resource(nullptr);
    (void) pmr::set_default_resource(nullptr);
    Pmr* const         builtin = pmr::new_delete_resource();
    std::vector<Dummy> a(static_cast<std::size_t>(calls)), b(static_cast<std::size_t>(calls));
    std::atomic<int>   bad{0};
    together(threads, [&](int t) {
        for (int i = 0; i < calls; ++i)
        {
            const auto k = static_cast<std::size_t>(i);
            if (t == 0)
            {
                Pmr* const before = i == 0 ? builtin : static_cast<Pmr*>(&a[k - 1]);
                if (pmr::set_default_resource(&a[k]) != before || pmr::get_default_resource() != &a[k])
                {
                    bad |= 1;
                }
            }
            else if (t == 1)
            {
                Pmr* const before = i == 0 ? builtin : static_cast<Pmr*>(&b[k - 1]);
                if (pmr::deviant::set_new_delete_resource(&b[k]) != before || pmr::new_delete_resource() != &b[k])
                {
                    bad |= 2;
                }
            }
            else
            {
                pmr::monotonic_buffer_resource m;
                Pmr* const                     u = m.upstream_resource();
                if (u != builtin && (u < &a.front() || u > &a.back()))
                {
                    bad |= 4;
                }
                void* const p = builtin->allocate(32, 8);
                std::memset(p, t, 32);
                builtin->deallocate(p, 32, 8);
            }
        }
    });
    (void) pmr::deviant::set_new_delete_resource(nullptr);
    (void) pmr::set_default_resource(nullptr);
    PBT_CHECK((bad & 1) == 0, "the only thread that sets the default resource did not get its previous value back");
    PBT_CHECK((bad & 2) == 0, "the only thread that sets the new-delete resource did not get its previous value back");
    PBT_CHECK((bad & 4) == 0, "a resource was created over something that was never the default resource");
    c.nontrivial();
}
#else
/// The first calls in a process come from several threads at once.
void first_use(pbt::Case& c)
{
    const int threads = static_cast<int>(c.range(2, 6));
    int       what[6];
    for (int t = 0; t < threads; ++t)
    {
        what[t] = static_cast<int>(c.below(5));
        c.log("thread %d starts with call %d", t, what[t]);
    }
    Dummy       d;
    const pid_t pid = fork();
    if (pid == 0)
    {
        std::vector<Pmr*> got(static_cast<std::size_t>(threads));
        together(threads, [&](int t) {
            const auto i = static_cast<std::size_t>(t);
            switch (what[t])
            {
            case 0:
                got[i] = pmr::get_default_resource();
                break;
            case 1:
                got[i] = pmr::new_delete_resource();
                break;
            case 2:
                got[i] = pmr::null_memory_resource();
                break;
            case 3:
                got[i] = pmr::set_default_resource(nullptr);
                break;
            default: {
                pmr::monotonic_buffer_resource m;
                got[i] = m.upstream_resource();
            }
            }
        });
        int bad = 0;
        for (int t = 0; t < threads; ++t)
        {
            Pmr* const expected = what[t] == 2 ? pmr::null_memory_resource() : pmr::new_delete_resource();
            if (got[static_cast<std::size_t>(t)] != expected)
            {
                bad = 9;
            }
        }
        _exit(bad);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process whose first calls are concurrent ended with status %d%s", st,
              WIFEXITED(st) && WEXITSTATUS(st) == 9 ? ": a call returned another resource" : WIFEXITED(st) && WEXITSTATUS(st) == 73 ? ": data race" : "");
    c.nontrivial();
}
#endif
}  // namespace
#ifndef FIRST_USE
PBT_TARGET(sequential, sequential, 10000, 200000);
#    ifdef THREADS
PBT_TARGET(mt_tokens, tokens, 300, 6000);
PBT_TARGET(mt_mixed, mixed, 300, 6000);
#    endif
#else
PBT_TARGET(mt_first_use, first_use, 300, 5000);
#endif
