// C14: monotonic_buffer_resource over a ledger.
#include "blocks.hpp"

#include "cetl/pf17/sys/memory_resource.hpp"

namespace
{
using Pmr  = cetl::pf17::pmr::memory_resource;
using Mono = cetl::pf17::pmr::monotonic_buffer_resource;
using Base = cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource;

void history(pbt::Case& c, Base& r, mem::Ledger& up, char* buf, std::size_t len, std::size_t initial)
{
    Pmr&          m = r;
    mem::Blocks   blocks;
    std::size_t   upper      = 0;  // most bytes of the initial buffer that can be in use
    std::uint64_t upstreamed = 0, releases = 0, failures = 0, allocations = 0;
    const int     n          = static_cast<int>(c.range(1, c.thorough() ? 80 : 40));
    for (int i = 0; i < n; ++i)
    {
        up.failed                    = false;
        const std::uint64_t requests = up.requests;
        const std::uint64_t returns  = up.returns;
        const std::size_t   held     = up.blocks.size();
        const char*         op       = "";
        switch (c.weighted({12, 3, 1}))
        {
        case 0: {
            op                      = "allocate";
            const std::size_t size  = mem::pick_size(c, {len, initial, up.limit, std::size_t{128}}, 64);
            const std::size_t align = std::size_t{1} << c.below(9);
            c.log("allocate(%zu, %zu)", size, align);
            if (c.chance(1, 12))
            {
                c.log("  (upstream fails)");
                up.arm(0, true);
            }
            void*          p      = nullptr;
            const trk::Res x      = trk::attempt([&] { p = m.allocate(size, align); });
            const bool     failed = up.failed;
            up.disarm();
            mem::check_events();
            PBT_CHECK(up.returns == returns, "%s returned upstream blocks", op);
            PBT_CHECK(x == trk::Res::Ok || x == trk::Res::BadAlloc, "%s threw %s", op, trk::name(x));
            // Bytes the request can take at most
            const bool        overflow = size > len || align - 1 > len - size;
            const std::size_t need     = overflow ? std::numeric_limits<std::size_t>::max() : size + align - 1;
            const bool        first    = held == 0;
            const auto        a        = reinterpret_cast<std::uintptr_t>(buf);
            const std::size_t pad      = (align - a % align) % align;
            const bool        fits     = first && buf != nullptr && len > 0 &&
                              ((upper == 0 && pad <= len && size <= len - pad) || (!overflow && upper <= len && need <= len - upper));
            if (fits)
            {
                PBT_CHECK(p != nullptr && up.requests == requests, "%s(%zu, %zu) was not served from the initial buffer of %zu bytes, %zu in use", op,
                          size, align, len, upper);
            }
            if (p == nullptr)
            {
                ++failures;
                PBT_CHECK(failed || size > up.limit || align > up.max_align, "%s(%zu, %zu) failed although upstream never failed", op, size, align);
                PBT_CHECK(up.blocks.size() == held, "%s(%zu, %zu) failed but took %zu upstream blocks", op, size, align, up.blocks.size() - held);
                break;
            }
            ++allocations;
            PBT_CHECK(size <= m.max_size(), "%s(%zu) succeeded although max_size() is %zu", op, size, m.max_size());
            char* q = static_cast<char*>(p);
            if (buf != nullptr && q >= buf && q <= buf + len && size <= static_cast<std::size_t>(buf + len - q))
            {
                PBT_CHECK(up.requests == requests || size == 0, "%s: upstream was asked although the initial buffer served the request", op);
                upper = overflow || len - std::min(upper, len) < need ? len : upper + need;
            }
            else
            {
                PBT_CHECK(size <= up.limit && up.find(p, size) != nullptr,
                          "%s(%zu, %zu): the block is neither in the initial buffer nor in an upstream block", op, size, align);
                ++upstreamed;
            }
            blocks.add(op, p, size, align, 0);
            break;
        }
        case 1: {
            op = "deallocate";
            if (blocks.v.empty())
            {
                break;
            }
            const mem::Live& b = blocks.v[static_cast<std::size_t>(c.below(blocks.v.size()))];
            c.log("deallocate a block of %zu bytes", b.size);
            m.deallocate(b.p, b.size, b.align);
            PBT_CHECK(up.requests == requests && up.returns == returns, "%s reached upstream", op);
            break;
        }
        default:
            op = "release";
            c.log("release");
            ++releases;
            blocks.v.clear();
            r.release();
            mem::check_events();
            PBT_CHECK(up.blocks.empty(), "%s left %zu upstream blocks", op, up.blocks.size());
            PBT_CHECK(up.requests == requests, "%s allocated", op);
            upper = 0;
            break;
        }
        mem::check_events();
        blocks.verify(op);
        PBT_CHECK(r.upstream_resource() != nullptr, "upstream_resource() is null");
    }
    PBT_CHECK(m.is_equal(m), "the resource is not equal to itself");
    PBT_CHECK(!m.is_equal(*r.upstream_resource()) && !m.is_equal(Base(r.upstream_resource())), "the resource is equal to another");
    if (allocations >= 3 && (upstreamed >= 2 || releases > 0 || failures > 0))
    {
        c.nontrivial();
    }
}

void run(pbt::Case& c)
{
    mem::Res up;
    mem::events().error.clear();
    up.led.id        = 3;
    up.led.limit     = c.chance(1, 3) ? static_cast<std::size_t>(c.range(0, 600)) : 65536;
    up.led.max_align = c.chance(1, 8) ? 64 : 65536;
    up.led.on_fail   = c.chance(1, 4) ? mem::Fail::ReturnsNull : mem::Fail::Throws;
    if (c.chance(1, 4))
    {
        up.max_bytes = up.led.limit;
    }
    const std::size_t len     = c.chance(1, 8) ? 0 : static_cast<std::size_t>(c.range(1, 400));
    const std::size_t off     = static_cast<std::size_t>(c.below(66));
    char* const       arena   = static_cast<char*>(::aligned_alloc(512, 1024));
    struct Guard
    {
        char* p;
        ~Guard()
        {
            PBT_UNPOISON(p, 1024);
            std::free(p);
        }
    } guard{arena};
    char* const buf = arena + 64 + off;
    PBT_POISON(arena, 64 + (off & ~std::size_t{7}));
    PBT_POISON(buf + len, static_cast<std::size_t>(arena + 1024 - (buf + len)));
    const auto kind = c.below(8);
    c.log("constructor %d, initial buffer or size %zu, upstream limit %zu", static_cast<int>(kind), len, up.led.limit);
    Pmr* const before = cetl::pf17::pmr::get_default_resource();
    struct Restore
    {
        Pmr* r;
        ~Restore() { (void) cetl::pf17::pmr::set_default_resource(r); }
    } restore{before};
    (void) cetl::pf17::pmr::set_default_resource(&up);
    struct Limits
    {
        Limits(pbt::Case& cc, Base& r, mem::Ledger& l, char* b, std::size_t n, std::size_t i, Pmr* u)
        {
            PBT_CHECK(r.upstream_resource() == u, "upstream_resource() is not the upstream resource");
            (void) cetl::pf17::pmr::set_default_resource(nullptr);  // must not matter any more
            history(cc, r, l, b, n, i);
        }
    };
    switch (kind)
    {
    case 0: {
        Mono r;
        Limits(c, r, up.led, nullptr, 0, 0, &up);
        break;
    }
    case 1: {
        Mono r(len);
        Limits(c, r, up.led, nullptr, 0, len, &up);
        break;
    }
    case 2: {
        Mono r(buf, len);
        Limits(c, r, up.led, buf, len, len, &up);
        break;
    }
    case 3: {
        Mono r(len, &up);
        Limits(c, r, up.led, nullptr, 0, len, &up);
        break;
    }
    case 4: {
        Mono r(&up);
        Limits(c, r, up.led, nullptr, 0, 0, &up);
        break;
    }
    case 5: {
        Base r(buf, len, &up);
        Limits(c, r, up.led, buf, len, len, &up);
        break;
    }
    case 6: {
        Base r(len, &up);
        Limits(c, r, up.led, nullptr, 0, len, &up);
        break;
    }
    default: {
        Mono r(buf, len, &up);
        Limits(c, r, up.led, buf, len, len, &up);
        break;
    }
    }
    mem::check_events();
    PBT_CHECK(up.led.blocks.empty(), "the destructor left %zu upstream blocks", up.led.blocks.size());
}
}  // namespace
PBT_TARGET(monotonic, run, 30000, 600000);
