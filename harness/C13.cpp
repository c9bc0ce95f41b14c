// C13: buffer and array memory resources, alone and chained, over a ledger.
#include "blocks.hpp"

#include "cetl/pf17/array_memory_resource.hpp"
#include "cetl/pf17/buffer_memory_resource.hpp"
#if __cplusplus >= 201703L
#    include <memory_resource>
#endif

namespace
{
using Pmr = cetl::pf17::pmr::memory_resource;

/// Upstream without reallocate.
struct NoRealloc
{
    mem::Ledger& led;
    void*        allocate(std::size_t n, std::size_t a) { return led.allocate(n, a); }
    void         deallocate(void* p, std::size_t n, std::size_t a) { led.deallocate(p, n, a); }
};
#if __cplusplus >= 201703L
struct StdRes : std::pmr::memory_resource
{
    mem::Ledger& led;
    explicit StdRes(mem::Ledger& l) : led(l) {}
    void* do_allocate(std::size_t n, std::size_t a) override { return led.allocate(n, a); }
    void  do_deallocate(void* p, std::size_t n, std::size_t a) override { led.deallocate(p, n, a); }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
#endif

/// The resource under test behind one interface.
struct Subject
{
    virtual ~Subject()                                                                  = default;
    virtual void*       allocate(std::size_t n, std::size_t a)                          = 0;
    virtual void        deallocate(void* p, std::size_t n, std::size_t a)               = 0;
    virtual void*       reallocate(void* p, std::size_t o, std::size_t n, std::size_t a) = 0;
    virtual std::size_t max_size() const                                                = 0;
    virtual char*       data()                                                          = 0;
    virtual std::size_t size() const                                                    = 0;
    virtual bool        moves() { return false; }
    virtual Pmr*        pmr() { return nullptr; }
};
struct BufferSubject : Subject
{
    using R = cetl::pf17::pmr::UnsynchronizedBufferMemoryResource;
    std::unique_ptr<R> r;
    BufferSubject(char* b, std::size_t n, Pmr* up, std::size_t max) : r(new R(b, n, up, max)) {}
    BufferSubject(char* b, std::size_t n) : r(new R(b, n)) {}
    void*       allocate(std::size_t n, std::size_t a) override { return static_cast<Pmr&>(*r).allocate(n, a); }
    void        deallocate(void* p, std::size_t n, std::size_t a) override { static_cast<Pmr&>(*r).deallocate(p, n, a); }
    void*       reallocate(void* p, std::size_t o, std::size_t n, std::size_t a) override { return static_cast<Pmr&>(*r).reallocate(p, o, n, a); }
    std::size_t max_size() const override { return static_cast<Pmr&>(*r).max_size(); }
    char*       data() override
    {
        const R& cr = *r;
        PBT_CHECK(cr.data() == r->data(), "const and non-const data() differ");
        return static_cast<char*>(r->data());
    }
    std::size_t size() const override { return r->size(); }
    bool        moves() override
    {
        std::unique_ptr<R> n(new R(std::move(*r)));
        r = std::move(n);
        return true;
    }
    Pmr* pmr() override { return r.get(); }
};
template <std::size_t N>
struct ArraySubject : Subject
{
    using R = cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<N>;
    R r;
    ArraySubject(Pmr* up, std::size_t max) : r(up, max) {}
    ArraySubject() {}
    void*       allocate(std::size_t n, std::size_t a) override { return static_cast<Pmr&>(r).allocate(n, a); }
    void        deallocate(void* p, std::size_t n, std::size_t a) override { static_cast<Pmr&>(r).deallocate(p, n, a); }
    void*       reallocate(void* p, std::size_t o, std::size_t n, std::size_t a) override { return static_cast<Pmr&>(r).reallocate(p, o, n, a); }
    std::size_t max_size() const override { return static_cast<const Pmr&>(r).max_size(); }
    char*       data() override { return static_cast<char*>(r.data()); }
    std::size_t size() const override { return r.size(); }
    Pmr*        pmr() override { return &r; }
};
template <typename Up>
struct DelegateSubject : Subject
{
    using R = cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<Up>;
    Up r_up;
    R  r;
    template <typename L>
    DelegateSubject(char* b, std::size_t n, L& led, std::size_t max) : r_up{led}, r(b, n, &r_up, max) {}
    void*       allocate(std::size_t n, std::size_t a) override { return r.allocate(n, a); }
    void        deallocate(void* p, std::size_t n, std::size_t a) override { r.deallocate(p, n, a); }
    void*       reallocate(void* p, std::size_t o, std::size_t n, std::size_t a) override { return r.reallocate(p, o, n, a); }
    std::size_t max_size() const override { return r.max_size(); }
    char*       data() override { return static_cast<char*>(r.data()); }
    std::size_t size() const override { return r.size(); }
};

enum From
{
    Buffer,
    Upstream
};

void history(pbt::Case& c, Subject& s, mem::Ledger& up, char* buf, std::size_t len, std::size_t limit, bool has_up = true, bool up_reallocates = true)
{
    mem::Blocks blocks;
    bool        buffer_free = true;
    int         done = 0, from_buffer = 0, from_up = 0, reallocs = 0, failures = 0;
    const char* op   = "";
    PBT_CHECK(s.data() == buf && s.size() == len, "data() or size() do not describe the buffer");
    constexpr std::size_t max_diff = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
    const std::size_t     expect_max =
        std::min(len, max_diff) > max_diff - std::min(limit, max_diff) ? max_diff : std::min(len, max_diff) + std::min(limit, max_diff);
    PBT_CHECK(s.max_size() == expect_max, "max_size() is %zu instead of %zu", s.max_size(), expect_max);

    if (s.pmr() != nullptr)
    {
        char                                                spare[16];
        cetl::pf17::pmr::UnsynchronizedBufferMemoryResource another(spare, sizeof(spare));
        const Pmr&                                          me = *s.pmr();
        PBT_CHECK(me.is_equal(*s.pmr()), "the resource is not equal to itself");
        PBT_CHECK(!me.is_equal(another) && !static_cast<Pmr&>(another).is_equal(me), "resources of two buffers are equal");
    }
    const int n = static_cast<int>(c.range(1, c.thorough() ? 60 : 30));
    for (int i = 0; i < n; ++i)
    {
        ++done;
        const std::uint64_t requests = up.requests;
        const std::uint64_t returns  = up.returns;
        up.failed                    = false;
        switch (c.weighted({6, 4, 5, 1, 1}))
        {
        case 0: {
            op                      = "allocate";
            const std::size_t size  = mem::pick_size(c, {len, limit, std::size_t{1}}, 64);
            const std::size_t align = std::size_t{1} << c.below(9);
            c.log("allocate(%zu, %zu)", size, align);
            if (c.chance(1, 12))
            {
                c.log("  (upstream fails)");
                up.arm(0, false);
            }
            void*          p = nullptr;
            const trk::Res x = trk::attempt([&] { p = s.allocate(size, align); });
            const bool     upstream_failed = up.failed;
            up.disarm();
            mem::check_events();
            // does the aligned request fit the buffer?
            const auto        a   = reinterpret_cast<std::uintptr_t>(buf);
            const std::size_t pad = (align - a % align) % align;
            const bool        fits = buffer_free && buf != nullptr && pad <= len && size <= len - pad;
            const bool        in_buffer = p != nullptr && up.requests == requests;
            if (fits && size > 0)
            {
                PBT_CHECK(x == trk::Res::Ok && in_buffer, "%s(%zu, %zu) was not served from the free buffer of %zu bytes", op, size, align, len);
            }
            if (in_buffer)
            {
                PBT_CHECK(fits, "%s(%zu, %zu) came from the buffer, which %s", op, size, align, buffer_free ? "is too small" : "is in use");
                PBT_CHECK(static_cast<char*>(p) >= buf && static_cast<char*>(p) + size <= buf + len, "%s: block outside the buffer", op);
                blocks.add(op, p, size, align, Buffer);
                buffer_free = false;
                ++from_buffer;
            }
            else
            {
                PBT_CHECK(up.requests - requests <= 1, "%s: upstream was asked %d times", op, static_cast<int>(up.requests - requests));
                if (has_up && size <= limit)
                {
                    PBT_CHECK(up.requests == requests + 1, "%s(%zu, %zu) within the upstream limit %zu did not reach upstream", op, size, align, limit);
                    PBT_CHECK(up.last_bytes == size && up.last_align == align, "%s(%zu, %zu): upstream was asked for (%zu, %zu)", op, size, align,
                              up.last_bytes, up.last_align);
                }
                else
                {
                    PBT_CHECK(up.requests == requests, "%s(%zu): more than the upstream limit %zu reached upstream", op, size, limit);
                }
                if (p != nullptr)
                {
                    PBT_CHECK(up.find(p, size) != nullptr || size == 0, "%s: the block does not come from upstream", op);
                    blocks.add(op, p, size, align, Upstream);
                    ++from_up;
                }
                else
                {
                    PBT_CHECK(!has_up || size > limit || upstream_failed, "%s(%zu, %zu) failed although upstream served it", op, size, align);
                    PBT_CHECK(!PBT_EXC || x == trk::Res::BadAlloc, "%s failed with %s instead of bad_alloc", op, trk::name(x));
                    PBT_CHECK(PBT_EXC || x == trk::Res::Ok, "%s threw", op);
                    ++failures;
                }
            }
            break;
        }
        case 1: {
            op = "deallocate";
            if (blocks.v.empty())
            {
                break;
            }
            const auto      k = static_cast<std::size_t>(c.below(blocks.v.size()));
            const mem::Live b = blocks.v[k];
            c.log("deallocate block of %zu bytes from %s", b.size, b.from == Buffer ? "the buffer" : "upstream");
            s.deallocate(b.p, b.size, b.align);
            mem::check_events();
            PBT_CHECK(up.returns == returns + (b.from == Upstream ? 1U : 0U), "%s: upstream got %d blocks back", op, static_cast<int>(up.returns - returns));
            if (b.from == Buffer)
            {
                buffer_free = true;
            }
            blocks.erase(k);
            break;
        }
        case 2: {
            op = "reallocate";
            if (blocks.v.empty())
            {
                break;
            }
            const auto        k    = static_cast<std::size_t>(c.below(blocks.v.size()));
            const mem::Live   b    = blocks.v[k];
            const std::size_t size = std::max<std::size_t>(1, mem::pick_size(c, {len, limit, b.size}, 64));
            if (b.size == 0)
            {
                break;
            }
            c.log("reallocate block of %zu bytes from %s to %zu", b.size, b.from == Buffer ? "the buffer" : "upstream", size);
            const std::uint64_t reallocations = up.reallocs;
            void*               p             = nullptr;
            const trk::Res      x             = trk::attempt([&] { p = s.reallocate(b.p, b.size, size, b.align); });
            mem::check_events();
            PBT_CHECK(x == trk::Res::Ok || x == trk::Res::BadAlloc, "%s threw %s", op, trk::name(x));
            PBT_CHECK(b.from == Upstream || up.reallocs == reallocations, "%s: upstream was asked for a block of the buffer", op);
            PBT_CHECK(size <= limit || up.reallocs == reallocations, "%s(%zu): more than the upstream limit %zu reached upstream", op, size, limit);
            if (b.from == Buffer)
            {
                const std::size_t pad = (b.align - reinterpret_cast<std::uintptr_t>(buf) % b.align) % b.align;
                PBT_CHECK((p != nullptr) == (pad <= len && size <= len - pad), "%s(%zu) of the block in the buffer of %zu bytes (%zu before it) %s", op, size, len, pad,
                          p != nullptr ? "succeeded" : "failed");
            }
            else if (up_reallocates && size <= limit)
            {
                PBT_CHECK(up.reallocs == reallocations + 1, "%s(%zu) within the upstream limit %zu reached upstream %d times", op, size, limit,
                          static_cast<int>(up.reallocs - reallocations));
                PBT_CHECK(p == up.last_answer, "%s: upstream's answer was not passed on", op);
            }
            else
            {
                PBT_CHECK(p == nullptr, "%s of an upstream block that upstream cannot resize succeeded", op);
            }
            if (p != nullptr)
            {
                ++reallocs;
                mem::Live moved = b;
                moved.p         = static_cast<char*>(p);
                if (b.from == Buffer)
                {
                    PBT_CHECK(moved.p >= buf && size <= len && moved.p + size <= buf + len, "%s: block outside the buffer", op);
                }
                else
                {
                    PBT_CHECK(up.find(p, size) != nullptr, "%s: the block does not come from upstream", op);
                }
                PBT_CHECK(mem::Blocks::holds(moved, std::min(b.size, size)), "%s: contents were not preserved", op);
                blocks.erase(k);
                blocks.add(op, p, size, b.align, b.from);
            }
            else
            {
                ++failures;
            }
            break;
        }
        case 3:
            op = "max_size";
            PBT_CHECK(s.max_size() == expect_max, "max_size() is %zu instead of %zu", s.max_size(), expect_max);
            break;
        default:
            op = "move of the resource";
            if (s.moves())
            {
                c.log("the resource is moved");
            }
            break;
        }
        blocks.verify(op);
        std::size_t mine = 0;
        for (const auto& b : blocks.v)
        {
            mine += b.from == Upstream ? 1U : 0U;
        }
        PBT_CHECK(up.blocks.size() == mine, "%s: upstream has %zu live blocks instead of %zu", op, up.blocks.size(), mine);
    }
    while (!blocks.v.empty())
    {
        const mem::Live b = blocks.v.back();
        s.deallocate(b.p, b.size, b.align);
        blocks.v.pop_back();
    }
    mem::check_events();
    PBT_CHECK(up.blocks.empty(), "%zu upstream blocks were not returned", up.blocks.size());
    if (done >= 3 && from_buffer > 0 && (from_up > 0 || reallocs > 0 || failures > 0))
    {
        c.nontrivial();
    }
}

std::size_t pick_limit(pbt::Case& c)
{
    switch (c.below(4))
    {
    case 0:
        return 0;
    case 1:
        return std::numeric_limits<std::size_t>::max();
    default:
        return static_cast<std::size_t>(c.range(0, 200));
    }
}
void set_up(pbt::Case& c, mem::Ledger& led)
{
    mem::events().error.clear();
    led.id           = 7;
    led.limit        = 4096;
    led.realloc_mode = static_cast<trk::Realloc>(c.below(4));
    led.rng          = c.below(1000000) + 1;
    led.on_fail      = c.boolean() ? mem::Fail::ReturnsNull : mem::Fail::Throws;
}
/// A buffer with a chosen misalignment; bytes around it are poisoned.
struct Arena
{
    char*       base;
    char*       p;
    std::size_t n;
    explicit Arena(pbt::Case& c)
    {
        n = c.chance(1, 10) ? static_cast<std::size_t>(c.below(3)) : static_cast<std::size_t>(c.range(1, 300));
        const std::size_t off = static_cast<std::size_t>(c.below(70));
        base                  = static_cast<char*>(::aligned_alloc(512, 1024));
        p                     = base + 64 + off;
        PBT_POISON(base, 64 + (off & ~std::size_t{7}));
        PBT_POISON(p + n, static_cast<std::size_t>(base + 1024 - (p + n)));
    }
    ~Arena()
    {
        PBT_UNPOISON(base, 1024);
        std::free(base);
    }
};
void buffer(pbt::Case& c)
{
    mem::Res up;
    set_up(c, up.led);
    Arena a(c);
    if (c.chance(1, 8))
    {
        c.log("buffer of %zu bytes, no upstream", a.n);
        BufferSubject s(a.p, a.n);
        return history(c, s, up.led, a.p, a.n, 0, false);
    }
    const std::size_t limit = pick_limit(c);
    const bool        null  = c.chance(1, 20);
    c.log("buffer of %zu bytes, upstream limit %zu", null ? 0 : a.n, limit);
    BufferSubject s(null ? nullptr : a.p, null ? 0 : a.n, &up, limit);
    history(c, s, up.led, null ? nullptr : a.p, null ? 0 : a.n, limit);
}
template <std::size_t N>
void array_of(pbt::Case& c)
{
    mem::Res up;
    set_up(c, up.led);
    if (c.chance(1, 8))
    {
        c.log("array of %zu bytes, no upstream", N);
        ArraySubject<N> s;
        return history(c, s, up.led, s.data(), N, 0, false);
    }
    const std::size_t limit = pick_limit(c);
    c.log("array of %zu bytes, upstream limit %zu", N, limit);
    ArraySubject<N> s(&up, limit);
    history(c, s, up.led, s.data(), N, limit);
}
void array(pbt::Case& c)
{
    switch (c.below(4))
    {
    case 0:
        return array_of<1>(c);
    case 1:
        return array_of<37>(c);
    case 2:
        return array_of<64>(c);
    default:
        return array_of<256>(c);
    }
}
void delegate(pbt::Case& c)
{
    mem::Ledger led;
    set_up(c, led);
    Arena             a(c);
    const std::size_t limit = pick_limit(c);
#if __cplusplus >= 201703L
    led.on_fail = mem::Fail::Throws;
    if (c.boolean())
    {
        c.log("delegate over std::pmr, %zu bytes, upstream limit %zu", a.n, limit);
        DelegateSubject<StdRes> s(a.p, a.n, led, limit);
        return history(c, s, led, a.p, a.n, limit, true, false);
    }
#endif
    c.log("delegate without reallocate upstream, %zu bytes, upstream limit %zu", a.n, limit);
    DelegateSubject<NoRealloc> s(a.p, a.n, led, limit);
    history(c, s, led, a.p, a.n, limit, true, false);
}
}  // namespace
PBT_TARGET(buffer_resource, buffer, 12000, 300000);
PBT_TARGET(array_resource, array, 12000, 300000);
PBT_TARGET(buffer_delegate, delegate, 8000, 200000);
