// A memory resource that keeps a ledger: every block must come back once, to the same resource, with the same size and
// alignment. Blocks are aligned exactly as requested (never better) and surrounded by poisoned memory.
#pragma once
#include "track.hpp"

#include "cetl/pf17/memory_resource.hpp"

namespace mem
{

struct Block
{
    std::size_t bytes;
    std::size_t align;
    char*       base;
    std::size_t room;   // bytes usable for in-place reallocation
    std::uint64_t serial;
};

/// What a ledger noticed; read by the harness after every step.
struct Events
{
    std::string error;
};
inline Events& events()
{
    static Events e;
    return e;
}
inline void note(const std::string& s)
{
    if (events().error.empty())
    {
        events().error = s;
    }
}
/// Ledger errors are violations on the spot.
inline void check_events()
{
    if (!events().error.empty())
    {
        const std::string e = events().error;
        events().error.clear();
        pbt::fail("%s", e.c_str());
    }
}

enum class Fail
{
    Throws,
    ReturnsNull
};

class Ledger
{
public:
    Ledger()
    {
        next = first();
        first() = this;
    }
    Ledger(const Ledger&) = delete;
    ~Ledger()
    {
        for (auto& b : blocks)
        {
            release(b.second);
        }
        Ledger** p = &first();
        while (*p != this)
        {
            p = &(*p)->next;
        }
        *p = next;
    }
    static Ledger*& first()
    {
        static Ledger* f = nullptr;
        return f;
    }

    int           id        = 0;
    std::size_t   limit     = std::size_t{1} << 24;  // largest single request that is served
    std::size_t   max_align = std::size_t{1} << 16;
    Fail          on_fail   = Fail::Throws;
    std::int64_t  fail_in   = -1;
    bool          fail_rest = false;
    bool          failed    = false;
    trk::Realloc  realloc_mode = trk::Realloc::Never;
    std::uint64_t rng       = 1;
    std::uint64_t requests  = 0;
    std::uint64_t returns   = 0;
    std::size_t   held      = 0;  // bytes of the live blocks
    std::uint64_t reallocs  = 0;
    std::size_t   last_bytes = 0;
    std::size_t   last_align = 0;
    void*         last_answer = nullptr;  // of reallocate
    std::map<char*, Block> blocks;
    Ledger*       next = nullptr;

    void arm(std::int64_t in, bool rest)
    {
        fail_in   = in;
        fail_rest = rest;
        failed    = false;
    }
    void disarm()
    {
        fail_in   = -1;
        fail_rest = false;
    }
    bool should_fail()
    {
        if (fail_in < 0)
        {
            return false;
        }
        if (fail_in == 0)
        {
            if (!fail_rest)
            {
                fail_in = -1;
            }
            failed = true;
            return true;
        }
        --fail_in;
        return false;
    }
    static bool power_of_two(std::size_t a) { return a != 0 && (a & (a - 1)) == 0; }

    void* allocate(std::size_t bytes, std::size_t align)
    {
        ++requests;
        last_bytes = bytes;
        last_align = align;
        if (!power_of_two(align))
        {
            note(pbt::format("resource %d: allocate(%zu) with alignment %zu", id, bytes, align));
            align = 1;
        }
        if (should_fail() || bytes > limit || align > max_align)
        {
            failed = true;
#if PBT_EXC
            if (on_fail == Fail::Throws)
            {
                throw std::bad_alloc();
            }
#endif
            return nullptr;
        }
        std::size_t room = bytes;
        if (realloc_mode == trk::Realloc::InPlace || realloc_mode == trk::Realloc::Mixed)
        {
            room += random() % 64;
        }
        return place(bytes, align, room);
    }
    void deallocate(void* vp, std::size_t bytes, std::size_t align)
    {
        ++returns;
        char* p = static_cast<char*>(vp);
        for (Ledger* l = first(); l != nullptr; l = l->next)
        {
            auto it = l->blocks.find(p);
            if (it == l->blocks.end())
            {
                continue;
            }
            if (l != this)
            {
                note(pbt::format("block of resource %d was returned to resource %d", l->id, id));
            }
            if (it->second.bytes != bytes || it->second.align != align)
            {
                note(pbt::format("block requested as (%zu bytes, alignment %zu) was returned as (%zu, %zu)", it->second.bytes,
                                 it->second.align, bytes, align));
            }
            l->held -= it->second.room;
            release(it->second);
            l->blocks.erase(it);
            return;
        }
        pbt::fail("resource %d: deallocate(%s, %zu, %zu) of memory that is not allocated", id, vp == nullptr ? "null" : "p", bytes, align);
    }
    void* reallocate(void* vp, std::size_t old_bytes, std::size_t bytes, std::size_t align)
    {
        ++reallocs;
        return last_answer = change(vp, old_bytes, bytes, align);
    }
    void* change(void* vp, std::size_t old_bytes, std::size_t bytes, std::size_t align)
    {
        trk::Realloc m = realloc_mode;
        if (m == trk::Realloc::Mixed)
        {
            m = static_cast<trk::Realloc>(random() % 3);
        }
        if (m == trk::Realloc::Never || vp == nullptr || bytes == 0 || bytes > limit || align > max_align)
        {
            return nullptr;
        }
        auto it = blocks.find(static_cast<char*>(vp));
        if (it == blocks.end())
        {
            pbt::fail("resource %d: reallocate of memory that is not allocated here", id);
        }
        Block& b = it->second;
        if (b.bytes != old_bytes || b.align != align)
        {
            note(pbt::format("block requested as (%zu bytes, alignment %zu) was reallocated as (%zu, %zu)", b.bytes, b.align, old_bytes, align));
        }
        if (bytes <= b.room && (m == trk::Realloc::InPlace || random() % 2 == 0))
        {
            PBT_UNPOISON(vp, b.room);
            PBT_POISON(static_cast<char*>(vp) + bytes, b.room - bytes);
            b.bytes = bytes;
            return vp;
        }
        if (m == trk::Realloc::InPlace || should_fail())
        {
            return nullptr;
        }
        const Block old = b;
        void* const q   = place(bytes, align, bytes);
        std::memcpy(q, vp, std::min(bytes, old.bytes));
        blocks.erase(static_cast<char*>(vp));
        held -= old.room;
        release(old);
        return q;
    }
    /// The block that contains [p, p+n), or null.
    const Block* find(const void* vp, std::size_t n, char** start = nullptr) const
    {
        char* p  = const_cast<char*>(static_cast<const char*>(vp));
        auto  it = blocks.upper_bound(p);
        if (it == blocks.begin())
        {
            return nullptr;
        }
        --it;
        if (p >= it->first && p + n <= it->first + it->second.bytes)
        {
            if (start != nullptr)
            {
                *start = it->first;
            }
            return &it->second;
        }
        return nullptr;
    }
    std::size_t total() const
    {
        std::size_t n = 0;
        for (auto& b : blocks)
        {
            n += b.second.bytes;
        }
        return n;
    }

private:
    std::uint64_t serial_ = 0;
    std::uint64_t random()
    {
        rng = pbt::mix(rng);
        return rng >> 8;
    }
    void* place(std::size_t bytes, std::size_t align, std::size_t room)
    {
        // no case needs more than a fraction of this
        held += room;
        if (blocks.size() > 200000 || held > (std::size_t{1} << 30))
        {
            pbt::fail("resource %d: allocations without end (%zu blocks, %zu bytes are live)", id, blocks.size(), held);
        }
        // aligned to `align` but not to 2 * align
        const std::size_t a    = std::max<std::size_t>(align, 1);
        void*             base = nullptr;
        if (posix_memalign(&base, std::max<std::size_t>(2 * a, sizeof(void*)), a + std::max<std::size_t>(room, 1)) != 0)
        {
            std::abort();
        }
        char* p = static_cast<char*>(base) + a;
        std::memset(p, 0xCD, room);
        PBT_POISON(base, a);
        PBT_POISON(p + bytes, room - bytes);
        blocks[p] = Block{bytes, align, static_cast<char*>(base), room, ++serial_};
        return p;
    }
    static void release(const Block& b)
    {
        const std::size_t a = std::max<std::size_t>(b.align, 1);
        PBT_UNPOISON(b.base, a + b.room);
        std::memset(b.base, 0xDD, a + b.room);
        std::free(b.base);
    }
};

/// The ledger as a CETL memory resource.
class Res final : public cetl::pf17::pmr::memory_resource
{
public:
    Ledger      led;
    std::size_t max_bytes = std::numeric_limits<std::size_t>::max();
    int         equal_class = -1;  // resources with the same non-negative class compare equal

private:
    void* do_allocate(std::size_t n, std::size_t a) override { return led.allocate(n, a); }
    void  do_deallocate(void* p, std::size_t n, std::size_t a) override { led.deallocate(p, n, a); }
    bool  do_is_equal(const cetl::pf17::pmr::memory_resource& o) const noexcept override
    {
        return &o == this;
    }
    std::size_t do_max_size() const noexcept override { return max_bytes; }
    void*       do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t a) override { return led.reallocate(p, o, n, a); }
};

}  // namespace mem
