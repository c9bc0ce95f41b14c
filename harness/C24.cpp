// C24: the o1heap memory resource over a stand-in heap.
#include "blocks.hpp"
#include "o1heap/o1heap.h"

#include "cetl/pmr/o1heap_memory_resource_delegate.hpp"

namespace
{
struct Heap
{
    std::map<char*, std::size_t> live;
};
std::map<const O1HeapInstance*, Heap>& heaps()
{
    static std::map<const O1HeapInstance*, Heap> h;
    return h;
}
const O1HeapInstance*& last()
{
    static const O1HeapInstance* p = nullptr;
    return p;
}
std::string& misuse()
{
    static std::string s;
    return s;
}
constexpr std::size_t kUnit = O1HEAP_ALIGNMENT;
}  // namespace

O1HeapInstance* o1heapInit(void* base, std::size_t size)
{
    const std::size_t own = (sizeof(O1HeapInstance) + kUnit - 1) / kUnit * kUnit;
    if (base == nullptr || reinterpret_cast<std::uintptr_t>(base) % kUnit != 0 || size < own + 2 * kUnit)
    {
        return nullptr;
    }
    auto* h  = static_cast<O1HeapInstance*>(base);
    *h       = O1HeapInstance{};
    h->begin = static_cast<char*>(base) + own;
    h->end   = static_cast<char*>(base) + size / kUnit * kUnit;
    heaps()[h] = Heap{};
    last()     = h;
    PBT_POISON(h->begin, static_cast<std::size_t>(h->end - h->begin));
    return h;
}
void* o1heapAllocate(O1HeapInstance* h, std::size_t amount)
{
    auto it = heaps().find(h);
    if (it == heaps().end())
    {
        misuse() = "o1heapAllocate with a handle that is not a heap";
        return nullptr;
    }
    if (amount == 0 || amount > static_cast<std::size_t>(h->end - h->begin))
    {
        return nullptr;
    }
    // one unit of header in front of every block, blocks at odd multiples of the alignment
    const std::size_t need = (amount + kUnit - 1) / kUnit * kUnit;
    char*             p    = h->begin;
    auto              next = it->second.live.begin();
    for (;;)
    {
        char* q = p + kUnit;
        if (reinterpret_cast<std::uintptr_t>(q) % (2 * kUnit) == 0)
        {
            q += kUnit;
        }
        char* const limit = next == it->second.live.end() ? h->end : next->first - kUnit;
        if (q + need <= limit)
        {
            it->second.live[q] = amount;
            ++h->allocations;
            PBT_UNPOISON(q, amount);
            return q;
        }
        if (next == it->second.live.end())
        {
            return nullptr;
        }
        p = next->first + (next->second + kUnit - 1) / kUnit * kUnit;
        ++next;
    }
}
void o1heapFree(O1HeapInstance* h, void* p)
{
    if (p == nullptr)
    {
        return;
    }
    auto it = heaps().find(h);
    if (it == heaps().end() || it->second.live.count(static_cast<char*>(p)) == 0)
    {
        misuse() = "o1heapFree of a pointer that is not allocated in this heap";
        return;
    }
    PBT_POISON(p, it->second.live[static_cast<char*>(p)]);
    it->second.live.erase(static_cast<char*>(p));
    ++h->frees;
}

namespace
{
using R = cetl::pmr::UnsynchronizedO1HeapMemoryResourceDelegate;

struct Subject
{
    std::unique_ptr<R>    r;
    const O1HeapInstance* heap;
    char*                 base;
    std::size_t           size;
    mem::Blocks           blocks;
};
struct Arena
{
    char* p;
    explicit Arena(std::size_t n) : p(static_cast<char*>(::aligned_alloc(64, n))) {}
    Arena(const Arena&) = delete;
    ~Arena()
    {
        PBT_UNPOISON(p, 4096);
        std::free(p);
    }
};
template <std::size_t N>
struct Storage
{
    cetl::pmr::O1HeapAlignedStorage<N> s;
};

void history(pbt::Case& c)
{
    misuse().clear();
    heaps().clear();
    std::vector<std::unique_ptr<Arena>> arenas;
    static cetl::pmr::O1HeapAlignedStorage<512> st1;
    static cetl::pmr::O1HeapAlignedStorage<1000> st2;
    struct Unpoison
    {
        ~Unpoison()
        {
            PBT_UNPOISON(&st1, sizeof(st1));
            PBT_UNPOISON(&st2, sizeof(st2));
            heaps().clear();
        }
    } unpoison;
    std::vector<Subject> s;
    const auto           count = 1 + c.below(2);
    for (std::uint64_t i = 0; i < count; ++i)
    {
        Subject x;
        if (c.chance(1, 3))
        {
            const bool first = i == 0;
            c.log("heap %d on an O1HeapAlignedStorage", static_cast<int>(i));
            PBT_CHECK(reinterpret_cast<std::uintptr_t>(&st1) % O1HEAP_ALIGNMENT == 0 && sizeof(st1.storage) >= 512 && sizeof(st2.storage) >= 1000,
                      "O1HeapAlignedStorage is misaligned or too small");
            x.size = first ? 512 : 1000;
            x.base = first ? reinterpret_cast<char*>(&st1.storage) : reinterpret_cast<char*>(&st2.storage);
            x.r.reset(first ? new R(st1) : new R(st2));
        }
        else
        {
            x.size = static_cast<std::size_t>(c.range(200, 3000));
            arenas.emplace_back(new Arena(4096));
            x.base = arenas.back()->p;
            c.log("heap %d of %zu bytes", static_cast<int>(i), x.size);
            x.r.reset(new R(x.base, x.size));
        }
        x.heap = last();
        PBT_CHECK(reinterpret_cast<const char*>(x.heap) == x.base, "the heap is not in the given storage");
        PBT_CHECK(x.heap->end <= x.base + x.size && x.heap->end + 2 * kUnit > x.base + x.size, "the heap does not span the given storage");
        s.push_back(std::move(x));
    }
    int       served = 0, refused = 0, freed = 0;
    const int n = static_cast<int>(c.range(1, c.thorough() ? 80 : 40));
    for (int i = 0; i < n; ++i)
    {
        const auto  k  = static_cast<std::size_t>(c.below(s.size()));
        Subject&    x  = s[k];
        const char* op = "allocate";
        std::vector<std::size_t> counts;
        for (auto& y : s)
        {
            counts.push_back(heaps()[y.heap].live.size());
        }
        if (c.weighted({3, 2}) == 0)
        {
            const std::size_t size  = mem::pick_size(c, {x.size, x.size / 2}, 200);
            const std::size_t align = std::size_t{1} << c.below(9);
            const bool        dflt  = align == alignof(std::max_align_t) && c.boolean();
            c.log("heap %zu: allocate(%zu, %zu)", k, size, align);
            void*          p     = nullptr;
            const auto     before = x.heap->allocations;
            const trk::Res r     = trk::attempt([&] { p = dflt ? x.r->allocate(size) : x.r->allocate(size, align); });
            PBT_CHECK(misuse().empty(), "%s", misuse().c_str());
            if (p != nullptr)
            {
                PBT_CHECK(r == trk::Res::Ok && x.heap->allocations == before + 1, "%s: memory did not come from the heap", op);
                auto& live = heaps()[x.heap].live;
                PBT_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0, "%s(%zu, %zu): the block is not aligned", op, size, align);
                auto it = live.upper_bound(static_cast<char*>(p));
                PBT_CHECK(it != live.begin(), "%s: the block is not in the heap", op);
                --it;
                PBT_CHECK(static_cast<char*>(p) + size <= it->first + it->second, "%s(%zu): the heap was asked for %zu bytes only", op, size, it->second);
                x.blocks.add(op, p, size, align, 0);
                ++served;
            }
            else
            {
                PBT_CHECK(!PBT_EXC || r == trk::Res::BadAlloc, "%s(%zu, %zu) failed without bad_alloc", op, size, align);
                PBT_CHECK(PBT_EXC || r == trk::Res::Ok, "%s threw", op);
                PBT_CHECK(heaps()[x.heap].live.size() == counts[k], "%s(%zu, %zu) failed but kept a block of the heap", op, size, align);
                if (align <= O1HEAP_ALIGNMENT && size > 0)
                {
                    void* const q = o1heapAllocate(const_cast<O1HeapInstance*>(x.heap), size);
                    PBT_CHECK(q == nullptr, "%s(%zu, %zu) failed although the heap can serve it", op, size, align);
                }
                ++refused;
            }
        }
        else if (!x.blocks.v.empty())
        {
            op              = "deallocate";
            const auto      j = static_cast<std::size_t>(c.below(x.blocks.v.size()));
            const mem::Live b = x.blocks.v[j];
            c.log("heap %zu: deallocate(p, %zu)", k, b.size);
            if (b.align == alignof(std::max_align_t) && c.boolean())
            {
                x.r->deallocate(b.p, b.size);
            }
            else
            {
                x.r->deallocate(b.p, b.size, b.align);
            }
            PBT_CHECK(misuse().empty(), "%s", misuse().c_str());
            PBT_CHECK(heaps()[x.heap].live.size() + 1 == counts[k], "deallocate did not free the block");
            x.blocks.erase(j);
            ++freed;
        }
        for (std::size_t j = 0; j < s.size(); ++j)
        {
            PBT_CHECK(j == k || heaps()[s[j].heap].live.size() == counts[j], "%s used another heap", op);
            s[j].blocks.verify(op);
            PBT_CHECK(heaps()[s[j].heap].live.size() == s[j].blocks.v.size(), "heap %zu has %zu blocks instead of %zu", j, heaps()[s[j].heap].live.size(),
                      s[j].blocks.v.size());
        }
        PBT_CHECK(x.r->max_size() <= x.size, "max_size() is more than the storage");
    }
    for (auto& x : s)
    {
        for (const auto& b : x.blocks.v)
        {
            x.r->deallocate(b.p, b.size, b.align);
        }
        PBT_CHECK(misuse().empty(), "%s", misuse().c_str());
        PBT_CHECK(heaps()[x.heap].live.empty(), "blocks are left in the heap");
    }
    if (served >= 2 && (refused > 0 || freed > 0))
    {
        c.nontrivial();
    }
}
}  // namespace
PBT_TARGET(o1heap, history, 30000, 500000);
