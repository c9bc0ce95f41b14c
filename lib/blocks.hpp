// Live blocks handed out by a memory resource under test: alignment, disjointness, contents.
#pragma once
#include "mem.hpp"

#include <cstdint>

namespace mem
{
struct Live
{
    char*         p;
    std::size_t   size;
    std::size_t   align;
    unsigned char seed;
    int           from;  // meaning defined by the harness
};

class Blocks
{
public:
    std::vector<Live> v;

    /// Checks a new block against all others and fills it.
    Live& add(const char* op, void* vp, std::size_t size, std::size_t align, int from)
    {
        char* p = static_cast<char*>(vp);
        PBT_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0, "%s: block at %p is not aligned to %zu", op, vp, align);
        for (const auto& b : v)
        {
            PBT_CHECK(p + size <= b.p || b.p + b.size <= p, "%s: a block of %zu bytes overlaps a live block of %zu bytes", op, size, b.size);
            PBT_CHECK(size == 0 || b.size == 0 || p != b.p, "%s: two live blocks at the same address", op);
        }
        Live l{p, size, align, static_cast<unsigned char>(next_ += 37), from};
        fill(l);
        v.push_back(l);
        return v.back();
    }
    static void fill(const Live& l)
    {
        for (std::size_t i = 0; i < l.size; ++i)
        {
            l.p[i] = static_cast<char>(l.seed + i * 11);
        }
    }
    static bool holds(const Live& l, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            if (l.p[i] != static_cast<char>(l.seed + i * 11))
            {
                return false;
            }
        }
        return true;
    }
    void verify(const char* op) const
    {
        for (const auto& b : v)
        {
            PBT_CHECK(holds(b, b.size), "%s: the contents of a live block of %zu bytes changed", op, b.size);
        }
    }
    void erase(std::size_t i) { v.erase(v.begin() + static_cast<std::ptrdiff_t>(i)); }

private:
    unsigned next_ = 1;
};

/// Size of a request: small, near a boundary, or impossible.
inline std::size_t pick_size(pbt::Case& c, std::initializer_list<std::size_t> interesting, std::size_t small_max)
{
    switch (c.weighted({6, 5, 1}))
    {
    case 0:
        return static_cast<std::size_t>(c.range(0, static_cast<std::int64_t>(small_max)));
    case 1: {
        const auto        i = static_cast<std::size_t>(c.below(interesting.size()));
        const std::size_t n = *(interesting.begin() + i);
        const std::size_t d = static_cast<std::size_t>(c.below(5));
        return n + d >= 2 ? n + d - 2 : 0;
    }
    default:
        return std::numeric_limits<std::size_t>::max() - static_cast<std::size_t>(c.below(3)) * (std::size_t{1} << c.below(63));
    }
}
}  // namespace mem
