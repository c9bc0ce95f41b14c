// Instrumented elements, fault injection and allocation ledgers shared by the harnesses.
#pragma once
#include "pbt.hpp"

#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define PBT_ASAN 1
#    endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#    define PBT_ASAN 1
#endif
#ifdef PBT_ASAN
#    include <sanitizer/asan_interface.h>
#    define PBT_POISON(p, n) ASAN_POISON_MEMORY_REGION((p), (n))
#    define PBT_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION((p), (n))
#else
#    define PBT_POISON(p, n) ((void) (p), (void) (n))
#    define PBT_UNPOISON(p, n) ((void) (p), (void) (n))
#endif

#if defined(__cpp_exceptions)
#    define PBT_EXC 1
#else
#    define PBT_EXC 0
#endif

namespace trk
{

// ---------------------------------------------------------------------------------------------------------------------
// Throw injection

struct Boom
{
    int id;
};

struct World
{
    std::int64_t throw_in = -1;     // countdown of throwing points, -1: off
    bool         thrown   = false;  // the injected exception was thrown since arm()
    std::int64_t live     = 0;      // instrumented objects alive
    std::int64_t made     = 0;      // instrumented objects ever constructed
    std::int64_t points   = 0;      // throwing points passed
};
inline World& world()
{
    static World w;
    return w;
}
inline void reset_world()
{
    world() = World{};
}
inline void arm(std::int64_t countdown)
{
    world().throw_in = countdown;
    world().thrown   = false;
}
inline void disarm()
{
    world().throw_in = -1;
}
/// Every point at which an instrumented operation may throw.
inline void tick()
{
    World& w = world();
    ++w.points;
    if (w.throw_in >= 0)
    {
        if (w.throw_in == 0)
        {
            w.throw_in = -1;
            w.thrown   = true;
#if PBT_EXC
            throw Boom{7};
#endif
        }
        else
        {
            --w.throw_in;
        }
    }
}

enum class Res
{
    Ok,
    Length,
    BadAlloc,
    Boom,
    Range,
    Other
};
inline const char* name(Res r)
{
    switch (r)
    {
    case Res::Ok:
        return "ok";
    case Res::Length:
        return "length_error";
    case Res::BadAlloc:
        return "bad_alloc";
    case Res::Boom:
        return "element exception";
    case Res::Range:
        return "out_of_range";
    default:
        return "other exception";
    }
}
template <typename F>
Res attempt(F&& f)
{
#if PBT_EXC
    try
    {
        f();
        return Res::Ok;
    } catch (const Boom&)
    {
        return Res::Boom;
    } catch (const std::length_error&)
    {
        return Res::Length;
    } catch (const std::out_of_range&)
    {
        return Res::Range;
    } catch (const std::bad_alloc&)
    {
        return Res::BadAlloc;
    } catch (...)
    {
        return Res::Other;
    }
#else
    f();
    return Res::Ok;
#endif
}

// ---------------------------------------------------------------------------------------------------------------------
// Instrumented element. It knows its own address, so byte-wise relocation, double destruction, use of raw memory and
// use after destruction are all visible.

enum Flavor : unsigned
{
    Copyable     = 1,
    Movable      = 2,
    NothrowMove  = 4,
    NothrowCopy  = 8,
    Full         = Copyable | Movable | NothrowMove,
    ThrowingMove = Copyable | Movable,
    MoveOnly     = Movable | NothrowMove,
    MoveOnlyThrowing = Movable,
    CopyOnly     = Copyable
};

constexpr std::uint32_t kAlive = 0xA11FE123U;
constexpr std::uint32_t kDead  = 0xDEADDEADU;
constexpr int           kMoved = -77;

class Core
{
public:
    explicit Core(int v)
    {
        birth(v);
    }
    ~Core()
    {
        check("destructor");
        magic_ = kDead;
        --world().live;
    }
    Core(const Core&)            = delete;
    Core& operator=(const Core&) = delete;

    int get() const
    {
        check("read");
        return value_;
    }
    void set(int v)
    {
        check("write");
        value_ = v;
    }
    bool alive() const
    {
        return magic_ == kAlive && self_ == this;
    }

private:
    void birth(int v)
    {
        magic_ = kAlive;
        self_  = this;
        value_ = v;
        ++world().live;
        ++world().made;
    }
    void check(const char* what) const
    {
        if (magic_ == kDead)
        {
            pbt::fail("%s of a destroyed object", what);
        }
        if (magic_ != kAlive)
        {
            pbt::fail("%s of an object that was never constructed", what);
        }
        if (self_ != this)
        {
            pbt::fail("%s of an object that was relocated byte by byte", what);
        }
    }
    std::uint32_t magic_;
    int           value_;
    const Core*   self_;
};

template <unsigned F>
class Elem;

// C++14 needs one class per copy/move combination.
#define TRK_COMMON(Class)                                                                                              \
    Core core;                                                                                                         \
    explicit Class(int v)                                                                                              \
        : core((tick(), v))                                                                                            \
    {                                                                                                                  \
    }                                                                                                                  \
    Class()                                                                                                            \
        : core((tick(), 0))                                                                                            \
    {                                                                                                                  \
    }                                                                                                                  \
    int  get() const { return core.get(); }                                                                            \
    friend bool operator==(const Class& a, const Class& b) { return a.get() == b.get(); }                              \
    friend bool operator!=(const Class& a, const Class& b) { return a.get() != b.get(); }

/// Copies may throw, moves do not.
template <>
class Elem<Full>
{
public:
    static void* operator new(std::size_t) = delete;  // lives only where it is put
    TRK_COMMON(Elem)
    Elem(const Elem& o)
        : core((tick(), o.get()))
    {
    }
    Elem(Elem&& o) noexcept
        : core(o.get())
    {
        o.core.set(kMoved);
    }
    Elem& operator=(const Elem& o)
    {
        tick();
        core.set(o.get());
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept
    {
        const int v = o.get();
        o.core.set(kMoved);
        core.set(v);
        return *this;
    }
};

/// Both may throw.
template <>
class Elem<ThrowingMove>
{
public:
    static void* operator new(std::size_t) = delete;  // lives only where it is put
    TRK_COMMON(Elem)
    Elem(const Elem& o)
        : core((tick(), o.get()))
    {
    }
    Elem(Elem&& o)
        : core((tick(), o.get()))
    {
        o.core.set(kMoved);
    }
    Elem& operator=(const Elem& o)
    {
        tick();
        core.set(o.get());
        return *this;
    }
    Elem& operator=(Elem&& o)
    {
        tick();
        const int v = o.get();
        o.core.set(kMoved);
        core.set(v);
        return *this;
    }
};

template <>
class Elem<MoveOnly>
{
public:
    static void* operator new(std::size_t) = delete;  // lives only where it is put
    TRK_COMMON(Elem)
    Elem(const Elem&) = delete;
    Elem(Elem&& o) noexcept
        : core(o.get())
    {
        o.core.set(kMoved);
    }
    Elem& operator=(const Elem&) = delete;
    Elem& operator=(Elem&& o) noexcept
    {
        const int v = o.get();
        o.core.set(kMoved);
        core.set(v);
        return *this;
    }
};

template <>
class Elem<MoveOnlyThrowing>
{
public:
    static void* operator new(std::size_t) = delete;  // lives only where it is put
    TRK_COMMON(Elem)
    Elem(const Elem&) = delete;
    Elem(Elem&& o)
        : core((tick(), o.get()))
    {
        o.core.set(kMoved);
    }
    Elem& operator=(const Elem&) = delete;
    Elem& operator=(Elem&& o)
    {
        tick();
        const int v = o.get();
        o.core.set(kMoved);
        core.set(v);
        return *this;
    }
};

template <>
class Elem<CopyOnly>
{
public:
    static void* operator new(std::size_t) = delete;  // lives only where it is put
    TRK_COMMON(Elem)
    Elem(const Elem& o)
        : core((tick(), o.get()))
    {
    }
    Elem& operator=(const Elem& o)
    {
        tick();
        core.set(o.get());
        return *this;
    }
};

// ---------------------------------------------------------------------------------------------------------------------
// Arena: a heap with a ledger, on-demand failure, and (optionally) in-place or relocating reallocation.

struct Block
{
    std::size_t n;          // count it was requested with
    std::size_t bytes;      // n * element size
    std::size_t real;       // bytes really available
    std::size_t align;
};

enum class Realloc
{
    Never,
    InPlace,
    Relocate,
    Mixed
};

class Arena
{
public:
    int                    id       = 0;
    std::size_t            max_n    = std::numeric_limits<std::size_t>::max();  // allocator max_size in elements
    Realloc                realloc_mode = Realloc::Never;
    Arena*                 soccc    = nullptr;
    std::int64_t           fail_in  = -1;     // countdown of allocations, -1: off
    bool                   fail_rest = false; // keep failing once failed (until disarm)
    bool                   failed   = false;
    std::uint64_t          rng      = 1;
    std::map<void*, Block> blocks;
    std::string            error;             // first ledger violation
    std::uint64_t          requests = 0;
    std::uint64_t          reallocs = 0;
    Arena*                 next     = nullptr;  // ring of all arenas, to find foreign blocks

    ~Arena()
    {
        for (auto& b : blocks)
        {
            PBT_UNPOISON(b.first, b.second.real);
            std::free(b.first);
        }
    }
    void arm_failure(std::int64_t in, bool rest)
    {
        fail_in   = in;
        fail_rest = rest;
        failed    = false;
    }
    void disarm_failure()
    {
        fail_in   = -1;
        fail_rest = false;
    }
    bool should_fail()
    {
        if (fail_in < 0)
        {
            return false;
        }
        if (fail_in == 0)
        {
            failed = true;
            if (!fail_rest)
            {
                fail_in = -1;
            }
            return true;
        }
        --fail_in;
        return false;
    }
    void note(const std::string& e)
    {
        if (error.empty())
        {
            error = e;
        }
    }

    void* allocate(std::size_t n, std::size_t elem, std::size_t align)
    {
        ++requests;
        if (n > max_n || n > (1U << 20) || should_fail())
        {
            failed = true;
#if PBT_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        const std::size_t bytes = n * elem;
        std::size_t       real  = bytes;
        if (realloc_mode == Realloc::InPlace || realloc_mode == Realloc::Mixed)
        {
            real += (next_random() % 8) * elem;
        }
        if (blocks.size() > 20000)
        {
            pbt::fail("allocations without end (%zu blocks are live)", blocks.size());
        }
        void* p = raw(real, align);
        blocks[p] = Block{n, bytes, real, align};
        std::memset(p, 0xCD, real);
        PBT_POISON(static_cast<char*>(p) + bytes, real - bytes);
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t elem)
    {
        if (p == nullptr)
        {
            note(pbt::format("deallocate(null, %zu)", n));
            return;
        }
        Arena* a = this;
        do
        {
            auto it = a->blocks.find(p);
            if (it != a->blocks.end())
            {
                if (a != this)
                {
                    note(pbt::format("block of allocator %d was returned to allocator %d", a->id, id));
                }
                if (it->second.n != n || it->second.bytes != n * elem)
                {
                    note(pbt::format("block requested with %zu element(s) was returned with %zu", it->second.n, n));
                }
                PBT_UNPOISON(p, it->second.real);
                std::memset(p, 0xDD, it->second.real);
                std::free(p);
                a->blocks.erase(it);
                return;
            }
            a = a->next;
        } while (a != nullptr && a != this);
        note("a block that is not allocated was returned");
        pbt::fail("deallocate of memory that is not allocated (double free or foreign block)");
    }
    void* reallocate(void* p, std::size_t old_n, std::size_t new_n, std::size_t elem, std::size_t align)
    {
        ++reallocs;
        if (new_n > max_n || new_n > (1U << 20))
        {
            return nullptr;
        }
        Realloc m = realloc_mode;
        if (m == Realloc::Mixed)
        {
            m = static_cast<Realloc>(next_random() % 3);
        }
        if (m == Realloc::Never)
        {
            return nullptr;
        }
        if (p == nullptr)
        {
            if (old_n != 0)
            {
                note("reallocate(null) with a size");
            }
            return nullptr;
        }
        auto it = blocks.find(p);
        if (it == blocks.end())
        {
            pbt::fail("reallocate of memory that is not allocated from this allocator");
        }
        if (it->second.n != old_n)
        {
            note(pbt::format("block requested with %zu element(s) was reallocated with %zu", it->second.n, old_n));
        }
        const std::size_t bytes = new_n * elem;
        if (bytes <= it->second.real && (m == Realloc::InPlace || next_random() % 2 == 0))
        {
            PBT_UNPOISON(p, it->second.real);
            PBT_POISON(static_cast<char*>(p) + bytes, it->second.real - bytes);
            it->second.n     = new_n;
            it->second.bytes = bytes;
            return p;
        }
        if (m == Realloc::InPlace || should_fail())
        {
            return nullptr;
        }
        const Block old = it->second;
        void*       q   = raw(bytes, align);
        std::memset(q, 0xCD, bytes);
        std::memcpy(q, p, std::min(old.bytes, bytes));
        blocks.erase(it);
        PBT_UNPOISON(p, old.real);
        std::memset(p, 0xDD, old.real);
        std::free(p);
        blocks[q] = Block{new_n, bytes, bytes, align};
        return q;
    }

private:
    std::uint64_t next_random()
    {
        rng = pbt::mix(rng);
        return rng >> 8;
    }
    static void* raw(std::size_t bytes, std::size_t align)
    {
        void* p = nullptr;
        if (posix_memalign(&p, std::max<std::size_t>(align, sizeof(void*)), std::max<std::size_t>(bytes, 1)) != 0)
        {
            std::abort();
        }
        return p;
    }
};

/// Allocator over an arena. Flags: bit 0 POCCA, bit 1 POCMA, bit 2 has reallocate, bit 3 always equal (use one arena only).
template <typename T, unsigned Flags>
class Alloc
{
public:
    using value_type                             = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (Flags & 1U) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (Flags & 2U) != 0>;
    using is_always_equal                        = std::integral_constant<bool, (Flags & 8U) != 0>;
    template <typename U>
    struct rebind
    {
        using other = Alloc<U, Flags>;
    };

    explicit Alloc(Arena* a) noexcept
        : arena(a)
    {
    }
    template <typename U>
    Alloc(const Alloc<U, Flags>& o) noexcept
        : arena(o.arena)
    {
    }
    Alloc(const Alloc&) noexcept            = default;
    Alloc& operator=(const Alloc&) noexcept = default;

    T* allocate(std::size_t n)
    {
        return static_cast<T*>(arena->allocate(n, sizeof(T), alignof(T)));
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        arena->deallocate(p, n, sizeof(T));
    }
    template <unsigned G = Flags, typename = std::enable_if_t<(G & 4U) != 0>>
    T* reallocate(T* p, std::size_t old_n, std::size_t new_n)
    {
        return static_cast<T*>(arena->reallocate(static_cast<void*>(p), old_n, new_n, sizeof(T), alignof(T)));
    }
    std::size_t max_size() const noexcept
    {
        return arena->max_n;
    }
    Alloc select_on_container_copy_construction() const
    {
        return Alloc(arena->soccc != nullptr ? arena->soccc : arena);
    }
    friend bool operator==(const Alloc& a, const Alloc& b) noexcept
    {
        return a.arena == b.arena;
    }
    friend bool operator!=(const Alloc& a, const Alloc& b) noexcept
    {
        return a.arena != b.arena;
    }
    Arena* arena;
};

}  // namespace trk
