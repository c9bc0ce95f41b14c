// C25: containers, variants, functions and owning pointers over stacks of memory resources that share each other.
#include "mem.hpp"

#include "cetl/pf17/array_memory_resource.hpp"
#include "cetl/pf17/buffer_memory_resource.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/pmr/function.hpp"
#include "cetl/pmr/interface_ptr.hpp"
#include "cetl/pmr/memory.hpp"
#include "cetl/unbounded_variant.hpp"
#include "cetl/variable_length_array.hpp"

#include <list>

namespace
{
using Pmr = cetl::pf17::pmr::memory_resource;
template <typename T>
using PA = cetl::pf17::pmr::polymorphic_allocator<T>;
template <typename T>
using Vla   = cetl::VariableLengthArray<T, PA<T>>;
using Elem  = trk::Elem<trk::Full>;
using Var   = cetl::unbounded_variant<16, true, true, alignof(std::max_align_t), Pmr>;
using Lean  = cetl::unbounded_variant<16, true, true, 8, Pmr>;  // another alignment than the usual one
using Func  = cetl::pmr::function<long(long), 24, Pmr>;

/// Sits on top of a resource and watches what goes through: sizes, alignments, disjointness, balance.
class Probe final : public Pmr
{
public:
    Pmr* up          = nullptr;
    int  id          = 0;
    bool may_realloc = true;
    bool failed      = false;
    struct B
    {
        std::size_t n, a;
    };
    std::map<char*, B> live;

private:
    void added(void* vp, std::size_t n, std::size_t a)
    {
        char* p = static_cast<char*>(vp);
        if (reinterpret_cast<std::uintptr_t>(p) % a != 0)
        {
            mem::note(pbt::format("resource %d: a block is not aligned to %zu", id, a));
        }
        if (n > 0)
        {
            auto it = live.upper_bound(p);
            if (it != live.end() && p + n > it->first && it->second.n > 0)
            {
                mem::note(pbt::format("resource %d: a block of %zu bytes overlaps a live one", id, n));
            }
            if (it != live.begin())
            {
                --it;
                if (it->first + it->second.n > p)
                {
                    mem::note(pbt::format("resource %d: a block of %zu bytes overlaps a live one of %zu", id, n, it->second.n));
                }
            }
            std::memset(vp, 0xEE, n);  // every byte is usable
            live[p] = B{n, a};
        }
    }
    void* do_allocate(std::size_t n, std::size_t a) override
    {
#if PBT_EXC
        try
        {
#endif
            void* const p = up->allocate(n, a);
            if (p == nullptr)
            {
                failed = failed || n > 0;
                return p;
            }
            added(p, n, a);
            return p;
#if PBT_EXC
        } catch (...)
        {
            failed = true;
            throw;
        }
#endif
    }
    void do_deallocate(void* vp, std::size_t n, std::size_t a) override
    {
        char* p = static_cast<char*>(vp);
        if (n > 0)
        {
            auto it = live.find(p);
            if (it == live.end())
            {
                pbt::fail("resource %d: deallocation of %zu bytes that are not allocated", id, n);
            }
            if (it->second.n != n || it->second.a != a)
            {
                mem::note(pbt::format("resource %d: a block requested as (%zu, %zu) was returned as (%zu, %zu)", id, it->second.n, it->second.a, n, a));
            }
            live.erase(it);
            std::memset(vp, 0xDD, n);
        }
        up->deallocate(vp, n, a);
    }
    bool        do_is_equal(const Pmr& o) const noexcept override { return this == &o; }
    std::size_t do_max_size() const noexcept override { return up->max_size(); }
    void*       do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t a) override
    {
        if (!may_realloc)
        {
            return nullptr;
        }
        auto it = live.find(static_cast<char*>(p));
        if (o > 0 && (it == live.end() || it->second.n != o || it->second.a != a))
        {
            pbt::fail("resource %d: reallocation of a block that was not handed out like that", id);
        }
        std::vector<char> before(static_cast<char*>(p), static_cast<char*>(p) + std::min(o, n));
        void* const       q = up->reallocate(p, o, n, a);
        if (q != nullptr)
        {
            live.erase(static_cast<char*>(p));
            if (!before.empty() && std::memcmp(q, before.data(), before.size()) != 0)
            {
                mem::note(pbt::format("resource %d: reallocation from %zu to %zu bytes lost the contents", id, o, n));
            }
            added(q, n, a);
            std::copy(before.begin(), before.end(), static_cast<char*>(q));
        }
        return q;
    }
};

struct Range
{
    const char* p;
    std::size_t n;
    std::size_t a;
    int         slot;
};

struct alignas(32) Wide
{
    double d[5];
};
struct Big
{
    explicit Big(int v) : e(v)
    {
        for (int i = 0; i < 20; ++i)
        {
            body[i] = v + i;
        }
    }
    Elem e;
    int  body[20];
    int  get() const
    {
        for (int i = 0; i < 20; ++i)
        {
            PBT_CHECK(body[i] == body[0] + i, "the body of an object changed");
        }
        return e.get();
    }
};
struct IFace
{
    virtual int id() const = 0;

protected:
    ~IFace() = default;
};
struct Other
{
    long filler      = 77;
    virtual ~Other() = default;
};
struct Concrete final : Other, IFace
{
    explicit Concrete(int v) : e(v) {}
    int  id() const override { return e.get(); }
    Elem e;
    int  pad[9];
};
struct alignas(64) Aligned
{
    explicit Aligned(int v) : e(v) {}
    int  get() const { return e.get(); }
    Elem e;
};
}  // namespace

// identifiers of the types stored in unbounded variants
constexpr cetl::type_id ID(unsigned char x)
{
    return cetl::type_id{0x25, x};
}
namespace cetl
{
template <>
constexpr type_id type_id_getter<int>() noexcept
{
    return ID(1);
}
template <>
constexpr type_id type_id_getter<Elem>() noexcept
{
    return ID(2);
}
template <>
constexpr type_id type_id_getter<Big>() noexcept
{
    return ID(3);
}
template <>
constexpr type_id type_id_getter<Vla<int>>() noexcept
{
    return ID(4);
}
template <>
constexpr type_id type_id_getter<Func>() noexcept
{
    return ID(5);
}
}  // namespace cetl

namespace
{
using Values = std::vector<int>;
constexpr int kNone = -99999;  // element of an array of variants without value

struct World;

/// What is asked of one live thing.
struct Slot
{
    World& w;
    int    id = 0;
    explicit Slot(World& ww) : w(ww) {}
    virtual ~Slot()                                     = default;
    virtual const char* kind() const                    = 0;
    virtual void        step()                          = 0;
    virtual void        verify()                        = 0;
    virtual void        ranges(std::vector<Range>&)     = 0;
    virtual std::size_t tracked() const                 = 0;  // instrumented objects it must own
};

struct World
{
    pbt::Case&                          c;
    mem::Res                            bottom;
    std::vector<std::unique_ptr<char[]>> buffers;
    std::vector<std::unique_ptr<Pmr>>   layers;
    std::vector<std::unique_ptr<Probe>> probes;   // between the layers
    std::vector<Probe*>                 plain;    // may reallocate
    std::vector<Probe*>                 steady;   // never reallocate
    std::vector<std::unique_ptr<Slot>>  slots;
    bool                                faulty;
    bool                                soft = false;  // the last operation had a reason to fail
    int                                 done = 0, failures = 0;
    trk::Res                            last = trk::Res::Ok;

    explicit World(pbt::Case& cc) : c(cc) {}

    Probe* probe(Pmr* up, bool may_realloc)
    {
        probes.emplace_back(new Probe);
        Probe* p       = probes.back().get();
        p->up          = up;
        p->id          = static_cast<int>(probes.size());
        p->may_realloc = may_realloc;
        return p;
    }
    Pmr* any(bool may_realloc)
    {
        auto& v = may_realloc ? plain : steady;
        return v[c.below(v.size())];
    }

    template <typename G>
    bool exec(const char* what, bool over_limit, G&& g)
    {
        bottom.led.failed   = false;
        trk::world().thrown = false;
        for (auto& p : probes)
        {
            p->failed = false;
        }
        if (faulty && c.chance(1, 6))
        {
            if (PBT_EXC && c.boolean())
            {
                const auto k = static_cast<std::int64_t>(c.below(4));
                c.log("  (operation %d of an element throws)", static_cast<int>(k));
                trk::arm(k);
            }
            else
            {
                const auto k = static_cast<std::int64_t>(c.below(3));
                c.log("  (allocation %d at the bottom fails)", static_cast<int>(k));
                bottom.led.arm(k, c.boolean());
            }
        }
        last = trk::attempt(std::forward<G>(g));
        trk::disarm();
        bottom.led.disarm();
        mem::check_events();
        soft = over_limit || trk::world().thrown || bottom.led.failed;
        for (auto& p : probes)
        {
            soft = soft || p->failed;
        }
        PBT_CHECK(last == trk::Res::Ok || soft, "%s threw %s although nothing failed", what, trk::name(last));
        PBT_CHECK(last != trk::Res::Other && last != trk::Res::Range, "%s threw an unexpected exception", what);
        ++done;
        failures += soft ? 1 : 0;
        return !soft;
    }
};

// ---------------------------------------------------------------------------------------------------------------------

/// Element types of arrays.
template <typename T>
struct El;
template <>
struct El<int>
{
    static constexpr bool realloc = true;
    static int            make(World&, int v) { return v; }
    static int            read(const int& x) { return x; }
    static std::size_t    tracked(std::size_t) { return 0; }
    static void           inner(const int&, std::vector<Range>&, int) {}
};
template <>
struct El<Wide>
{
    static constexpr bool realloc = true;
    static Wide           make(World&, int v) { return Wide{{double(v), 1.0 + v, 2.0 + v, 3.0 + v, 4.0 + v}}; }
    static int            read(const Wide& x)
    {
        // elements made by resize(n) are zero
        for (int i = 0; i < 5; ++i)
        {
            PBT_CHECK(x.d[i] == x.d[0] + i || (x.d[0] == 0 && x.d[i] == 0), "an element changed");
        }
        return static_cast<int>(x.d[0]);
    }
    static std::size_t tracked(std::size_t) { return 0; }
    static void        inner(const Wide&, std::vector<Range>&, int) {}
};
template <>
struct El<Elem>
{
    static constexpr bool realloc = false;
    static Elem           make(World&, int v) { return Elem(v); }
    static int            read(const Elem& x) { return x.get(); }
    static std::size_t    tracked(std::size_t n) { return n; }
    static void           inner(const Elem&, std::vector<Range>&, int) {}
};
/// Copy assignment of an array needs default constructible elements, which variants over a resource are not.
struct Cell
{
    Cell() : v(cetl::pf17::pmr::get_default_resource()) {}
    explicit Cell(Pmr* r) : v(r) {}
    Lean v;
};
template <>
struct El<Cell>
{
    static constexpr bool realloc = false;
    static Cell           make(World& w, int v)
    {
        Cell r(w.any(false));
        if (v % 2 == 0)
        {
            r.v.emplace<int>(v);
        }
        else
        {
            r.v.emplace<Big>(v);
        }
        return r;
    }
    static int read(const Cell& cell)
    {
        const Lean& x = cell.v;
        if (const int* i = cetl::get_if<int>(&x))
        {
            return *i;
        }
        if (const Big* b = cetl::get_if<Big>(&x))
        {
            return b->get();
        }
        return kNone;
    }
    static std::size_t tracked(std::size_t) { return 0; }  // counted one by one
    static void        inner(const Cell& cell, std::vector<Range>& out, int id)
    {
        const Lean& x = cell.v;
        if (const Big* b = cetl::get_if<Big>(&x))
        {
            out.push_back({reinterpret_cast<const char*>(b), sizeof(Big), alignof(Big), id});
        }
    }
};

template <typename T>
struct ArraySlot final : Slot
{
    using A = Vla<T>;
    std::unique_ptr<A> a;
    Values             m;
    explicit ArraySlot(World& ww) : Slot(ww) { fresh(); }
    const char* kind() const override { return "array"; }

    void fresh()
    {
        Pmr* const r = w.any(El<T>::realloc);
        const bool lim = w.c.chance(1, 3);
        const std::size_t n = w.c.below(12);
        w.c.log("slot %d: array<%s> in resource %d%s", id, name(), static_cast<Probe*>(r)->id, lim ? pbt::format(" max %zu", n).c_str() : "");
        a.reset(lim ? new A(n, PA<T>(r)) : new A(PA<T>(r)));
        m.clear();
    }
    static const char* name() { return std::is_same<T, int>::value ? "int" : std::is_same<T, Wide>::value ? "Wide" : std::is_same<T, Elem>::value ? "Elem" : "Var"; }

    ArraySlot* other();

    void settle(const char* what, const Values& want, bool ok)
    {
        if (ok)
        {
            m = want;
            return;
        }
        // a failed operation leaves every element as it was or as it was to become
        Values got;
        for (const auto& x : *a)
        {
            got.push_back(El<T>::read(x));
        }
        for (std::size_t i = 0; i < got.size(); ++i)
        {
            const bool was  = i < m.size() && got[i] == m[i];
            const bool will = i < want.size() && got[i] == want[i];
            PBT_CHECK(was || will || (std::is_same<T, Cell>::value && got[i] == kNone), "failed %s: element %zu is %d", what, i, got[i]);
        }
        m = got;
    }
    void step() override
    {
        auto&       c = w.c;
        Values      n = m;
        const int   v = static_cast<int>(c.below(1000));
        switch (c.weighted({6, 2, 3, 2, 1, 1, 2, 2, 2, 2, 2, 1, 1}))
        {
        case 0: {
            c.log("slot %d: push_back(%d)", id, v);
            n.push_back(v);
            const bool        over   = n.size() > a->max_size();
            const bool        ok     = w.exec("push_back", over, [&] {
                if (c.boolean())
                {
                    a->push_back(El<T>::make(w, v));
                }
                else
                {
                    const T x = El<T>::make(w, v);
                    a->push_back(x);
                }
            });
            settle("push_back", n, ok);
            break;
        }
        case 1:
            if (!m.empty())
            {
                c.log("slot %d: pop_back()", id);
                a->pop_back();
                m.pop_back();
            }
            break;
        case 2: {
            const std::size_t k = c.below(14);
            c.log("slot %d: resize(%zu, %d)", id, k, v);
            n.resize(k, v);
            settle("resize", n, w.exec("resize", k > a->max_size(), [&] { a->resize(k, El<T>::make(w, v)); }));
            break;
        }
        case 3: {
            const std::size_t k = c.below(20);
            c.log("slot %d: reserve(%zu)", id, k);
            settle("reserve", m, w.exec("reserve", k > a->max_size(), [&] { a->reserve(k); }));
            break;
        }
        case 4:
            c.log("slot %d: shrink_to_fit()", id);
            settle("shrink_to_fit", m, w.exec("shrink_to_fit", false, [&] { a->shrink_to_fit(); }));
            break;
        case 5:
            c.log("slot %d: clear()", id);
            a->clear();
            m.clear();
            break;
        case 6: {
            const std::size_t k = c.below(14);
            c.log("slot %d: assign(%zu, %d)", id, k, v);
            n.assign(k, v);
            settle("assign", n, w.exec("assign", k > a->max_size(), [&] { a->assign(k, El<T>::make(w, v)); }));
            break;
        }
        case 7: {
            ArraySlot* o = other();
            if (o == nullptr)
            {
                return;
            }
            c.log("slot %d = copy of slot %d", id, o->id);
            n = o->m;
            settle("copy assignment", n, w.exec("copy assignment", n.size() > a->max_size() || n.size() > o->a->max_size(), [&] { *a = *o->a; }));
            break;
        }
        case 8: {
            ArraySlot* o = other();
            if (o == nullptr)
            {
                return;
            }
            c.log("slot %d = move of slot %d", id, o->id);
            n = o->m;
            settle("move assignment", n, w.exec("move assignment", n.size() > a->max_size(), [&] { *a = std::move(*o->a); }));
            o->a->clear();
            o->m.clear();
            break;
        }
        case 9: {
            ArraySlot* o = other();
            if (o == nullptr)
            {
                return;
            }
            const bool copy = c.boolean();
            const bool ext  = c.boolean();
            Pmr* const r    = w.any(El<T>::realloc);
            c.log("slot %d: new from %s of slot %d%s", id, copy ? "copy" : "move", o->id, ext ? pbt::format(" in resource %d", static_cast<Probe*>(r)->id).c_str() : "");
            n = o->m;
            std::unique_ptr<A> fresh_one;
            const bool         ok = w.exec("construction", n.size() > r->max_size() / sizeof(T) || n.size() > o->a->max_size() || n.size() > cetl::pf17::pmr::get_default_resource()->max_size() / sizeof(T), [&] {
                if (copy)
                {
                    fresh_one.reset(ext ? new A(*o->a, PA<T>(r)) : new A(*o->a));
                }
                else
                {
                    fresh_one.reset(ext ? new A(std::move(*o->a), PA<T>(r)) : new A(std::move(*o->a)));
                }
            });
            if (!copy)
            {
                o->a->clear();
                o->m.clear();
            }
            if (fresh_one)
            {
                a = std::move(fresh_one);
                m.clear();
                settle("construction", n, ok);
            }
            break;
        }
        case 10:
            if (!m.empty())
            {
                const std::size_t i = c.below(m.size());
                c.log("slot %d: [%zu] = %d", id, i, v);
                n[i] = v;
                settle("write", n, w.exec("write", false, [&] { (*a)[i] = El<T>::make(w, v); }));
            }
            break;
        case 11:
            c.log("slot %d: destroyed", id);
            a.reset();
            fresh();
            break;
        default: {
            const std::size_t k = c.below(10);
            c.log("slot %d: resize(%zu)", id, k);
            n.resize(k, std::is_same<T, Cell>::value ? kNone : 0);
            settle("resize", n, w.exec("resize", k > a->max_size(), [&] { a->resize(k); }));
        }
        }
    }
    void verify() override
    {
        const A& x = *a;
        PBT_CHECK(x.size() == m.size() && x.size() <= x.capacity(), "slot %d: size %zu instead of %zu", id, x.size(), m.size());
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            const int v = El<T>::read(x[i]);
            PBT_CHECK(v == m[i], "slot %d: element %zu is %d instead of %d", id, i, v, m[i]);
        }
    }
    void ranges(std::vector<Range>& out) override
    {
        if (a->capacity() > 0)
        {
            out.push_back({reinterpret_cast<const char*>(a->data()), a->capacity() * sizeof(T), alignof(T), id});
        }
        for (const auto& x : *a)
        {
            El<T>::inner(x, out, id);
        }
    }
    std::size_t tracked() const override
    {
        std::size_t n = El<T>::tracked(m.size());
        if (std::is_same<T, Cell>::value)
        {
            for (int v : m)
            {
                n += v != kNone && v % 2 != 0 ? 1U : 0U;
            }
        }
        return n;
    }
};

struct BitSlot final : Slot
{
    using A = cetl::VariableLengthArray<bool, PA<bool>>;
    std::unique_ptr<A> a;
    std::vector<bool>  m;
    explicit BitSlot(World& ww) : Slot(ww) { a.reset(new A(PA<bool>(w.any(true)))); }
    const char* kind() const override { return "bits"; }
    void        settle(const std::vector<bool>& want, bool ok)
    {
        if (ok)
        {
            m = want;
            return;
        }
        std::vector<bool> got;
        for (std::size_t i = 0; i < a->size(); ++i)
        {
            got.push_back(static_cast<const A&>(*a)[i]);
            PBT_CHECK((i < m.size() && m[i] == got[i]) || (i < want.size() && want[i] == got[i]), "bit %zu after a failure", i);
        }
        m = got;
    }
    void step() override
    {
        auto&             c = w.c;
        std::vector<bool> n = m;
        const bool        v = c.boolean();
        const std::size_t k = c.below(90);
        switch (c.weighted({6, 3, 1, 1, 1, 1}))
        {
        case 0: {
            c.log("slot %d: push bits %zu x %d", id, k % 12, v);
            for (std::size_t i = 0; i < k % 12; ++i)
            {
                n = m;
                n.push_back(v);
                settle(n, w.exec("push_back", n.size() > a->max_size(), [&] { a->push_back(v); }));
            }
            break;
        }
        case 1:
            c.log("slot %d: resize(%zu, %d) bits", id, k, v);
            n.resize(k, v);
            settle(n, w.exec("resize", k > a->max_size(), [&] { a->resize(k, v); }));
            break;
        case 2:
            c.log("slot %d: reserve(%zu) bits", id, k);
            settle(n, w.exec("reserve", k > a->max_size(), [&] { a->reserve(k); }));
            break;
        case 3:
            c.log("slot %d: shrink bits", id);
            settle(n, w.exec("shrink_to_fit", false, [&] { a->shrink_to_fit(); }));
            break;
        case 4:
            if (!m.empty())
            {
                c.log("slot %d: flip bit", id);
                const std::size_t i = k % m.size();
                (*a)[i]             = !m[i];
                m[i]                = !m[i];
            }
            break;
        default:
            c.log("slot %d: bits destroyed", id);
            a.reset();
            a.reset(new A(PA<bool>(w.any(true))));
            m.clear();
        }
    }
    void verify() override
    {
        const A& x = *a;
        PBT_CHECK(x.size() == m.size(), "slot %d: %zu bits instead of %zu", id, x.size(), m.size());
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            PBT_CHECK(x[i] == m[i], "slot %d: bit %zu", id, i);
        }
    }
    void        ranges(std::vector<Range>&) override {}
    std::size_t tracked() const override { return 0; }
};

/// Values that variants and functions hold.
struct Content
{
    int    kind = 0;  // 0: none, 1: int, 2: Elem, 3: Big, 4: array, 5: function
    Values v;
    bool   operator==(const Content& o) const { return kind == o.kind && v == o.v; }
    long   sum() const
    {
        long s = 0;
        for (int x : v)
        {
            s += x;
        }
        return s;
    }
    std::size_t tracked() const { return kind == 2 || kind == 3 || kind == 5 ? 1 : 0; }
};

struct VarSlot final : Slot
{
    std::unique_ptr<Var> x;
    Content              m;
    explicit VarSlot(World& ww) : Slot(ww) { x.reset(new Var(w.any(true))); }
    const char* kind() const override { return "variant"; }
    VarSlot*    other();
    static Content read(const Var& x)
    {
        Content r;
        if (const int* i = cetl::get_if<int>(&x))
        {
            r = Content{1, {*i}};
        }
        else if (const Elem* e = cetl::get_if<Elem>(&x))
        {
            r = Content{2, {e->get()}};
        }
        else if (const Big* b = cetl::get_if<Big>(&x))
        {
            r = Content{3, {b->get()}};
        }
        else if (const Vla<int>* a = cetl::get_if<Vla<int>>(&x))
        {
            r = Content{4, Values(a->begin(), a->end())};
        }
        else if (const Func* f = cetl::get_if<Func>(&x))
        {
            const bool on = static_cast<bool>(*f);
            r             = Content{on ? 5 : 6, {}};
            if (on)
            {
                r.v.push_back(static_cast<int>((*f)(0)));
            }
        }
        return r;
    }
    void settle(const char* what, const Content& want, bool ok)
    {
        const Content got = read(*x);
        if (ok)
        {
            PBT_CHECK(got == want, "slot %d: %s did not store the value (kind %d instead of %d)", id, what, got.kind, want.kind);
            m = want;
            return;
        }
        bool part = got == want || got == m || got.kind == 0 || got.kind == 6;
        if (!part && got.kind == 4 && want.kind == 4 && !PBT_EXC)
        {
            part = got.v.size() <= want.v.size();  // without exceptions an array stops at the memory available
        }
        PBT_CHECK(part, "slot %d: failed %s left another value (kind %d)", id, what, got.kind);
        m = got;
    }
    void step() override
    {
        auto& c = w.c;
        switch (c.weighted({6, 2, 2, 2, 1, 1}))
        {
        case 0: {
            Content n;
            n.kind = 1 + static_cast<int>(c.below(5));
            n.v.push_back(static_cast<int>(c.below(1000)));
            if (n.kind == 4)
            {
                n.v.resize(c.below(9), n.v[0]);
            }
            Pmr* const r = w.any(true);
            c.log("slot %d: emplace kind %d (%zu values)", id, n.kind, n.v.size());
            const bool over = n.v.size() > r->max_size() / sizeof(int) ||
                              n.v.size() > cetl::pf17::pmr::get_default_resource()->max_size() / sizeof(int);
            const bool ok = w.exec("emplace", over, [&] {
                switch (n.kind)
                {
                case 1: (void) x->emplace<int>(n.v[0]); break;
                case 2: (void) x->emplace<Elem>(n.v[0]); break;
                case 3: (void) x->emplace<Big>(n.v[0]); break;
                case 4: {
                    Vla<int> a{PA<int>(r)};
                    for (int y : n.v)
                    {
                        a.push_back(y);
                    }
                    if (c.boolean())
                    {
                        (void) x->emplace<Vla<int>>(std::move(a));
                    }
                    else
                    {
                        *x = std::move(a);
                    }
                    break;
                }
                default: {
                    Big  b(n.v[0]);
                    Func f(r, [b](long y) { return y + b.get(); });
                    (void) x->emplace<Func>(std::move(f));
                }
                }
            });
            settle("emplace", n, ok);
            break;
        }
        case 1:
        case 2: {
            VarSlot* o = other();
            if (o == nullptr)
            {
                return;
            }
            const bool    mv   = c.boolean();
            const Content n    = o->m;
            const bool    over = n.kind == 4 && n.v.size() > cetl::pf17::pmr::get_default_resource()->max_size() / sizeof(int);
            c.log("slot %d = %s of slot %d", id, mv ? "move" : "copy", o->id);
            const bool ok = w.exec("assignment", over, [&] {
                if (mv)
                {
                    *x = std::move(*o->x);
                }
                else
                {
                    *x = *o->x;
                }
            });
            if (mv)
            {
                o->x->reset();
                o->m = Content();
            }
            if (n.kind == 6)
            {
                settle("assignment", n, false);
            }
            else
            {
                settle("assignment", n, ok);
            }
            break;
        }
        case 3: {
            VarSlot* o = other();
            if (o == nullptr)
            {
                return;
            }
            c.log("slot %d swapped with slot %d", id, o->id);
            const Content n = o->m;
            const Content k = m;
            const bool    ok = w.exec("swap", false, [&] { x->swap(*o->x); });
            settle("swap", n, ok);
            if (!ok)
            {
                Content got = read(*o->x);
                PBT_CHECK(got == n || got == k || got.kind == 0 || got.kind == 6, "slot %d: failed swap left another value", o->id);
                o->m = got;
            }
            else
            {
                o->settle("swap", k, ok);
            }
            break;
        }
        case 4:
            c.log("slot %d: reset", id);
            if (c.boolean())
            {
                x->reset();
            }
            else
            {
                x->reset(w.any(true));
            }
            m = Content();
            break;
        default:
            c.log("slot %d: variant destroyed", id);
            x.reset();
            x.reset(new Var(w.any(true)));
            m = Content();
        }
    }
    void verify() override
    {
        const Content got = read(*x);
        PBT_CHECK(got == m, "slot %d: the variant holds kind %d with %zu values (%d) instead of kind %d with %zu (%d)", id, got.kind, got.v.size(),
                  got.v.empty() ? 0 : got.v[0], m.kind, m.v.size(), m.v.empty() ? 0 : m.v[0]);
    }
    void ranges(std::vector<Range>& out) override
    {
        if (const Big* b = cetl::get_if<Big>(x.get()))
        {
            out.push_back({reinterpret_cast<const char*>(b), sizeof(Big), alignof(Big), id});
        }
        if (const Vla<int>* a = cetl::get_if<Vla<int>>(x.get()))
        {
            out.push_back({reinterpret_cast<const char*>(a), sizeof(*a), alignof(Vla<int>), id});
            if (a->capacity() > 0)
            {
                out.push_back({reinterpret_cast<const char*>(a->data()), a->capacity() * sizeof(int), alignof(int), id});
            }
        }
    }
    std::size_t tracked() const override { return m.tracked(); }
};

struct FuncSlot final : Slot
{
    std::unique_ptr<Func> f;
    Content               m;
    explicit FuncSlot(World& ww) : Slot(ww) { f.reset(new Func(w.any(true))); }
    const char* kind() const override { return "function"; }
    FuncSlot*   other();
    void        settle(const char* what, const Content& want, bool ok)
    {
        const bool on = static_cast<bool>(*f);
        if (ok)
        {
            m = want;
            PBT_CHECK(on == (want.kind != 0), "slot %d: %s: the function is %s", id, what, on ? "set" : "empty");
            return;
        }
        if (!on)
        {
            m = Content();
            return;
        }
        const long got = (*f)(0);
        if (want.kind != 0 && got == want.sum())
        {
            m = want;
            return;
        }
        if (want.kind == 4 && !PBT_EXC)
        {
            // without exceptions a captured array stops at the memory available
            m   = want;
            m.v = {static_cast<int>(got)};
            return;
        }
        PBT_CHECK(m.kind != 0 && got == m.sum(), "slot %d: failed %s left another target", id, what);
    }
    void step() override
    {
        auto& c = w.c;
        switch (c.weighted({5, 2, 2, 1, 3}))
        {
        case 0: {
            Content n;
            n.kind = 1 + static_cast<int>(c.below(4));
            n.v.push_back(static_cast<int>(c.below(1000)));
            if (n.kind == 4)
            {
                n.v.resize(c.below(9), n.v[0]);
            }
            Pmr* const r = w.any(true);
            c.log("slot %d: function with capture %d (%zu values)", id, n.kind, n.v.size());
            const bool over = n.v.size() > r->max_size() / sizeof(int) ||
                              n.v.size() > cetl::pf17::pmr::get_default_resource()->max_size() / sizeof(int);
            const bool ok   = w.exec("function assignment", over, [&] {
                switch (n.kind)
                {
                case 1: {
                    const int v = n.v[0];
                    *f          = [v](long y) { return y + v; };
                    break;
                }
                case 2: {
                    Elem e(n.v[0]);
                    *f = [e](long y) { return y + e.get(); };
                    break;
                }
                case 3: {
                    Big b(n.v[0]);
                    *f = [b](long y) { return y + b.get(); };
                    break;
                }
                default: {
                    Vla<int> a{PA<int>(r)};
                    for (int y : n.v)
                    {
                        a.push_back(y);
                    }
                    *f = [a = std::move(a)](long y) {
                        for (int z : a)
                        {
                            y += z;
                        }
                        return y;
                    };
                }
                }
            });
            settle("assignment", n, ok);
            break;
        }
        case 1: {
            FuncSlot* o = other();
            if (o == nullptr)
            {
                return;
            }
            const bool    mv   = c.boolean();
            const Content n    = o->m;
            const bool    over = n.kind == 4 && n.v.size() > cetl::pf17::pmr::get_default_resource()->max_size() / sizeof(int);
            c.log("slot %d = %s of slot %d", id, mv ? "move" : "copy", o->id);
            const bool ok = w.exec("function assignment", over, [&] {
                if (mv)
                {
                    *f = std::move(*o->f);
                }
                else
                {
                    *f = *o->f;
                }
            });
            settle("assignment", n, ok);
            if (mv)
            {
                o->f->reset();
                o->m = Content();
            }
            break;
        }
        case 2: {
            c.log("slot %d: reset", id);
            if (c.boolean())
            {
                f->reset();
            }
            else
            {
                f->reset(w.any(true));
            }
            m = Content();
            break;
        }
        case 3:
            c.log("slot %d: function destroyed", id);
            f.reset();
            f.reset(new Func(w.any(true)));
            m = Content();
            break;
        default: break;
        }
    }
    void verify() override
    {
        PBT_CHECK(static_cast<bool>(*f) == (m.kind != 0), "slot %d: the function is %s", id, static_cast<bool>(*f) ? "set" : "empty");
        if (m.kind != 0)
        {
            const long r = (*f)(3);
            PBT_CHECK(r == m.sum() + 3, "slot %d: the function returned %ld instead of %ld", id, r, m.sum() + 3);
        }
    }
    void        ranges(std::vector<Range>&) override {}
    std::size_t tracked() const override { return m.tracked(); }
};

struct PtrSlot final : Slot
{
    using U = cetl::pmr::Factory::unique_ptr_t<PA<Aligned>>;
    std::unique_ptr<U>             p;
    cetl::pmr::InterfacePtr<IFace> q;
    int                            mp = 0, mq = 0;
    explicit PtrSlot(World& ww) : Slot(ww) {}
    const char* kind() const override { return "pointer"; }
    PtrSlot*    other();
    void        step() override
    {
        auto&     c = w.c;
        const int v = 1 + static_cast<int>(c.below(1000));
        switch (c.below(5))
        {
        case 0: {
            c.log("slot %d: make_unique(%d)", id, v);
            PA<Aligned> al(w.any(true));
            const bool  ok = w.exec("make_unique", false, [&] {
                U u = cetl::pmr::Factory::make_unique(al, v);
                if (u)
                {
                    p.reset(new U(std::move(u)));
                    mp = v;
                }
            });
            PBT_CHECK(!ok || (p && mp == v), "make_unique returned no object");
            break;
        }
        case 1: {
            c.log("slot %d: interface make_unique(%d)", id, v);
            const bool ok = w.exec("make_unique", false, [&] {
                auto u = cetl::pmr::InterfaceFactory::make_unique<IFace>(PA<Concrete>(w.any(true)), v);
                if (u)
                {
                    q  = std::move(u);
                    mq = v;
                }
            });
            PBT_CHECK(!ok || mq == v, "make_unique returned no object");
            break;
        }
        case 2: {
            PtrSlot* o = other();
            if (o == nullptr || o == this)
            {
                return;
            }
            c.log("slot %d takes the pointers of slot %d", id, o->id);
            p     = std::move(o->p);
            q     = std::move(o->q);
            mp    = o->mp;
            mq    = o->mq;
            o->mp = 0;
            o->mq = 0;
            o->q  = nullptr;
            break;
        }
        case 3:
            c.log("slot %d: pointer destroyed", id);
            p.reset();
            mp = 0;
            break;
        default:
            c.log("slot %d: interface destroyed", id);
            q.reset();
            mq = 0;
        }
    }
    void verify() override
    {
        if (mp != 0)
        {
            PBT_CHECK((*p)->get() == mp, "slot %d: the object is %d instead of %d", id, (*p)->get(), mp);
        }
        PBT_CHECK((q != nullptr) == (mq != 0), "slot %d: interface", id);
        if (mq != 0)
        {
            PBT_CHECK(q->id() == mq, "slot %d: the object is %d instead of %d", id, q->id(), mq);
        }
    }
    void ranges(std::vector<Range>& out) override
    {
        if (mp != 0)
        {
            out.push_back({reinterpret_cast<const char*>(p->get()), sizeof(Aligned), alignof(Aligned), id});
        }
        if (mq != 0)
        {
            out.push_back({reinterpret_cast<const char*>(static_cast<const Concrete*>(q.get())), sizeof(Concrete), alignof(Concrete), id});
        }
    }
    std::size_t tracked() const override { return (mp != 0 ? 1U : 0U) + (mq != 0 ? 1U : 0U); }
};

/// Blocks taken straight from a polymorphic allocator.
struct RawSlot final : Slot
{
    Pmr*        r = nullptr;
    long*       p = nullptr;
    std::size_t n = 0;
    long        v = 0;
    explicit RawSlot(World& ww) : Slot(ww) {}
    ~RawSlot() override { drop(); }
    const char* kind() const override { return "block"; }
    void        drop()
    {
        if (p != nullptr)
        {
            PA<long>(r).deallocate(p, n);
        }
        p = nullptr;
        n = 0;
    }
    void fill(long x)
    {
        v = x;
        for (std::size_t i = 0; i < n; ++i)
        {
            p[i] = v + static_cast<long>(i);
        }
    }
    void step() override
    {
        auto&             c = w.c;
        const std::size_t k = 1 + c.below(24);
        if (p != nullptr && c.chance(2, 3))
        {
            c.log("slot %d: reallocate from %zu to %zu", id, n, k);
            long* q = nullptr;
            (void) w.exec("reallocate", true, [&] { q = PA<long>(r).reallocate(p, n, k); });
            if (q != nullptr)
            {
                p = q;
                for (std::size_t i = 0; i < std::min(n, k); ++i)
                {
                    PBT_CHECK(p[i] == v + static_cast<long>(i), "slot %d: reallocation lost element %zu", id, i);
                }
                n = k;
                fill(v);
            }
            return;
        }
        drop();
        r = w.any(true);
        c.log("slot %d: allocate %zu from resource %d", id, k, static_cast<Probe*>(r)->id);
        const bool ok = w.exec("allocate", k > r->max_size() / sizeof(long), [&] { p = PA<long>(r).allocate(k); });
        PBT_CHECK(!ok || p != nullptr, "allocate returned null");
        n = p != nullptr ? k : 0;
        fill(static_cast<long>(c.below(1000)));
    }
    void verify() override
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            PBT_CHECK(p[i] == v + static_cast<long>(i), "slot %d: element %zu of a block is %ld", id, i, p[i]);
        }
    }
    void ranges(std::vector<Range>& out) override
    {
        if (n > 0)
        {
            out.push_back({reinterpret_cast<const char*>(p), n * sizeof(long), alignof(long), id});
        }
    }
    std::size_t tracked() const override { return 0; }
};

#if PBT_EXC
/// Containers of the standard library over the allocator.
struct StdSlot final : Slot
{
    std::unique_ptr<std::vector<int, PA<int>>>                                  v;
    std::unique_ptr<std::list<Elem, PA<Elem>>>                                  l;
    std::unique_ptr<std::basic_string<char, std::char_traits<char>, PA<char>>> s;
    Values                                                                      mv, ml;
    std::string                                                                 ms;
    explicit StdSlot(World& ww) : Slot(ww)
    {
        v.reset(new std::vector<int, PA<int>>(PA<int>(w.any(true))));
        l.reset(new std::list<Elem, PA<Elem>>(PA<Elem>(w.any(true))));
        s.reset(new std::basic_string<char, std::char_traits<char>, PA<char>>(PA<char>(w.any(true))));
    }
    const char* kind() const override { return "std"; }
    void        step() override
    {
        auto&     c = w.c;
        const int x = static_cast<int>(c.below(1000));
        switch (c.below(6))
        {
        case 0:
            c.log("slot %d: vector push_back", id);
            // the standard containers refuse sizes over max_size of the allocator as well
            if (w.exec("vector", v->size() + 1 > v->max_size() / 2, [&] { v->push_back(x); }))
            {
                mv.push_back(x);
            }
            else
            {
                mv.assign(v->begin(), v->end());
            }
            break;
        case 1:
            c.log("slot %d: list push_back", id);
            if (w.exec("list", true, [&] { l->emplace_back(x); }) || l->size() > ml.size())
            {
                ml.push_back(x);
            }
            break;
        case 2:
            if (!ml.empty())
            {
                c.log("slot %d: list pop_front", id);
                l->pop_front();
                ml.erase(ml.begin());
            }
            break;
        case 3: {
            const std::string add(c.below(30), static_cast<char>('a' + x % 26));
            c.log("slot %d: string += %zu", id, add.size());
            (void) w.exec("string", true, [&] { s->append(add.data(), add.size()); });
            if (s->size() != ms.size())
            {
                ms += add;
            }
            break;
        }
        case 4:
            c.log("slot %d: vector cleared", id);
            v->clear();
            (void) w.exec("vector", true, [&] { v->shrink_to_fit(); });
            mv.clear();
            break;
        default:
            c.log("slot %d: list and string cleared", id);
            l->clear();
            ml.clear();
            s->clear();
            ms.clear();
        }
    }
    void verify() override
    {
        PBT_CHECK(Values(v->begin(), v->end()) == mv, "slot %d: the vector changed", id);
        Values got;
        for (const auto& e : *l)
        {
            got.push_back(e.get());
        }
        PBT_CHECK(got == ml, "slot %d: the list changed", id);
        PBT_CHECK(std::string(s->data(), s->size()) == ms, "slot %d: the string changed", id);
    }
    void ranges(std::vector<Range>& out) override
    {
        if (v->capacity() > 0)
        {
            out.push_back({reinterpret_cast<const char*>(v->data()), v->capacity() * sizeof(int), alignof(int), id});
        }
        for (const auto& e : *l)
        {
            out.push_back({reinterpret_cast<const char*>(&e), sizeof(Elem), alignof(Elem), id});
        }
    }
    std::size_t tracked() const override { return ml.size(); }
};
#endif

template <typename S>
S* find_other(World& w)
{
    std::vector<S*> v;
    for (auto& s : w.slots)
    {
        if (S* x = dynamic_cast<S*>(s.get()))
        {
            v.push_back(x);
        }
    }
    return v[w.c.below(v.size())];
}
template <typename T>
ArraySlot<T>* ArraySlot<T>::other()
{
    auto* o = find_other<ArraySlot<T>>(w);
    return o == this ? nullptr : o;
}
VarSlot* VarSlot::other()
{
    auto* o = find_other<VarSlot>(w);
    return o == this ? nullptr : o;
}
FuncSlot* FuncSlot::other()
{
    auto* o = find_other<FuncSlot>(w);
    return o == this ? nullptr : o;
}
PtrSlot* PtrSlot::other()
{
    return find_other<PtrSlot>(w);
}

void build_layers(World& w)
{
    auto& c = w.c;
    w.bottom.led.id       = 0;
    w.bottom.led.limit    = c.chance(1, 3) ? 64 + c.below(400) : std::size_t{1} << 20;
    w.bottom.led.on_fail  = PBT_EXC ? mem::Fail::Throws : mem::Fail::ReturnsNull;
    w.bottom.led.rng      = c.below(1 << 20);
    w.bottom.led.realloc_mode = static_cast<trk::Realloc>(c.below(4));
    std::vector<Pmr*> ups{w.probe(&w.bottom, true)};
    const std::size_t depth = c.below(5);
    for (std::size_t i = 0; i < depth; ++i)
    {
        // mostly on top of the previous one
        const std::size_t at  = c.chance(3, 4) ? ups.size() - 1 : c.below(ups.size());
        Pmr* const        up  = ups[at];
        const std::size_t n   = c.below(160);
        const std::size_t off = c.below(16);
        const std::size_t max = c.chance(1, 3) ? c.below(300) : std::size_t{1} << 20;
        w.buffers.emplace_back(new char[n + off]);
        char* const b = w.buffers.back().get() + off;
        switch (c.below(5))
        {
        case 0:
        case 1:
            c.log("resource over %zu: buffer of %zu bytes, upstream max %zu", at, n, max);
            w.layers.emplace_back(new cetl::pf17::pmr::UnsynchronizedBufferMemoryResource(b, n, up, max));
            break;
        case 2:
            c.log("resource over %zu: array of 96 bytes, upstream max %zu", at, max);
            w.layers.emplace_back(new cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<96>(up, max));
            break;
        case 3:
            c.log("resource over %zu: monotonic with buffer of %zu bytes", at, n);
            w.layers.emplace_back(new cetl::pf17::pmr::monotonic_buffer_resource(b, n, up));
            break;
        default:
            c.log("resource over %zu: monotonic with initial size %zu", at, n + 1);
            w.layers.emplace_back(new cetl::pf17::pmr::monotonic_buffer_resource(n + 1, up));
        }
        ups.push_back(w.probe(w.layers.back().get(), true));
    }
    for (Pmr* u : ups)
    {
        w.plain.push_back(static_cast<Probe*>(u));
        w.steady.push_back(w.probe(u, false));
    }
}

void history(pbt::Case& c)
{
    trk::reset_world();
    mem::events().error.clear();
    World w(c);
    w.faulty = c.boolean();
    build_layers(w);
    // Copies of containers take the default resource.
    Pmr* const before = cetl::pf17::pmr::get_default_resource();
    struct Restore
    {
        Pmr* r;
        ~Restore() { (void) cetl::pf17::pmr::set_default_resource(r); }
    } restore{before};
    (void) cetl::pf17::pmr::set_default_resource(w.any(false));

    const std::size_t nslots = 2 + c.below(7);
    const std::size_t focus  = c.below(11);
    for (std::size_t i = 0; i < nslots; ++i)
    {
        Slot* s = nullptr;
        switch (c.chance(1, 3) ? focus : c.below(11))
        {
        case 0: s = new ArraySlot<int>(w); break;
        case 1: s = new ArraySlot<Wide>(w); break;
        case 2: s = new ArraySlot<Elem>(w); break;
        case 3: s = new ArraySlot<Cell>(w); break;
        case 4: s = new BitSlot(w); break;
        case 5: s = new VarSlot(w); break;
        case 6: s = new VarSlot(w); break;
        case 7: s = new FuncSlot(w); break;
        case 8: s = new PtrSlot(w); break;
        case 9: s = new RawSlot(w); break;
        default:
#if PBT_EXC
            s = new StdSlot(w);
#else
            s = new RawSlot(w);
#endif
        }
        w.slots.emplace_back(s);
        s->id = static_cast<int>(i);
        c.label(s->kind());
    }
    std::size_t       steps = 0;
    const std::size_t max   = c.thorough() ? 120 : 60;
    while (c.more(steps, 30, max))
    {
        Slot& s = *w.slots[c.below(w.slots.size())];
        s.step();
        mem::check_events();
        std::vector<Range> rs;
        std::size_t        live = 0;
        for (auto& x : w.slots)
        {
            x->verify();
            x->ranges(rs);
            live += x->tracked();
        }
        PBT_CHECK(trk::world().live == static_cast<std::int64_t>(live), "%lld objects are alive instead of %zu", static_cast<long long>(trk::world().live), live);
        for (std::size_t i = 0; i < rs.size(); ++i)
        {
            PBT_CHECK(reinterpret_cast<std::uintptr_t>(rs[i].p) % rs[i].a == 0, "slot %d: an object is not aligned to %zu", rs[i].slot, rs[i].a);
            for (std::size_t j = 0; j < i; ++j)
            {
                PBT_CHECK(rs[i].p + rs[i].n <= rs[j].p || rs[j].p + rs[j].n <= rs[i].p, "objects of slots %d and %d share memory", rs[i].slot, rs[j].slot);
            }
        }
    }
    // in any order
    while (!w.slots.empty())
    {
        const std::size_t i = c.below(w.slots.size());
        w.slots.erase(w.slots.begin() + static_cast<std::ptrdiff_t>(i));
        for (auto& x : w.slots)
        {
            x->verify();
        }
    }
    mem::check_events();
    PBT_CHECK(trk::world().live == 0, "%lld objects are still alive", static_cast<long long>(trk::world().live));
    for (auto* p : w.plain)
    {
        // what the layer above keeps (monotonic resources) is returned when that is destroyed
        for (auto* q : w.steady)
        {
            PBT_CHECK(q->live.empty(), "resource %d did not get %zu blocks back", q->id, q->live.size());
        }
        (void) p;
    }
    while (!w.layers.empty())
    {
        Pmr* const l = w.layers.back().get();
        for (auto* p : w.plain)
        {
            if (p->up == l)
            {
                PBT_CHECK(p->live.empty(), "resource %d did not get %zu blocks back", p->id, p->live.size());
            }
        }
        w.layers.pop_back();
    }
    mem::check_events();
    PBT_CHECK(w.plain[0]->live.empty(), "the lowest resource did not get %zu blocks back", w.plain[0]->live.size());
    PBT_CHECK(w.bottom.led.blocks.empty(), "%zu blocks were not returned to the bottom", w.bottom.led.blocks.size());
    if (w.done >= 5 && w.plain.size() >= 2)
    {
        c.nontrivial();
    }
    c.label(w.failures > 0 ? "with failures" : "without failures");
}
PBT_TARGET(stack, history, 20000, 400000);
}  // namespace
