// C12: Factory, InterfaceFactory and MemoryResourceDeleter: every object and block is released once, as it was obtained.
#include "mem.hpp"

#include "cetl/pmr/interface_ptr.hpp"
#include "cetl/pmr/memory.hpp"

namespace
{
using Pmr = cetl::pf17::pmr::memory_resource;
template <typename T>
using PA = cetl::pf17::pmr::polymorphic_allocator<T>;

struct IFace
{
    virtual int id() const = 0;

protected:
    ~IFace() = default;
};
struct Other
{
    long filler       = 77;
    virtual ~Other()  = default;
    virtual int noise() { return 5; }
};
/// The interface is not at the start of the object.
struct ConcreteA final : Other, IFace
{
    explicit ConcreteA(int v) : e(v) {}
    int  id() const override { return e.get(); }
    trk::Elem<trk::Full> e;
};
struct alignas(32) ConcreteB final : IFace
{
    explicit ConcreteB(int v) : e(v) {}
    ConcreteB(int a, int b) : e(a + b) {}
    int  id() const override { return e.get(); }
    trk::Elem<trk::MoveOnly> e;
    unsigned char pad[90];
};
struct Plain
{
    explicit Plain(int v) : e(v) {}
    Plain(int a, int b) : e(a + b) {}
    int get() const { return e.get(); }
    trk::Elem<trk::Full> e;
    char c = 'x';
};
struct alignas(64) Wide
{
    explicit Wide(int v) : e(v) {}
    Wide(int a, int b) : e(a + b) {}
    int get() const { return e.get(); }
    trk::Elem<trk::Full> e;
};

/// The deleters of Factory hold an allocator that cannot be assigned, so these pointers can only be move-constructed.
template <typename Ptr>
class Box
{
public:
    using deleter_type = typename Ptr::deleter_type;
    Box(std::nullptr_t, deleter_type d) : p(nullptr, std::move(d)) {}
    Box(Ptr&& o) : p(std::move(o)) {}
    Box(Box&& o) : p(std::move(o.p)) {}
    Box& operator=(Box&& o)
    {
        if (this != &o)
        {
            p.~Ptr();
            new (&p) Ptr(std::move(o.p));
        }
        return *this;
    }
    Box& operator=(std::nullptr_t)
    {
        p = nullptr;
        return *this;
    }
    void swap(Box& o)
    {
        Box t(std::move(*this));
        if (this != &o)
        {
            *this = std::move(o);
        }
        o = std::move(t);
    }
    auto get() const { return p.get(); }
    auto operator->() const { return p.get(); }
    auto release() { return p.release(); }
    void reset() { p.reset(); }
    bool operator!=(std::nullptr_t) const { return p != nullptr; }
    Ptr  p;
};
using PlainPtr = Box<cetl::pmr::Factory::unique_ptr_t<PA<Plain>>>;
using WidePtr  = Box<cetl::pmr::Factory::unique_ptr_t<PA<Wide>>>;
using IPtr     = cetl::pmr::InterfacePtr<IFace>;
using Deleter  = cetl::pmr::MemoryResourceDeleter<Pmr>;
using MemPtr   = std::unique_ptr<char, Deleter>;

constexpr int N = 3;

class Machine
{
    pbt::Case& c;
    mem::Res   res[3];
    bool       faulty;
    bool       fault = false;
    int        done = 0, transfers = 0, made = 0;
    const char* op  = "";

    struct M
    {
        bool        has = false;
        int         id  = 0;
        int         res = 0;
        std::size_t size = 0, align = 0;
        bool        live_deleter = true;
    };
    std::vector<PlainPtr> plain;
    std::vector<WidePtr>  wide;
    std::vector<IPtr>     iface;
    std::vector<MemPtr>   memory;
    M mp[N], mw[N], mi[N], mm[N];
    // released objects that the user has to dispose of
    struct Loose
    {
        Plain* p;
        int    res;
        int    id;
    };
    std::vector<Loose> loose;

public:
    explicit Machine(pbt::Case& cc)
        : c(cc)
    {
        trk::reset_world();
        mem::events().error.clear();
        faulty = c.boolean();
        for (int i = 0; i < 3; ++i)
        {
            res[i].led.id = i;
            if (faulty)
            {
                res[i].led.on_fail = c.boolean() ? mem::Fail::ReturnsNull : mem::Fail::Throws;
            }
        }
    }
    void run()
    {
        for (int i = 0; i < N; ++i)
        {
            const int r = static_cast<int>(c.below(3));
            plain.emplace_back(nullptr, PlainPtr::deleter_type{PA<Plain>{&res[r]}, 1});
            wide.emplace_back(nullptr, WidePtr::deleter_type{PA<Wide>{&res[r]}, 1});
            iface.emplace_back();
            memory.emplace_back(nullptr, Deleter{&res[r], 0});
        }
        const int n = static_cast<int>(c.range(1, c.thorough() ? 60 : 30));
        for (int i = 0; i < n; ++i)
        {
            step();
            disarm();
            verify();
        }
        op = "end";
        plain.clear();
        wide.clear();
        iface.clear();
        memory.clear();
        for (auto& l : loose)
        {
            PlainPtr::deleter_type d{PA<Plain>{&res[l.res]}, 1};
            d(l.p);
        }
        mem::check_events();
        PBT_CHECK(trk::world().live == 0, "%lld objects are still alive", static_cast<long long>(trk::world().live));
        for (auto& r : res)
        {
            PBT_CHECK(r.led.blocks.empty(), "%zu blocks of resource %d were not returned", r.led.blocks.size(), r.led.id);
        }
        if (done >= 3 && transfers >= 1 && made >= 2)
        {
            c.nontrivial();
        }
    }

private:
    std::size_t pick() { return static_cast<std::size_t>(c.below(N)); }
    void        arm()
    {
        fault = false;
        if (!faulty || !c.boolean())
        {
            return;
        }
        if (PBT_EXC && c.boolean())
        {
            c.log("  (constructor throws)");
            trk::arm(0);
        }
        else
        {
            c.log("  (allocation fails)");
            for (auto& r : res)
            {
                r.led.arm(0, true);
            }
        }
    }
    void disarm()
    {
        trk::disarm();
        for (auto& r : res)
        {
            r.led.disarm();
        }
    }
    template <typename G>
    trk::Res exec(G&& g)
    {
        trk::world().thrown = false;
        for (auto& r : res)
        {
            r.led.failed = false;
        }
        const trk::Res x = trk::attempt(std::forward<G>(g));
        bool no_memory   = false;
        for (auto& r : res)
        {
            no_memory = no_memory || r.led.failed;
        }
        fault = trk::world().thrown || no_memory;
        disarm();
        PBT_CHECK(x == trk::Res::Ok || fault, "%s threw %s although nothing failed", op, trk::name(x));
        PBT_CHECK(!trk::world().thrown || x == trk::Res::Boom, "%s: the exception of the constructor did not reach the caller", op);
        ++done;
        c.label(fault ? "failure" : op);
        return x;
    }
    template <typename Ptr>
    void transfer(std::vector<Ptr>& v, M* m)
    {
        const std::size_t a = pick();
        const std::size_t b = pick();
        if (c.boolean())
        {
            op = "swap";
            c.log("swap %zu %zu", a, b);
            if (!m[a].live_deleter || !m[b].live_deleter)
            {
                return;
            }
            if (c.boolean())
            {
                v[a].swap(v[b]);
            }
            else
            {
                Ptr t(std::move(v[a]));
                if (a == b)
                {
                    v[a] = std::move(t);
                }
                else
                {
                    v[a] = std::move(v[b]);
                    v[b] = std::move(t);
                }
            }
            std::swap(m[a], m[b]);
        }
        else
        {
            op = a == b ? "self-move" : "move";
            c.log("%zu = move %zu", a, b);
            if (!m[b].live_deleter)
            {
                return;
            }
            Ptr& from = v[b];
            v[a]      = std::move(from);
            if (a != b)
            {
                m[a]     = m[b];
                m[b].has = false;
                m[b].live_deleter = false;
            }
        }
        transfers += m[a].has || m[b].has ? 1 : 0;
        ++done;
    }
    template <typename Ptr, typename T>
    void make(std::vector<Ptr>& v, M* m)
    {
        const std::size_t i  = pick();
        const int         id = static_cast<int>(c.below(500));
        const int         r  = static_cast<int>(c.below(3));
        op                   = "Factory::make_unique";
        c.log("make_unique(%d) in resource %d", id, r);
        PA<T> alloc{&res[r]};
        arm();
        bool got = false;
        const bool two = c.boolean();
        const trk::Res x = exec([&] {
            Ptr p = two ? cetl::pmr::Factory::make_unique(alloc, id - 2, 2) : cetl::pmr::Factory::make_unique(alloc, id);
            got   = p != nullptr;
            if (got)
            {
                v[i] = std::move(p);
            }
        });
        PBT_CHECK(fault != got, "%s: %s", op, got ? "an object in spite of a failure" : "no object");
        (void) x;
        if (got)
        {
            m[i] = M{true, id, r, sizeof(T), alignof(T), true};
            ++made;
        }
    }
    void make_iface()
    {
        const std::size_t i   = pick();
        const int         id  = static_cast<int>(c.below(500));
        const int         r   = static_cast<int>(c.below(3));
        const int         how = static_cast<int>(c.below(3));
        op                    = "InterfaceFactory::make_unique";
        c.log("interface %d: make_unique(%d) in resource %d", how, id, r);
        arm();
        bool got = false;
        (void) exec([&] {
            IPtr p;
            switch (how)
            {
            case 0:
                p = cetl::pmr::InterfaceFactory::make_unique<IFace>(PA<ConcreteA>{&res[r]}, id);
                break;
            case 1:
                p = cetl::pmr::InterfaceFactory::make_unique<IFace>(PA<ConcreteB>{&res[r]}, id);
                break;
            default:
                p = cetl::pmr::InterfaceFactory::make_unique<IFace>(PA<ConcreteB>{&res[r]}, id - 3, 3);
                break;
            }
            got = p != nullptr;
            if (got)
            {
                iface[i] = std::move(p);
            }
        });
        PBT_CHECK(fault != got, "%s: %s", op, got ? "an object in spite of a failure" : "no object");
        if (got)
        {
            mi[i] = M{true, id, r, how == 0 ? sizeof(ConcreteA) : sizeof(ConcreteB), how == 0 ? alignof(ConcreteA) : alignof(ConcreteB), true};
            ++made;
        }
    }
    void make_memory()
    {
        const std::size_t i = pick();
        const int         r = static_cast<int>(c.below(3));
        const std::size_t n = static_cast<std::size_t>(c.range(1, 200));
        const std::size_t a = std::size_t{1} << c.below(8);
        op                  = "MemoryResourceDeleter";
        const bool dflt     = a == alignof(std::max_align_t) && c.boolean();
        c.log("memory %zu: %zu bytes, alignment %zu in resource %d", i, n, a, r);
        char* p = static_cast<char*>(res[r].allocate(n, a));
        std::memset(p, static_cast<int>(n), n);
        memory[i] = dflt ? MemPtr{p, Deleter{&res[r], n}} : MemPtr{p, Deleter{&res[r], n, a}};
        mm[i]     = M{true, static_cast<int>(n), r, n, a, true};
        ++done;
        ++made;
    }
    void step()
    {
        switch (c.weighted({3, 2, 4, 3, 3, 3, 3, 3, 2, 1, 1}))
        {
        case 0:
            return make<PlainPtr, Plain>(plain, mp);
        case 1:
            return make<WidePtr, Wide>(wide, mw);
        case 2:
            return make_iface();
        case 3:
            return make_memory();
        case 4:
            transfer(plain, mp);
            break;
        case 5:
            transfer(wide, mw);
            break;
        case 6:
            transfer(iface, mi);
            break;
        case 7:
            return transfer(memory, mm);
        case 8: {
            const std::size_t i = pick();
            op                  = "reset";
            c.log("reset %zu", i);
            switch (c.below(4))
            {
            case 0:
                plain[i].reset();
                mp[i].has = false;
                break;
            case 1:
                wide[i] = nullptr;
                mw[i].has = false;
                break;
            case 2:
                iface[i].reset();
                mi[i].has = false;
                break;
            default:
                memory[i].reset();
                mm[i].has = false;
                break;
            }
            break;
        }
        case 9: {
            const std::size_t i = pick();
            op                  = "release";
            c.log("release %zu", i);
            if (mp[i].has)
            {
                loose.push_back(Loose{plain[i].release(), mp[i].res, mp[i].id});
                mp[i].has = false;
            }
            break;
        }
        default: {
            // moved into a container and back
            const std::size_t i = pick();
            op                  = "container";
            c.log("container round trip of %zu", i);
            std::vector<IPtr> v;
            v.push_back(std::move(iface[i]));
            for (int k = 0; k < 5; ++k)
            {
                v.emplace_back();
            }
            iface[i] = std::move(v[0]);
            transfers += mi[i].has ? 1 : 0;
            break;
        }
        }
        // only the raw memory deleter refuses to be moved twice
        for (int i = 0; i < N; ++i)
        {
            mp[i].live_deleter = mw[i].live_deleter = mi[i].live_deleter = true;
        }
    }
    template <typename Ptr>
    void look(const Ptr& p, const M& m, const void* whole)
    {
        PBT_CHECK((p != nullptr) == m.has, "%s: pointer is %s", op, m.has ? "null" : "not null");
        if (m.has)
        {
            block(whole, m);
        }
    }
    void block(const void* p, const M& m)
    {
        char*             start = nullptr;
        const mem::Block* b     = res[m.res].led.find(p, 1, &start);
        PBT_CHECK(b != nullptr && start == p, "%s: the object is not at the start of a block of resource %d", op, m.res);
        PBT_CHECK(b->bytes == m.size && b->align == m.align, "%s: block of (%zu, %zu) for an object of (%zu, %zu)", op, b->bytes, b->align,
                  m.size, m.align);
    }
    void verify()
    {
        mem::check_events();
        std::size_t objects = loose.size();
        std::size_t raw     = 0;
        for (std::size_t i = 0; i < N; ++i)
        {
            look(plain[i], mp[i], plain[i].get());
            PBT_CHECK(!mp[i].has || plain[i]->get() == mp[i].id, "%s: another object", op);
            look(wide[i], mw[i], wide[i].get());
            PBT_CHECK(!mw[i].has || wide[i]->get() == mw[i].id, "%s: another object", op);
            PBT_CHECK((iface[i] != nullptr) == mi[i].has, "%s: interface pointer is %s", op, mi[i].has ? "null" : "not null");
            if (mi[i].has)
            {
                block(dynamic_cast<const void*>(iface[i].get()), mi[i]);
                PBT_CHECK(iface[i]->id() == mi[i].id, "%s: another object", op);
            }
            look(memory[i], mm[i], memory[i].get());
            if (mm[i].has)
            {
                const Deleter& d = memory[i].get_deleter();
                PBT_CHECK(d.size() == mm[i].size && d.alignment() == mm[i].align && d.resource() == &res[mm[i].res], "%s: the deleter reports %zu, %zu", op,
                          d.size(), d.alignment());
                for (std::size_t k = 0; k < mm[i].size; ++k)
                {
                    PBT_CHECK(memory[i].get()[k] == static_cast<char>(mm[i].size), "%s: memory was changed", op);
                }
            }
            if (!mm[i].live_deleter)
            {
                PBT_CHECK(memory[i].get_deleter().resource() == nullptr, "%s: a deleter that was moved from still has a resource", op);
                memory[i].get_deleter()(nullptr);
            }
            objects += (mp[i].has ? 1U : 0U) + (mw[i].has ? 1U : 0U) + (mi[i].has ? 1U : 0U);
            raw += mm[i].has ? 1U : 0U;
        }
        PBT_CHECK(trk::world().live == static_cast<std::int64_t>(objects), "%s: %lld objects are alive instead of %zu", op,
                  static_cast<long long>(trk::world().live), objects);
        std::size_t blocks = 0;
        for (auto& r : res)
        {
            blocks += r.led.blocks.size();
        }
        PBT_CHECK(blocks == objects + raw, "%s: %zu blocks are allocated instead of %zu", op, blocks, objects + raw);
    }
};
// ------------------------------------------------------------------------------------------------ deleters
/// An allocator that can be assigned, over one of the ledgers.
template <typename T>
struct Assignable
{
    using value_type = T;
    mem::Ledger* led;
    explicit Assignable(mem::Ledger* l) : led(l) {}
    T*   allocate(std::size_t n) { return static_cast<T*>(led->allocate(n * sizeof(T), alignof(T))); }
    void deallocate(T* p, std::size_t n)
    {
        if (p != nullptr)
        {
            led->deallocate(p, n * sizeof(T), alignof(T));
        }
    }
};
/// Deleters as values: copied, moved and assigned in any order, each must release what it was made (or assigned) for.
template <typename T>
void deleter_history(pbt::Case& c)
{
    using D = cetl::pmr::PolymorphicDeleter<Assignable<T>>;
    using U = std::unique_ptr<T, D>;
    mem::Ledger led[3];
    for (int i = 0; i < 3; ++i)
    {
        led[i].id = i;
    }
    struct M
    {
        int         res;
        std::size_t count;
        bool        known;
    };
    std::vector<D> d;
    std::vector<M> m;
    std::vector<U> u;
    std::vector<M> um;
    std::vector<int> uid;
    for (int i = 0; i < 3; ++i)
    {
        const M x{static_cast<int>(c.below(3)), static_cast<std::size_t>(c.range(1, 5)), true};
        c.log("deleter %d: resource %d, %zu objects", i, x.res, x.count);
        d.emplace_back(Assignable<T>(&led[x.res]), x.count);
        m.push_back(x);
        const M y{static_cast<int>(c.below(3)), static_cast<std::size_t>(c.range(1, 5)), true};
        u.emplace_back(nullptr, D(Assignable<T>(&led[y.res]), y.count));
        um.push_back(y);
        uid.push_back(-1);
    }
    int assigned = 0, made = 0;
    const auto make = [&](const M& x, int id) {
        Assignable<T> a(&led[x.res]);
        T* const      p = a.allocate(x.count);
        ::new (static_cast<void*>(p)) T(id);
        ++made;
        return p;
    };
    const int n = static_cast<int>(c.range(1, c.thorough() ? 40 : 20));
    for (int i = 0; i < n; ++i)
    {
        const auto  a  = static_cast<std::size_t>(c.below(3));
        const auto  b  = static_cast<std::size_t>(c.below(3));
        const char* op = "";
        switch (c.below(8))
        {
        case 0: {
            op = "copy assignment";
            c.log("deleter %zu = deleter %zu", a, b);
            const D& from = d[b];
            d[a]          = from;
            m[a]          = m[b];
            ++assigned;
            break;
        }
        case 1: {
            op = "move assignment";
            c.log("deleter %zu = move(deleter %zu)", a, b);
            D& from = d[b];
            d[a]    = std::move(from);
            if (a != b)
            {
                m[a]       = m[b];
                m[b].known = false;
                ++assigned;
            }
            break;
        }
        case 2: {
            op = "copy";
            c.log("a copy of deleter %zu releases an object", b);
            if (m[b].known)
            {
                D copy(static_cast<const D&>(d[b]));
                copy(make(m[b], i));
            }
            break;
        }
        case 3: {
            op = "move";
            c.log("deleter %zu through a temporary releases an object", b);
            if (m[b].known)
            {
                D temp(std::move(d[b]));
                m[b].known = false;
                temp(make(m[b], i));
                d[b]       = temp;
                m[b].known = true;
            }
            break;
        }
        case 4: {
            op = "call";
            c.log("deleter %zu releases an object", a);
            if (m[a].known)
            {
                d[a](make(m[a], i));
            }
            break;
        }
        case 5: {
            op = "call with null";
            c.log("deleter %zu is called with null", a);
            if (m[a].known)
            {
                d[a](nullptr);
            }
            break;
        }
        case 6: {
            op = "pointer";
            if (um[a].known && uid[a] < 0)
            {
                c.log("pointer %zu owns %d", a, i);
                u[a].reset(make(um[a], i));
                uid[a] = i;
            }
            else if (m[b].known)
            {
                c.log("pointer %zu owns %d with a copy of deleter %zu", a, i, b);
                u[a]   = U(make(m[b], i), d[b]);
                um[a]  = m[b];
                uid[a] = i;
                ++assigned;
            }
            break;
        }
        default: {
            op = "pointer move";
            c.log("pointer %zu = move(pointer %zu)", a, b);
            U& from = u[b];
            u[a]    = std::move(from);
            if (a != b)
            {
                um[a]       = um[b];
                uid[a]      = uid[b];
                uid[b]      = -1;
                um[b].known = false;
                ++assigned;
            }
            break;
        }
        }
        mem::check_events();
        std::size_t alive = 0;
        for (std::size_t k = 0; k < 3; ++k)
        {
            PBT_CHECK((u[k] != nullptr) == (uid[k] >= 0), "%s: pointer %zu", op, k);
            PBT_CHECK(uid[k] < 0 || u[k]->get() == uid[k], "%s: pointer %zu owns another object", op, k);
            alive += uid[k] >= 0 ? 1U : 0U;
        }
        std::size_t blocks = 0;
        for (auto& l : led)
        {
            blocks += l.blocks.size();
        }
        PBT_CHECK(trk::world().live == static_cast<std::int64_t>(alive) && blocks == alive, "%s: %lld objects in %zu blocks are left instead of %zu", op,
                  static_cast<long long>(trk::world().live), blocks, alive);
    }
    u.clear();
    mem::check_events();
    PBT_CHECK(trk::world().live == 0, "%lld objects are still alive", static_cast<long long>(trk::world().live));
    for (auto& l : led)
    {
        PBT_CHECK(l.blocks.empty(), "%zu blocks of resource %d were not returned", l.blocks.size(), l.id);
    }
    if (assigned > 0 && made > 0)
    {
        c.nontrivial();
    }
}
void deleters(pbt::Case& c)
{
    trk::reset_world();
    mem::events().error.clear();
    if (c.boolean())
    {
        deleter_history<Plain>(c);
    }
    else
    {
        deleter_history<Wide>(c);
    }
}
// ------------------------------------------------------------------------------------------------ arguments
/// Arguments reach the constructor with the value category they were passed with, once.
enum Category
{
    None,
    LRef,
    CRef,
    RRef
};
struct Arg
{
    int value;
    explicit Arg(int v) : value(v) {}
    Arg(const Arg&)            = delete;
    Arg& operator=(const Arg&) = delete;
};
struct Receiver final : IFace
{
    int    argc = 0;
    int    value[3]{};
    int    cat[3]{};
    void   note(Arg& a) { put(a, LRef); }
    void   note(const Arg& a) { put(a, CRef); }
    void   note(Arg&& a) { put(a, RRef); }
    void   note(const Arg&& a) { put(a, None); }
    void   put(const Arg& a, int k)
    {
        value[argc] = a.value;
        cat[argc++] = k;
    }
    template <typename A>
    using IsArg = std::enable_if_t<std::is_same<std::decay_t<A>, Arg>::value, int>;
    Receiver() {}
    template <typename A, IsArg<A> = 0>
    explicit Receiver(A&& a)
    {
        note(std::forward<A>(a));
    }
    template <typename A, typename B, IsArg<A> = 0, IsArg<B> = 0>
    Receiver(A&& a, B&& b)
    {
        note(std::forward<A>(a));
        note(std::forward<B>(b));
    }
    template <typename A, typename B, typename C, IsArg<A> = 0, IsArg<B> = 0, IsArg<C> = 0>
    Receiver(A&& a, B&& b, C&& d)
    {
        note(std::forward<A>(a));
        note(std::forward<B>(b));
        note(std::forward<C>(d));
    }
    int id() const override { return argc; }
};
struct Expected
{
    int argc = 0;
    int value[3]{};
    int cat[3]{};
};
template <typename F>
void with_arg(pbt::Case& c, Expected& w, F f)
{
    const int v       = static_cast<int>(c.range(1, 1000));
    const int i       = w.argc++;
    w.value[i]        = v;
    w.cat[i]          = static_cast<int>(c.range(LRef, RRef));
    Arg a(v);
    c.log("argument %d: %s %d", i, w.cat[i] == LRef ? "lvalue" : w.cat[i] == CRef ? "const lvalue" : "rvalue", v);
    switch (w.cat[i])
    {
    case LRef:
        return f(a);
    case CRef:
        return f(static_cast<const Arg&>(a));
    default:
        return f(std::move(a));
    }
}
void arguments(pbt::Case& c)
{
    mem::events().error.clear();
    mem::Res   res;
    Expected   w;
    const bool iface = c.boolean();
    c.log("%s::make_unique", iface ? "InterfaceFactory" : "Factory");
    const auto make = [&](auto&&... args) {
        PA<Receiver> alloc{&res};
        const auto   look = [&](const Receiver* r) {
            PBT_CHECK(r != nullptr && r->argc == w.argc, "%d arguments arrived instead of %d", r == nullptr ? -1 : r->argc, w.argc);
            for (int i = 0; i < w.argc; ++i)
            {
                PBT_CHECK(r->value[i] == w.value[i], "argument %d arrived with value %d instead of %d", i, r->value[i], w.value[i]);
                PBT_CHECK(r->cat[i] == w.cat[i], "argument %d arrived as category %d instead of %d (1 lvalue, 2 const lvalue, 3 rvalue)", i, r->cat[i], w.cat[i]);
            }
        };
        if (iface)
        {
            const auto p = cetl::pmr::InterfaceFactory::make_unique<IFace>(alloc, std::forward<decltype(args)>(args)...);
            look(static_cast<const Receiver*>(p.get()));
        }
        else
        {
            const auto p = cetl::pmr::Factory::make_unique(alloc, std::forward<decltype(args)>(args)...);
            look(p.get());
        }
    };
    switch (c.below(4))
    {
    case 0:
        make();
        break;
    case 1:
        with_arg(c, w, [&](auto&& a) { make(std::forward<decltype(a)>(a)); });
        break;
    case 2:
        with_arg(c, w, [&](auto&& a) { with_arg(c, w, [&](auto&& b) { make(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
        break;
    default:
        with_arg(c, w, [&](auto&& a) {
            with_arg(c, w, [&](auto&& b) {
                with_arg(c, w, [&](auto&& d) { make(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), std::forward<decltype(d)>(d)); });
            });
        });
        break;
    }
    cetl::pmr::PmrInterfaceDeleter<IFace> nothing;
    nothing(nullptr);
    mem::check_events();
    PBT_CHECK(res.led.blocks.empty(), "%zu blocks were not returned", res.led.blocks.size());
    if (w.argc > 1)
    {
        c.nontrivial();
    }
}
void run(pbt::Case& c)
{
    Machine m(c);
    m.run();
}
}  // namespace
PBT_TARGET(owners, run, 12000, 300000);
PBT_TARGET(arguments, arguments, 2000, 20000);
PBT_TARGET(deleters, deleters, 5000, 100000);
