// Contained types with every mix of special members, an event log and throw injection (see trk::tick).
#pragma once
#include "track.hpp"

namespace val
{
/// The special member calls made so far, in order, as text.
inline std::string& events()
{
    static std::string s;
    return s;
}
inline void note(const char* what, int v)
{
    events() += what;
    events() += std::to_string(v);
    events() += ' ';
}

/// Trivially destructible stand-in for trk::Core.
struct Plain
{
    explicit Plain(int v) noexcept : value(v) {}
    int  get() const { return value; }
    void set(int v) { value = v; }
    int  value;
};
/// Logs destruction.
struct Tracked
{
    explicit Tracked(int v) : core(v) {}
    ~Tracked() { note("~", core.get()); }
    Tracked(const Tracked&)            = delete;
    Tracked& operator=(const Tracked&) = delete;
    int       get() const { return core.get(); }
    void      set(int v) { core.set(v); }
    trk::Core core;
};

#define VAL_CC_DEL(N) N(const N&) = delete;
#define VAL_CC_DEF(N) N(const N&) = default;
#define VAL_CC_THR(N) N(const N& o) : core((trk::tick(), o.get())) { ::val::note("cc", get()); }
#define VAL_CC_NOX(N) N(const N& o) noexcept : core(o.get()) { ::val::note("cc", get()); }
#define VAL_MC_NONE(N)
#define VAL_MC_DEL(N) N(N&&) = delete;
#define VAL_MC_DEF(N) N(N&&) = default;
#define VAL_MC_THR(N) N(N&& o) : core((trk::tick(), o.get())) { o.core.set(trk::kMoved); ::val::note("mc", get()); }
#define VAL_MC_NOX(N) N(N&& o) noexcept : core(o.get()) { o.core.set(trk::kMoved); ::val::note("mc", get()); }
#define VAL_CA_DEL(N) N& operator=(const N&) = delete;
#define VAL_CA_DEF(N) N& operator=(const N&) = default;
#define VAL_CA_THR(N) N& operator=(const N& o) { trk::tick(); core.set(o.get()); ::val::note("ca", get()); return *this; }
#define VAL_CA_NOX(N) N& operator=(const N& o) noexcept { core.set(o.get()); ::val::note("ca", get()); return *this; }
#define VAL_MA_NONE(N)
#define VAL_MA_DEL(N) N& operator=(N&&) = delete;
#define VAL_MA_DEF(N) N& operator=(N&&) = default;
#define VAL_MA_BODY                                                                                                    \
    {                                                                                                                  \
        const int v = o.get();                                                                                         \
        o.core.set(trk::kMoved);                                                                                       \
        core.set(v);                                                                                                   \
        ::val::note("ma", get());                                                                                      \
        return *this;                                                                                                  \
    }
#define VAL_MA_THR(N) N& operator=(N&& o) { trk::tick(); VAL_MA_BODY }
#define VAL_MA_NOX(N) N& operator=(N&& o) noexcept VAL_MA_BODY

#define VAL_COMPARE(N)                                                                                                 \
    friend bool operator==(const N& a, const N& b) { return a.get() == b.get(); }                                      \
    friend bool operator!=(const N& a, const N& b) { return a.get() != b.get(); }                                      \
    friend bool operator<(const N& a, const N& b) { return a.get() < b.get(); }                                        \
    friend bool operator<=(const N& a, const N& b) { return a.get() <= b.get(); }                                      \
    friend bool operator>(const N& a, const N& b) { return a.get() > b.get(); }                                        \
    friend bool operator>=(const N& a, const N& b) { return a.get() >= b.get(); }

/// The type other types convert from.
/// Makes the constructor from a list one that is not available without the list.
struct Extra
{};

struct Src
{
    Tracked core;
    explicit Src(int v) : core((trk::tick(), v)) { note("S", v); }
    int  get() const { return core.get(); }
    VAL_CC_THR(Src)
    VAL_MC_THR(Src)
    VAL_CA_THR(Src)
    VAL_MA_THR(Src)
    VAL_COMPARE(Src)
};

#define VAL_TYPE(N, CORE, CC, MC, CA, MA, EXTRA)                                                                       \
    struct N                                                                                                           \
    {                                                                                                                  \
        ::val::CORE core;                                                                                              \
        static void* operator new(std::size_t) = delete;                                                               \
        N() : core((trk::tick(), 0)) { ::val::note("d", 0); }                                                          \
        explicit N(int v) : core((trk::tick(), v)) { ::val::note("i", v); }                                            \
        N(std::initializer_list<int> il, int v, ::val::Extra) : core((trk::tick(), v)) { for (int x : il) { core.set(get() + x); } ::val::note("L", get()); } \
        N(const ::val::Src& s) : core((trk::tick(), s.get())) { ::val::note("fc", get()); }                            \
        N(::val::Src&& s) : core((trk::tick(), s.get())) { s.core.set(trk::kMoved); ::val::note("fm", get()); }        \
        N& operator=(const ::val::Src& s) { trk::tick(); core.set(s.get()); ::val::note("ac", get()); return *this; }  \
        N& operator=(::val::Src&& s) { trk::tick(); core.set(s.get()); s.core.set(trk::kMoved); ::val::note("am", get()); return *this; } \
        int get() const { return core.get(); }                                                                         \
        VAL_CC_##CC(N)                                                                                                 \
        VAL_MC_##MC(N)                                                                                                 \
        VAL_CA_##CA(N)                                                                                                 \
        VAL_MA_##MA(N)                                                                                                 \
        EXTRA(N)                                                                                                       \
    };

#define VAL_CMP_SRC(N)                                                                                                 \
    VAL_COMPARE(N)                                                                                                     \
    friend bool operator==(const N& a, const ::val::Src& b) { return a.get() == b.get(); }                             \
    friend bool operator!=(const N& a, const ::val::Src& b) { return a.get() != b.get(); }                             \
    friend bool operator<(const N& a, const ::val::Src& b) { return a.get() < b.get(); }                               \
    friend bool operator<=(const N& a, const ::val::Src& b) { return a.get() <= b.get(); }                             \
    friend bool operator>(const N& a, const ::val::Src& b) { return a.get() > b.get(); }                               \
    friend bool operator>=(const N& a, const ::val::Src& b) { return a.get() >= b.get(); }                             \
    friend bool operator==(const ::val::Src& a, const N& b) { return a.get() == b.get(); }                             \
    friend bool operator!=(const ::val::Src& a, const N& b) { return a.get() != b.get(); }                             \
    friend bool operator<(const ::val::Src& a, const N& b) { return a.get() < b.get(); }                               \
    friend bool operator<=(const ::val::Src& a, const N& b) { return a.get() <= b.get(); }                             \
    friend bool operator>(const ::val::Src& a, const N& b) { return a.get() > b.get(); }                               \
    friend bool operator>=(const ::val::Src& a, const N& b) { return a.get() >= b.get(); }

/// Every operator gives an unrelated answer, so which one was used on what, in which order, is visible.
inline bool odd(int op, int a, int b)
{
    return ((pbt::mix(static_cast<std::uint64_t>(op * 1000003 + a * 131 + b)) >> 20) & 1U) != 0;
}
#define VAL_CMP_ODD_2(A, B, K)                                                                                         \
    friend bool operator==(const A& a, const B& b) { return ::val::odd(K + 1, a.get(), b.get()); }                     \
    friend bool operator!=(const A& a, const B& b) { return ::val::odd(K + 2, a.get(), b.get()); }                     \
    friend bool operator<(const A& a, const B& b) { return ::val::odd(K + 3, a.get(), b.get()); }                      \
    friend bool operator<=(const A& a, const B& b) { return ::val::odd(K + 4, a.get(), b.get()); }                     \
    friend bool operator>(const A& a, const B& b) { return ::val::odd(K + 5, a.get(), b.get()); }                      \
    friend bool operator>=(const A& a, const B& b) { return ::val::odd(K + 6, a.get(), b.get()); }
#define VAL_CMP_ODD(N) VAL_CMP_ODD_2(N, N, 0) VAL_CMP_ODD_2(N, ::val::Src, 10) VAL_CMP_ODD_2(::val::Src, N, 20)

#define VAL_SWAP(N)                                                                                                    \
    VAL_CMP_SRC(N)                                                                                                     \
    friend void swap(N& a, N& b)                                                                                       \
    {                                                                                                                  \
        trk::tick();                                                                                                   \
        const int t = a.get();                                                                                         \
        a.core.set(b.get());                                                                                           \
        b.core.set(t);                                                                                                 \
        ::val::note("sw", t);                                                                                          \
    }

VAL_TYPE(Full, Tracked, THR, NOX, THR, NOX, VAL_CMP_SRC)
VAL_TYPE(AllThrow, Tracked, THR, THR, THR, THR, VAL_CMP_SRC)
VAL_TYPE(NeverThrow, Tracked, NOX, NOX, NOX, NOX, VAL_CMP_SRC)
VAL_TYPE(MoveOnly, Tracked, DEL, NOX, DEL, NOX, VAL_CMP_SRC)
VAL_TYPE(MoveOnlyThrow, Tracked, DEL, THR, DEL, THR, VAL_CMP_SRC)
VAL_TYPE(CopyOnly, Tracked, THR, NONE, THR, NONE, VAL_CMP_SRC)
VAL_TYPE(NoAssign, Tracked, THR, THR, DEL, DEL, VAL_CMP_SRC)
VAL_TYPE(Pinned, Tracked, DEL, DEL, DEL, DEL, VAL_CMP_SRC)
VAL_TYPE(Swappy, Tracked, THR, THR, THR, THR, VAL_SWAP)
VAL_TYPE(MixA, Tracked, NOX, THR, THR, NOX, VAL_CMP_SRC)
VAL_TYPE(MixB, Tracked, THR, NOX, NOX, THR, VAL_CMP_SRC)
VAL_TYPE(Odd, Tracked, THR, NOX, THR, NOX, VAL_CMP_ODD)
VAL_TYPE(FlatThrow, Plain, THR, THR, THR, THR, VAL_CMP_SRC)
VAL_TYPE(FlatCopyTrivial, Plain, DEF, DEF, THR, THR, VAL_CMP_SRC)
VAL_TYPE(FlatAssignTrivial, Plain, THR, THR, DEF, DEF, VAL_CMP_SRC)
VAL_TYPE(FlatMoveTrivial, Plain, THR, DEF, THR, DEF, VAL_CMP_SRC)
VAL_TYPE(FlatMoveOnly, Plain, DEL, DEF, DEL, DEF, VAL_CMP_SRC)
VAL_TYPE(FlatTrivial, Plain, DEF, DEF, DEF, DEF, VAL_CMP_SRC)

/// Calls f(x) only when B, without instantiating it otherwise.
template <bool B>
struct When
{
    template <typename F, typename... A>
    static bool run(F&& f, A&&... a)
    {
        f(std::forward<A>(a)...);
        return true;
    }
};
template <>
struct When<false>
{
    template <typename F, typename... A>
    static bool run(F&&, A&&...)
    {
        return false;
    }
};
}  // namespace val
