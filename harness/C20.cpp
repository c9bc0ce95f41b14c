// C20: pf17::basic_string_view answers what std::basic_string (and, where there is one, std::basic_string_view) answers.
#include "track.hpp"

#include "cetl/pf17/string_view.hpp"

#include <cctype>
#include <iomanip>
#include <iterator>
#include <memory>
#include <sstream>
#include <string>
#if __cplusplus >= 201703L
#    include <string_view>
#endif

namespace
{
// Letters compare without regard to case.
struct NoCase : std::char_traits<char>
{
    static char up(char c) { return (c >= 'a' && c <= 'z') ? static_cast<char>(c - 'a' + 'A') : c; }
    static bool eq(char a, char b) { return up(a) == up(b); }
    static bool lt(char a, char b) { return up(a) < up(b); }
    static int  compare(const char* a, const char* b, std::size_t n)
    {
        for (; n > 0; --n, ++a, ++b)
        {
            if (lt(*a, *b))
            {
                return -1;
            }
            if (lt(*b, *a))
            {
                return 1;
            }
        }
        return 0;
    }
    static const char* find(const char* s, std::size_t n, const char& c)
    {
        for (; n > 0; --n, ++s)
        {
            if (eq(*s, c))
            {
                return s;
            }
        }
        return nullptr;
    }
};
// The order is reversed, equality is not.
struct Reversed : std::char_traits<char>
{
    static bool lt(char a, char b) { return a > b; }
    static int  compare(const char* a, const char* b, std::size_t n) { return std::char_traits<char>::compare(b, a, n); }
};
// The terminator is a '.'; copies are counted.
struct Dotted : std::char_traits<char>
{
    static std::size_t length(const char* s)
    {
        std::size_t n = 0;
        while (s[n] != '.')
        {
            ++n;
        }
        return n;
    }
};

int sign(int x)
{
    return (x > 0) - (x < 0);
}

template <typename C>
std::string show(const C* p, std::size_t n)
{
    std::string s = "\"";
    for (std::size_t i = 0; i < n; ++i)
    {
        const auto c = static_cast<unsigned long>(p[i]) & (sizeof(C) == 1 ? 0xFFUL : 0xFFFFFFFFUL);
        s += (c >= 32 && c < 127) ? std::string(1, static_cast<char>(c)) : pbt::format("\\x%lx", c);
    }
    return s + "\"";
}

template <typename C, typename Tr>
struct Sv
{
    using View = cetl::pf17::basic_string_view<C, Tr>;
    using Str  = std::basic_string<C, Tr>;

    // What a view must denote.
    struct Model
    {
        const C*    p = nullptr;
        std::size_t n = 0;
        Str         str() const { return n == 0 ? Str() : Str(p, n); }
    };

    pbt::Case&                        c;
    std::vector<std::unique_ptr<C[]>> blocks;
    std::vector<std::unique_ptr<Str>> strings;
    View                              v[3];
    Model                             m[3];
    static constexpr bool             dotted = std::is_same<Tr, Dotted>::value;

    explicit Sv(pbt::Case& cc) : c(cc) {}

    C letter()
    {
        static const char few[] = {'a', 'A', 'b', 'B', '\0', 'c'};
        if (c.chance(7, 8))
        {
            return static_cast<C>(few[c.below(6)]);
        }
        return static_cast<C>(c.below(sizeof(C) == 1 ? 256 : 0xFFFF));
    }

    // Characters in a block of exactly that size (the sanitizer sees a step too far).
    std::pair<const C*, std::size_t> chars(std::size_t max)
    {
        const std::size_t n = c.size(0, max);
        std::unique_ptr<C[]> b(new C[n]);
        // a repetitive text makes partial matches likely
        const std::size_t period = c.boolean() ? 1 + c.below(3) : n + 1;
        for (std::size_t i = 0; i < n; ++i)
        {
            b[i] = (i >= period && !c.chance(1, 8)) ? b[i - period] : letter();
        }
        const C* p = b.get();
        blocks.push_back(std::move(b));
        return {p, n};
    }
    // A terminated copy.
    const C* terminated(Str& out, std::size_t max)
    {
        auto                 x = chars(max);
        std::unique_ptr<C[]> b(new C[x.second + 1]);
        std::size_t          n = 0;
        for (std::size_t i = 0; i < x.second; ++i)
        {
            const C end = dotted ? static_cast<C>('.') : C();
            if (x.first[i] != end)
            {
                b[n++] = x.first[i];
            }
        }
        std::unique_ptr<C[]> e(new C[n + 1]);
        for (std::size_t i = 0; i < n; ++i)
        {
            e[i] = b[i];
        }
        e[n]       = dotted ? static_cast<C>('.') : C();
        const C* p = e.get();
        out        = Str(p, n);
        blocks.push_back(std::move(e));
        return p;
    }

    std::size_t position(std::size_t n)
    {
        switch (c.weighted({4, 2, 1, 1, 1}))
        {
        case 0: return c.below(n + 1);
        case 1: return n;
        case 2: return n + 1 + c.below(3);
        case 3: return static_cast<std::size_t>(View::npos);
        default: return std::numeric_limits<std::size_t>::max() - 1 - c.below(4);
        }
    }

    // A needle that often occurs in the text.
    Model needle(std::size_t k)
    {
        Model x;
        if (m[k].n > 0 && c.chance(3, 5))
        {
            const std::size_t at  = c.below(m[k].n + 1);
            const std::size_t len = c.size(0, m[k].n - at);
            x.p                   = m[k].p + at;
            x.n                   = len;
            if (len > 0 && c.chance(1, 3))
            {
                std::unique_ptr<C[]> b(new C[len]);
                std::copy(x.p, x.p + len, b.get());
                b[c.below(len)] = letter();
                x.p             = b.get();
                blocks.push_back(std::move(b));
            }
        }
        else
        {
            auto y = chars(4);
            x.p    = c.chance(1, 6) ? nullptr : y.first;
            x.n    = x.p == nullptr ? 0 : y.second;
        }
        return x;
    }

    void invariant(std::size_t k)
    {
        const View&  a = v[k];
        const Model& b = m[k];
        PBT_CHECK(a.size() == b.n && a.length() == b.n && a.empty() == (b.n == 0), "view %zu: size %zu instead of %zu", k, a.size(), b.n);
        PBT_CHECK(a.data() == b.p, "view %zu denotes other characters", k);
        PBT_CHECK(static_cast<std::size_t>(std::distance(a.begin(), a.end())) == b.n && static_cast<std::size_t>(std::distance(a.cbegin(), a.cend())) == b.n,
                  "view %zu: distance of its iterators", k);
        PBT_CHECK(a.max_size() >= b.n, "view %zu: max_size %zu", k, a.max_size());
        std::size_t i = 0;
        for (const C& x : a)
        {
            PBT_CHECK(&x == b.p + i && &a[i] == b.p + i && &a.at(i) == b.p + i, "view %zu: element %zu", k, i);
            ++i;
        }
        if (b.n > 0)
        {
            PBT_CHECK(&a.front() == b.p && &a.back() == b.p + b.n - 1, "view %zu: front or back", k);
        }
    }

#if PBT_EXC
    template <typename F>
    static bool out_of_range(F f)
    {
        try
        {
            f();
        } catch (const std::out_of_range&)
        {
            return true;
        }
        return false;
    }
#endif

    void construct(std::size_t k)
    {
        switch (c.weighted({1, 3, 2, 2, 2, 1}))
        {
        case 0:
            c.log("v%zu = View()", k);
            v[k] = View();
            m[k] = Model();
            break;
        case 1: {
            auto x = chars(c.thorough() ? 60 : 24);
            c.log("v%zu = View(p, %zu) %s", k, x.second, show(x.first, x.second).c_str());
            v[k] = View(x.first, x.second);
            m[k] = Model{x.first, x.second};
            break;
        }
        case 2: {
            Str         s;
            const C*    p = terminated(s, 16);
            c.log("v%zu = View(cstr) %s", k, show(p, s.size()).c_str());
            View w = p;
            v[k]   = w;
            m[k]   = Model{p, s.size()};
            break;
        }
        case 3: {
            auto x = chars(20);
            strings.emplace_back(new Str(x.first, x.second));
            c.log("v%zu = View(std::string) %s", k, show(x.first, x.second).c_str());
            v[k] = *strings.back();
            m[k] = Model{strings.back()->data(), strings.back()->size()};
            break;
        }
        case 4: {
            const std::size_t j = c.below(3);
            c.log("v%zu = View(v%zu)", k, j);
            View w(v[j]);
            v[k] = w;
            m[k] = m[j];
            break;
        }
        default:
            c.log("v%zu = View(nullptr pointer, 0)", k);
            v[k] = View(static_cast<const C*>(nullptr), 0);
            m[k] = Model();
        }
    }

    void cut(std::size_t k)
    {
        const std::size_t n = c.chance(1, 5) ? position(m[k].n) : c.below(m[k].n + 1);
        const std::size_t e = std::min(n, m[k].n);
        if (c.boolean())
        {
            c.log("v%zu.remove_prefix(%zu)", k, n);
            v[k].remove_prefix(n);
            m[k].p += e;
        }
        else
        {
            c.log("v%zu.remove_suffix(%zu)", k, n);
            v[k].remove_suffix(n);
        }
        m[k].n -= e;
    }

    void substr(std::size_t k)
    {
        const std::size_t j   = c.below(3);
        const std::size_t pos = position(m[j].n);
        const std::size_t cnt = position(m[j].n);
        const bool        def = c.chance(1, 4);
        c.log("v%zu = v%zu.substr(%zu%s)", k, j, pos, def ? "" : pbt::format(", %zu", cnt).c_str());
        if (pos > m[j].n)
        {
#if PBT_EXC
            PBT_CHECK(out_of_range([&] { (void) (def ? v[j].substr(pos) : v[j].substr(pos, cnt)); }), "substr past the end did not throw");
#endif
            return;
        }
        const Str want = def ? m[j].str().substr(pos) : m[j].str().substr(pos, cnt);
        View      r    = def ? v[j].substr(pos) : v[j].substr(pos, cnt);
        v[k]           = r;
        m[k]           = Model{m[j].p + pos, want.size()};
        if (pos == 0 && c.chance(1, 4))
        {
            View d = v[j].substr();
            (void) d;
        }
    }

    void copy(std::size_t k)
    {
        const std::size_t pos = position(m[k].n);
        const std::size_t cnt = position(m[k].n);
        c.log("v%zu.copy(dest, %zu, %zu)", k, cnt, pos);
        if (pos > m[k].n)
        {
#if PBT_EXC
            C dummy[1] = {};
            PBT_CHECK(out_of_range([&] { (void) v[k].copy(dummy, cnt, pos); }), "copy past the end did not throw");
#endif
            return;
        }
        const Str            want = m[k].str().substr(pos, cnt);
        std::unique_ptr<C[]> d(new C[want.size()]);
        const std::size_t    r = (pos == 0 && c.boolean()) ? v[k].copy(d.get(), cnt) : v[k].copy(d.get(), cnt, pos);
        PBT_CHECK(r == want.size(), "copy returned %zu instead of %zu", r, want.size());
        for (std::size_t i = 0; i < r; ++i)
        {
            PBT_CHECK(d[i] == want[i], "copied character %zu", i);
        }
    }

    void at(std::size_t k)
    {
        const std::size_t pos = position(m[k].n);
        c.log("v%zu.at(%zu)", k, pos);
        if (pos < m[k].n)
        {
            PBT_CHECK(&v[k].at(pos) == m[k].p + pos, "at(%zu)", pos);
        }
        else
        {
#if PBT_EXC
            PBT_CHECK(out_of_range([&] { (void) v[k].at(pos); }), "at past the end did not throw");
#endif
        }
    }

    template <typename A, typename B>
    void relations(const char* what, const A& a, const B& b, int want)
    {
        PBT_CHECK((a == b) == (want == 0), "%s: ==", what);
        PBT_CHECK((a != b) == (want != 0), "%s: !=", what);
        PBT_CHECK((a < b) == (want < 0), "%s: <", what);
        PBT_CHECK((a > b) == (want > 0), "%s: >", what);
        PBT_CHECK((a <= b) == (want <= 0), "%s: <=", what);
        PBT_CHECK((a >= b) == (want >= 0), "%s: >=", what);
    }

    void compare(std::size_t k)
    {
        Model o;
        if (c.boolean())
        {
            o = m[c.below(3)];
        }
        else
        {
            // mostly a variation of the text
            Str s = m[k].str();
            if (!s.empty() && c.boolean())
            {
                s[c.below(s.size())] = letter();
            }
            if (c.boolean())
            {
                s.resize(c.below(s.size() + 1));
            }
            else if (c.boolean())
            {
                s.push_back(letter());
            }
            strings.emplace_back(new Str(s));
            o = Model{strings.back()->data(), s.size()};
        }
        const View w(o.p, o.n);
        const int  want = sign(m[k].str().compare(o.str()));
        c.log("v%zu.compare(%s) -> %d", k, show(o.p, o.n).c_str(), want);
        PBT_CHECK(sign(v[k].compare(w)) == want && sign(w.compare(v[k])) == -want, "compare: %d", v[k].compare(w));
        relations("views", v[k], w, want);
        const Str str = o.str();
        PBT_CHECK(sign(v[k].compare(str)) == want, "compare with a string: %d", v[k].compare(str));
        relations("view and string", v[k], str, want);
        relations("string and view", str, v[k], -want);
#if __cplusplus >= 201703L
        const std::basic_string_view<C, Tr> s1(m[k].p, m[k].n);
        const std::basic_string_view<C, Tr> s2(o.p, o.n);
        PBT_CHECK(sign(s1.compare(s2)) == want, "the oracles disagree");
#endif
        Str      ts;
        const C* p  = terminated(ts, 6);
        const int w2 = sign(m[k].str().compare(ts));
        c.log("v%zu.compare(cstr %s) -> %d", k, show(ts.data(), ts.size()).c_str(), w2);
        PBT_CHECK(sign(v[k].compare(p)) == w2, "compare with a pointer: %d", v[k].compare(p));
        relations("view and pointer", v[k], p, w2);
        relations("pointer and view", p, v[k], -w2);
    }

    void find(std::size_t k)
    {
        const Str         text = m[k].str();
        const std::size_t pos  = position(m[k].n);
        auto              same = [&](std::size_t got, std::size_t want, const char* what) {
            PBT_CHECK(got == want, "%s at %zu found %zu instead of %zu in %s", what, pos, got, want, show(m[k].p, m[k].n).c_str());
        };
        switch (c.below(4))
        {
        case 0: {
            const C x = (m[k].n > 0 && c.boolean()) ? m[k].p[c.below(m[k].n)] : letter();
            c.log("v%zu.find(char %s, %zu)", k, show(&x, 1).c_str(), pos);
            same(v[k].find(x, pos), text.find(x, pos), "character");
            if (c.chance(1, 3))
            {
                same(v[k].find(x), text.find(x), "character from the start");
            }
            break;
        }
        case 1: {
            Str      s;
            const C* p = terminated(s, 3);
            c.log("v%zu.find(cstr %s, %zu)", k, show(s.data(), s.size()).c_str(), pos);
            same(v[k].find(p, pos), text.find(s, pos), "terminated needle");
            break;
        }
        default: {
            const Model x = needle(k);
            c.log("v%zu.find(%s, %zu)", k, show(x.p, x.n).c_str(), pos);
            const View w(x.p, x.n);
            same(v[k].find(w, pos), text.find(x.str(), pos), "needle");
            if (c.chance(1, 3))
            {
                same(v[k].find(w), text.find(x.str()), "needle from the start");
            }
#if __cplusplus >= 201703L
            same(v[k].find(w, pos), (std::basic_string_view<C, Tr>(m[k].p, m[k].n).find(std::basic_string_view<C, Tr>(x.p, x.n), pos)), "needle (std)");
#endif
        }
        }
    }

    // A destination that takes only so many characters.
    struct Limited : std::basic_streambuf<C, Tr>
    {
        Str         got;
        std::size_t room;
        bool        throws;
        explicit Limited(std::size_t r, bool t) : room(r), throws(t) {}
        typename Tr::int_type overflow(typename Tr::int_type x) override
        {
            if (got.size() >= room)
            {
#if PBT_EXC
                if (throws)
                {
                    throw trk::Boom{7};
                }
#endif
                return Tr::eof();
            }
            got.push_back(Tr::to_char_type(x));
            return Tr::not_eof(x);
        }
    };

    struct Outcome
    {
        Str             text;
        int             state;
        std::streamsize width;
        int             thrown;
    };

    struct Format
    {
        std::ios_base::fmtflags adjust;
        std::streamsize         width;
        C                       fill;
        std::size_t             room;
        bool                    throws;
        bool                    failed;
        bool                    mask;
        bool                    unit;
        int                     times;
    };

    template <typename T>
    static Outcome print(const Format& f, const T& x)
    {
        Limited                    buf(f.room, f.throws);
        std::basic_ostream<C, Tr> os(&buf);
        os.setf(f.adjust, std::ios_base::adjustfield);
        os.fill(f.fill);
        if (f.unit)
        {
            os.setf(std::ios_base::unitbuf);
        }
        if (f.failed)
        {
            os.setstate(std::ios_base::failbit);
        }
        Outcome r{Str(), 0, 0, 0};
#if PBT_EXC
        try
        {
            if (f.mask)
            {
                os.exceptions(std::ios_base::badbit);
            }
#endif
            for (int i = 0; i < f.times; ++i)
            {
                os.width(f.width);
                os << x;
            }
#if PBT_EXC
        } catch (const trk::Boom&)
        {
            r.thrown = 1;
        } catch (const std::ios_base::failure&)
        {
            r.thrown = 2;
        }
#endif
        r.text  = buf.got;
        r.state = (os.bad() ? 1 : 0) | (os.fail() ? 2 : 0) | (os.eof() ? 4 : 0);
        r.width = os.width();
        return r;
    }

    void stream(std::size_t k)
    {
        Format f{};
        switch (c.below(5))
        {
        case 0: f.adjust = std::ios_base::fmtflags(); break;
        case 1: f.adjust = std::ios_base::left; break;
        case 2: f.adjust = std::ios_base::right; break;
        case 3: f.adjust = std::ios_base::internal; break;
        default: f.adjust = std::ios_base::left | std::ios_base::right; break;
        }
        f.width  = c.chance(1, 8) ? -static_cast<std::streamsize>(c.below(4)) : static_cast<std::streamsize>(c.below(m[k].n + 8));
        f.fill   = static_cast<C>(c.pick<int>({32, 42, 97, 0}));
        f.room   = c.chance(1, 4) ? c.below(m[k].n + 6) : 1000;
        f.throws = c.chance(1, 3);
        f.failed = c.chance(1, 8);
        f.mask   = PBT_EXC && c.chance(1, 4);
        f.unit   = c.chance(1, 6);
        f.times  = c.chance(1, 5) ? 2 : 1;
        c.log("out << v%zu with flags %d width %d fill %s room %zu%s%s%s", k, static_cast<int>(f.adjust), static_cast<int>(f.width),
              show(&f.fill, 1).c_str(), f.room, f.failed ? " failed" : "", f.mask ? " exceptions" : "", f.unit ? " unitbuf" : "");
        const Outcome want = print(f, m[k].str());
        const Outcome got  = print(f, v[k]);
        PBT_CHECK(got.text.size() == want.text.size() && std::char_traits<C>::compare(got.text.data(), want.text.data(), want.text.size()) == 0,
                  "printed %s instead of %s", show(got.text.data(), got.text.size()).c_str(), show(want.text.data(), want.text.size()).c_str());
        PBT_CHECK(got.state == want.state, "stream state %d instead of %d", got.state, want.state);
        // what is left of the width after the destination refused characters is not prescribed
        PBT_CHECK(got.width == want.width || (want.state != 0 && !f.failed), "width afterwards %d instead of %d", static_cast<int>(got.width), static_cast<int>(want.width));
        PBT_CHECK(got.thrown == want.thrown, "exception %d instead of %d", got.thrown, want.thrown);
    }
    template <typename T = C, std::enable_if_t<(std::is_same<T, char>::value || std::is_same<T, wchar_t>::value), int> = 0>
    void maybe_stream(std::size_t k)
    {
        stream(k);
    }
    template <typename T = C, std::enable_if_t<!(std::is_same<T, char>::value || std::is_same<T, wchar_t>::value), int> = 0>
    void maybe_stream(std::size_t k)
    {
        find(k);
    }

    void run()
    {
        int asked = 0;
        std::size_t ops = 0;
        for (std::size_t k = 0; k < 3; ++k)
        {
            construct(k);
            invariant(k);
        }
        const std::size_t max = c.thorough() ? 60 : 30;
        while (c.more(ops, 12, max))
        {
            const std::size_t k = c.below(3);
            switch (c.weighted({2, 2, 2, 1, 1, 3, 4, 3, 1}))
            {
            case 0: construct(k); break;
            case 1: cut(k); break;
            case 2: substr(k); break;
            case 3: copy(k); ++asked; break;
            case 4: at(k); break;
            case 5: compare(k); ++asked; break;
            case 6: find(k); ++asked; break;
            case 7: maybe_stream(k); ++asked; break;
            default: {
                const std::size_t j = c.below(3);
                c.log("swap(v%zu, v%zu)", k, j);
                if (c.boolean())
                {
                    v[k].swap(v[j]);
                }
                else
                {
                    using std::swap;
                    swap(v[k], v[j]);
                }
                std::swap(m[k], m[j]);
            }
            }
            for (std::size_t i = 0; i < 3; ++i)
            {
                invariant(i);
            }
        }
        if (asked >= 2 && (m[0].n > 0 || m[1].n > 0 || m[2].n > 0))
        {
            c.nontrivial();
        }
    }
};

template <typename C, typename Tr>
void run_sv(pbt::Case& c)
{
    Sv<C, Tr> s(c);
    s.run();
}
}  // namespace

PBT_TARGET(sv_char, (run_sv<char, std::char_traits<char>>), 6000, 120000);
PBT_TARGET(sv_wchar, (run_sv<wchar_t, std::char_traits<wchar_t>>), 2000, 40000);
PBT_TARGET(sv_char16, (run_sv<char16_t, std::char_traits<char16_t>>), 1500, 30000);
PBT_TARGET(sv_nocase, (run_sv<char, NoCase>), 3000, 60000);
PBT_TARGET(sv_reversed, (run_sv<char, Reversed>), 2000, 40000);
PBT_TARGET(sv_dotted, (run_sv<char, Dotted>), 1500, 30000);
