// Property-based testing engine: choice tapes, forked workers, internal shrinking, replay files.
//
// A target is `void f(pbt::Case& c)`. Everything random is drawn from `c`. A failed check calls pbt::fail, which ends
// the (forked) process; crashes, sanitizer reports and debug assertions end it as well. The supervisor knows the tape of
// the running case through shared memory, so every kind of failure is replayed and shrunk the same way.
//
// Works with and without exceptions. Include it in exactly one translation unit per binary.
#pragma once

#ifndef _GNU_SOURCE
#    define _GNU_SOURCE
#endif
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <initializer_list>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt
{

constexpr std::size_t kMaxTape   = 1U << 16;
constexpr std::size_t kMaxLabels = 192;
constexpr std::size_t kMaxSamples = 4;

struct Label
{
    char          name[56];
    std::uint64_t count;
};

struct Shared
{
    std::uint64_t evals;
    std::uint64_t nontrivial;       // all non-trivial evaluations
    std::uint64_t distinct;         // distinct non-trivial evaluations (within this job)
    std::uint64_t cur_case;
    std::uint64_t hashes;           // number of entries in the hash array
    std::uint32_t tape_len;
    std::uint32_t sample_count;
    std::uint64_t sample_case[kMaxSamples];
    char          msg[2048];
    Label         labels[kMaxLabels];
    std::uint64_t tape[kMaxTape];
};

inline Shared*& shared()
{
    static Shared* s = nullptr;
    return s;
}

inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}

inline std::uint64_t hash_str(const char* s)
{
    std::uint64_t h = 1469598103934665603ULL;
    for (; *s != 0; ++s)
    {
        h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ULL;
    }
    return h;
}

struct Rng
{
    std::uint64_t s = 1;
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
};

class Case;
inline Case*& current_case()
{
    static Case* c = nullptr;
    return c;
}

class Case
{
public:
    enum class Mode
    {
        Random,
        Tape,
        Bytes
    };

    Mode                              mode = Mode::Random;
    Rng                               rng;
    const std::vector<std::uint64_t>* in     = nullptr;
    const std::uint8_t*               bytes  = nullptr;
    std::size_t                       nbytes = 0;
    std::size_t                       pos    = 0;
    std::uint64_t                     hash   = 0;
    bool                              verbose_ = false;
    bool                              nontrivial_ = false;
    bool                              thorough_ = false;
    std::FILE*                        out = nullptr;

    /// A value in [0, n).
    std::uint64_t below(std::uint64_t n)
    {
        if (n <= 1)
        {
            return 0;  // no information, not recorded
        }
        std::uint64_t v = 0;
        switch (mode)
        {
        case Mode::Random:
            v = rng.next() % n;
            break;
        case Mode::Tape:
            v = (pos < in->size()) ? (*in)[pos] % n : 0;
            break;
        case Mode::Bytes: {
            const std::size_t width = (n <= 256) ? 1 : (n <= 65536) ? 2 : (n <= (1ULL << 32)) ? 4 : 8;
            for (std::size_t i = 0; i < width && pos_bytes_ < nbytes; ++i)
            {
                v |= static_cast<std::uint64_t>(bytes[pos_bytes_++]) << (8 * i);
            }
            v %= n;
            break;
        }
        }
        ++pos;
        Shared* s = shared();
        if (s->tape_len < kMaxTape)
        {
            s->tape[s->tape_len++] = v;
        }
        hash = mix(hash ^ v) + 1;
        return v;
    }
    /// A value in [lo, hi].
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    std::size_t size(std::size_t lo, std::size_t hi)
    {
        return lo + static_cast<std::size_t>(below(hi - lo + 1));
    }
    bool boolean()
    {
        return below(2) != 0;
    }
    /// True with probability num/den; false is the simple value.
    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }
    /// True with probability (1 - 1/avg): the guard of a loop over operations; the simple value stops the loop.
    bool more(std::size_t& done, std::size_t avg, std::size_t max)
    {
        if (done >= max)
        {
            return false;
        }
        if (below(avg) == 0)
        {
            return false;
        }
        ++done;
        return true;
    }
    std::size_t weighted(std::initializer_list<unsigned> w)
    {
        std::uint64_t total = 0;
        for (unsigned x : w)
        {
            total += x;
        }
        std::uint64_t v = below(total);
        std::size_t   i = 0;
        for (unsigned x : w)
        {
            if (v < x)
            {
                return i;
            }
            v -= x;
            ++i;
        }
        return 0;
    }
    template <typename T>
    T pick(std::initializer_list<T> values)
    {
        return *(values.begin() + static_cast<std::ptrdiff_t>(below(values.size())));
    }

    bool verbose() const
    {
        return verbose_;
    }
    bool thorough() const
    {
        return thorough_;
    }
    __attribute__((format(printf, 2, 3))) void log(const char* fmt, ...)
    {
        if (verbose_ && out != nullptr)
        {
            va_list ap;
            va_start(ap, fmt);
            std::vfprintf(out, fmt, ap);
            va_end(ap);
            std::fputc('\n', out);
            std::fflush(out);
        }
    }
    /// Mark this case as non-trivial by the rule of its target.
    void nontrivial()
    {
        nontrivial_ = true;
    }
    void label(const char* name, std::uint64_t n = 1)
    {
        Shared* s = shared();
        for (auto& l : s->labels)
        {
            if (l.name[0] == 0)
            {
                std::snprintf(l.name, sizeof(l.name), "%s", name);
                l.count = n;
                return;
            }
            if (std::strncmp(l.name, name, sizeof(l.name) - 1) == 0)
            {
                l.count += n;
                return;
            }
        }
    }

private:
    std::size_t pos_bytes_ = 0;
};

[[noreturn]] inline void die()
{
#ifdef PBT_LIBFUZZER
    std::abort();
#else
    ::_exit(70);
#endif
}

[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(shared()->msg, sizeof(shared()->msg), fmt, ap);
    va_end(ap);
    if (current_case() != nullptr)
    {
        current_case()->log("FAILED: %s", shared()->msg);
    }
    std::fprintf(stderr, "FAILED: %s\n", shared()->msg);
    die();
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
inline const char* base_name(const char* f)
{
    const char* p = std::strrchr(f, '/');
    return p != nullptr ? p + 1 : f;
}
[[noreturn]] __attribute__((format(printf, 4, 5), noinline, cold)) inline void check_failed(const char* file, int line, const char* cond,
                                                                                             const char* fmt, ...)
{
    char    buf[1024];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    fail("%s:%d: %s -- %s", base_name(file), line, cond, buf);
}
/// Oracle check: ends the case as a failure when the condition does not hold.
#define PBT_CHECK(cond, ...)                                                                                            \
    do                                                                                                                  \
    {                                                                                                                   \
        if (__builtin_expect(!(cond), 0))                                                                               \
        {                                                                                                               \
            ::pbt::check_failed(__FILE__, __LINE__, #cond, "" __VA_ARGS__);                                             \
        }                                                                                                               \
    } while (false)

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-zero-length"
inline std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string format(const char* fmt, ...)
{
    char    buf[1024];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    return buf;
}
#pragma GCC diagnostic pop

struct Target
{
    const char*   name;
    void (*fn)(Case&);
    std::uint64_t quick;
    std::uint64_t thorough;
};
inline std::vector<Target>& targets()
{
    static std::vector<Target> t;
    return t;
}
struct Register
{
    Register(const char* name, void (*fn)(Case&), std::uint64_t quick, std::uint64_t thorough)
    {
        targets().push_back(Target{name, fn, quick, thorough});
    }
};
/// PBT_TARGET(identifier, function, cases per quick run, cases per thorough run)
#define PBT_TARGET(id, fn, quick, thorough) static ::pbt::Register pbt_reg_##id(#id, fn, quick, thorough)

// ---------------------------------------------------------------------------------------------------------------------

namespace detail
{

struct Outcome
{
    bool                       failed = false;
    std::string                kind;
    std::string                msg;
    std::string                err;
    std::vector<std::uint64_t> tape;
    std::string                trace;
};

inline double now()
{
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

inline void cpu_limit(int seconds)
{
    itimerval tv{};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

inline int temp_fd()
{
    return static_cast<int>(memfd_create("pbt", 0));
}

inline std::string slurp(int fd, std::size_t limit)
{
    const off_t end   = lseek(fd, 0, SEEK_END);
    std::string r;
    const off_t start = 0;
    lseek(fd, start, SEEK_SET);
    r.resize(std::min<std::size_t>(static_cast<std::size_t>(end - start), limit));
    std::size_t got = 0;
    while (got < r.size())
    {
        const ssize_t n = ::read(fd, &r[got], r.size() - got);
        if (n <= 0)
        {
            break;
        }
        got += static_cast<std::size_t>(n);
    }
    r.resize(got);
    return r;
}

inline void run_one(const Target& t, Case& c)
{
    shared()->tape_len = 0;
    current_case()     = &c;
    t.fn(c);
    current_case() = nullptr;
}

inline std::string describe(int status)
{
    if (WIFEXITED(status))
    {
        const int e = WEXITSTATUS(status);
        if (e == 70)
        {
            return "oracle";
        }
        return "exit-" + std::to_string(e);
    }
    if (WIFSIGNALED(status))
    {
        const int sig = WTERMSIG(status);
        if (sig == SIGPROF)
        {
            return "cpu-time-limit";
        }
        return "signal-" + std::to_string(sig);
    }
    return "unknown";
}

inline const char*& cpu_seconds_env()
{
    static const char* s = nullptr;
    return s;
}
constexpr int kCaseCpuSeconds = 60;

/// Runs one tape in its own process.
inline Outcome run_tape_once(const Target& t, const std::vector<std::uint64_t>& tape, bool verbose, bool thorough)
{
    Outcome   o;
    const int efd = temp_fd();
    const int tfd = temp_fd();
    shared()->msg[0] = 0;
    shared()->tape_len = 0;
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        dup2(efd, 2);
        cpu_limit(kCaseCpuSeconds);
        Case c;
        c.mode     = Case::Mode::Tape;
        c.in       = &tape;
        c.thorough_ = thorough;
        c.verbose_ = verbose;
        if (verbose)
        {
            c.out = fdopen(dup(tfd), "w");
        }
        run_one(t, c);
        ::_exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    o.failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
    o.kind   = describe(status);
    o.msg    = shared()->msg;
    o.err    = slurp(efd, 6000);
    o.trace  = slurp(tfd, 20000);
    o.tape.assign(shared()->tape, shared()->tape + shared()->tape_len);
    close(efd);
    close(tfd);
    return o;
}

/// Targets named mt_* depend on the thread schedule: a tape is run again until it fails.
inline bool schedule_dependent(const Target& t)
{
    return std::strncmp(t.name, "mt_", 3) == 0;
}
inline Outcome run_tape(const Target& t, const std::vector<std::uint64_t>& tape, bool verbose, bool thorough)
{
    Outcome o = run_tape_once(t, tape, verbose, thorough);
    for (int i = 0; i < 40 && !o.failed && schedule_dependent(t); ++i)
    {
        o = run_tape_once(t, tape, verbose, thorough);
    }
    return o;
}

inline bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b)
{
    if (a.size() != b.size())
    {
        return a.size() < b.size();
    }
    return a < b;
}

inline std::vector<std::uint64_t> shrink(const Target& t, std::vector<std::uint64_t> best, double budget_s, bool thorough)
{
    const double deadline = now() + budget_s;
    std::size_t  runs     = 0;
    auto         attempt  = [&](const std::vector<std::uint64_t>& cand) {
        if (!simpler(cand, best) || now() > deadline || runs > 6000)
        {
            return false;
        }
        ++runs;
        const Outcome o = run_tape(t, cand, false, thorough);
        if (!o.failed || o.kind == "cpu-time-limit")
        {
            return false;
        }
        // The executed tape is the normal form of the candidate.
        best = simpler(o.tape, cand) ? o.tape : cand;
        return true;
    };
    bool progress = true;
    while (progress && now() < deadline)
    {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(best.size() / 2, 1); len >= 1; len = (len > 8) ? len / 2 : len - 1)
        {
            for (std::size_t at = best.size(); at-- > 0 && now() < deadline;)
            {
                if (at + len > best.size())
                {
                    continue;
                }
                std::vector<std::uint64_t> cand(best);
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(at), cand.begin() + static_cast<std::ptrdiff_t>(at + len));
                if (attempt(cand))
                {
                    progress = true;
                    at       = std::min(at, best.size());
                }
            }
            if (len == 1)
            {
                break;
            }
        }
        for (std::size_t i = 0; i < best.size() && now() < deadline; ++i)
        {
            if (best[i] == 0)
            {
                continue;
            }
            std::vector<std::uint64_t> cand(best);
            cand[i] = 0;
            if (attempt(cand))
            {
                progress = true;
                continue;
            }
            std::uint64_t lo = 0;
            while (i < best.size() && lo + 1 < best[i] && now() < deadline)
            {
                const std::uint64_t mid = lo + (best[i] - lo) / 2;
                cand                    = best;
                cand[i]                 = mid;
                if (attempt(cand))
                {
                    progress = true;
                }
                else
                {
                    lo = mid;
                }
            }
        }
    }
    return best;
}

inline std::string json_escape(const std::string& s)
{
    std::string r;
    for (const char ch : s)
    {
        const auto u = static_cast<unsigned char>(ch);
        if (ch == '"' || ch == '\\')
        {
            r += '\\';
            r += ch;
        }
        else if (ch == '\n')
        {
            r += "\\n";
        }
        else if (u < 0x20 || u >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", u);
            r += b;
        }
        else
        {
            r += ch;
        }
    }
    return r;
}

inline void write_report(const std::string& path, const Target& t, bool truncated, const Outcome* failure, const Outcome* original,
                         const std::vector<Outcome>& samples, double wall)
{
    std::FILE* f = std::fopen(path.c_str(), "w");
    if (f == nullptr)
    {
        std::fprintf(stderr, "cannot write %s\n", path.c_str());
        std::exit(3);
    }
    const Shared* s = shared();
    std::fprintf(f,
                 "{\"target\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"truncated\":%s,\"wall_s\":%.3f,\n",
                 t.name, static_cast<unsigned long long>(s->evals), static_cast<unsigned long long>(s->nontrivial),
                 static_cast<unsigned long long>(s->distinct), truncated ? "true" : "false", wall);
    std::fprintf(f, "\"labels\":{");
    bool first = true;
    for (const auto& l : s->labels)
    {
        if (l.name[0] == 0)
        {
            break;
        }
        std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(l.name).c_str(), static_cast<unsigned long long>(l.count));
        first = false;
    }
    std::fprintf(f, "},\n\"samples\":[");
    first = true;
    for (const auto& o : samples)
    {
        std::fprintf(f, "%s\"%s\"", first ? "" : ",\n", json_escape(o.trace.substr(0, 3000)).c_str());
        first = false;
    }
    std::fprintf(f, "]");
    auto put_tape = [&](const char* key, const std::vector<std::uint64_t>& tape) {
        std::fprintf(f, ",\n\"%s\":[", key);
        for (std::size_t i = 0; i < tape.size(); ++i)
        {
            std::fprintf(f, "%s%llu", i == 0 ? "" : ",", static_cast<unsigned long long>(tape[i]));
        }
        std::fprintf(f, "]");
    };
    if (failure != nullptr)
    {
        std::fprintf(f, ",\n\"failure\":{\"kind\":\"%s\",\"message\":\"%s\",\"stderr\":\"%s\",\"trace\":\"%s\"", json_escape(failure->kind).c_str(),
                     json_escape(failure->msg).c_str(), json_escape(failure->err).c_str(), json_escape(failure->trace).c_str());
        put_tape("tape", failure->tape);
        if (original != nullptr)
        {
            put_tape("original_tape", original->tape);
        }
        std::fprintf(f, "}");
    }
    std::fprintf(f, "}\n");
    std::fclose(f);
}

inline std::vector<std::uint64_t> parse_tape(const char* s)
{
    std::vector<std::uint64_t> v;
    while (*s != 0)
    {
        if (*s >= '0' && *s <= '9')
        {
            char* e = nullptr;
            v.push_back(std::strtoull(s, &e, 10));
            s = e;
        }
        else
        {
            ++s;
        }
    }
    return v;
}

inline const Target* find(const char* name)
{
    for (const auto& t : targets())
    {
        if (std::strcmp(t.name, name) == 0)
        {
            return &t;
        }
    }
    return nullptr;
}

/// Confirms, shrinks and reports a failing tape. Returns the exit code of the job.
inline int report_failure(const Target& t, const Outcome& seen, const std::string& report, double shrink_s, bool thorough, bool truncated,
                          double started)
{
    int     again = 0;
    Outcome last;
    for (int i = 0; i < 3; ++i)
    {
        last = run_tape(t, seen.tape, false, thorough);
        again += last.failed ? 1 : 0;
    }
    if (again < 3 && schedule_dependent(t))
    {
        // The oracle of these targets holds for every schedule, so what was seen is a violation even if it is rare.
        write_report(report, t, truncated, &seen, &seen, {}, now() - started);
        return 1;
    }
    if (again < 3)
    {
        std::fprintf(stderr, "target %s: failure did not replay (%d of 3): %s %s\n%s\n", t.name, again, seen.kind.c_str(), seen.msg.c_str(),
                     seen.err.c_str());
        return 5;  // not reproducible: the engine's or the harness' fault
    }
    const auto tape = shrink(t, seen.tape, shrink_s, thorough);
    Outcome    fin  = run_tape(t, tape, true, thorough);
    if (!fin.failed)
    {
        fin = run_tape(t, seen.tape, true, thorough);
    }
    if (!fin.failed && schedule_dependent(t))
    {
        fin = seen;
    }
    fin.tape = fin.failed ? (fin.tape.empty() ? tape : fin.tape) : seen.tape;
    write_report(report, t, truncated, &fin, &seen, {}, now() - started);
    return 1;
}

inline int run_cases(const Target& t, std::uint64_t seed, std::uint64_t begin, std::uint64_t count, double time_s, const std::string& report,
                     const std::string& hashes, bool thorough, double shrink_s)
{
    const double        started  = now();
    const double        deadline = started + time_s;
    const std::uint64_t base     = mix(seed * 0x1234567ULL + hash_str(t.name));
    const std::size_t   max_hash = 1U << 21;
    auto*               harr     = static_cast<std::uint64_t*>(
        mmap(nullptr, max_hash * sizeof(std::uint64_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    Shared*   s   = shared();
    const int efd = temp_fd();
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        dup2(efd, 2);
        std::unordered_set<std::uint64_t> seen;
        for (std::uint64_t i = begin; i < begin + count; ++i)
        {
            if (((i & 15U) == 0) && now() > deadline)
            {
                ::_exit(9);
            }
            cpu_limit(kCaseCpuSeconds);
            s->cur_case = i;
            Case c;
            c.rng.s     = mix(base ^ mix(i));
            c.thorough_ = thorough;
            run_one(t, c);
            ++s->evals;
            if (c.nontrivial_)
            {
                ++s->nontrivial;
                if (seen.insert(c.hash).second)
                {
                    ++s->distinct;
                    if (s->hashes < max_hash)
                    {
                        harr[s->hashes++] = c.hash;
                    }
                    if (s->sample_count < kMaxSamples && (s->distinct == 1 || s->distinct == 40 || s->distinct == 400))
                    {
                        s->sample_case[s->sample_count++] = i;
                    }
                }
            }
        }
        ::_exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    const bool truncated = WIFEXITED(status) && WEXITSTATUS(status) == 9;
    const bool ok        = truncated || (WIFEXITED(status) && WEXITSTATUS(status) == 0);
    if (!hashes.empty())
    {
        std::FILE* f = std::fopen(hashes.c_str(), "wb");
        if (f != nullptr)
        {
            std::fwrite(harr, sizeof(std::uint64_t), s->hashes, f);
            std::fclose(f);
        }
    }
    if (!ok)
    {
        Outcome o;
        o.failed = true;
        o.kind   = describe(status);
        o.msg    = s->msg;
        o.err    = slurp(efd, 6000);
        o.tape.assign(s->tape, s->tape + s->tape_len);
        return report_failure(t, o, report, shrink_s, thorough, truncated, started);
    }
    // Re-run the sample cases verbosely.
    std::vector<Outcome> samples;
    for (std::uint32_t k = 0; k < s->sample_count; ++k)
    {
        const int tfd = temp_fd();
        std::fflush(nullptr);
        const pid_t p2 = fork();
        if (p2 == 0)
        {
            Case c;
            c.rng.s     = mix(base ^ mix(s->sample_case[k]));
            c.verbose_  = true;
            c.thorough_ = thorough;
            c.out       = fdopen(dup(tfd), "w");
            // labels must not be counted twice
            static Shared scratch;
            shared() = &scratch;
            run_one(t, c);
            ::_exit(0);
        }
        int st2 = 0;
        waitpid(p2, &st2, 0);
        Outcome o;
        o.trace = slurp(tfd, 20000);
        close(tfd);
        samples.push_back(o);
    }
    write_report(report, t, truncated, nullptr, nullptr, samples, now() - started);
    return 0;
}

inline int main_impl(int argc, char** argv)
{
    shared() = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        if (a == "--list")
        {
            for (const auto& t : targets())
            {
                std::printf("%s %llu %llu\n", t.name, static_cast<unsigned long long>(t.quick), static_cast<unsigned long long>(t.thorough));
            }
            return 0;
        }
        if (a.compare(0, 2, "--") == 0 && i + 1 < argc)
        {
            opt[a.substr(2)] = argv[++i];
        }
    }
    const Target* t = find(opt["target"].c_str());
    if (t == nullptr)
    {
        std::fprintf(stderr, "no such target: %s\n", opt["target"].c_str());
        return 3;
    }
    const bool thorough = opt["tier"] == "thorough";
    if (opt.count("tape") != 0)
    {
        const auto    tape = parse_tape(opt["tape"].c_str());
        const Outcome o    = run_tape(*t, tape, true, thorough);
        std::printf("%s%s\n%s\n", o.trace.c_str(), o.failed ? ("=> " + o.kind + " " + o.msg).c_str() : "=> passed", o.err.c_str());
        return o.failed ? 1 : 0;
    }
    if (opt.count("bytes") != 0)
    {
        // A crashing input of the coverage-guided fuzzer: decode it into a tape, then confirm and shrink it.
        std::FILE*                f = std::fopen(opt["bytes"].c_str(), "rb");
        std::vector<std::uint8_t> data;
        if (f != nullptr)
        {
            int ch = 0;
            while ((ch = std::fgetc(f)) != EOF)
            {
                data.push_back(static_cast<std::uint8_t>(ch));
            }
            std::fclose(f);
        }
        const int efd = temp_fd();
        std::fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0)
        {
            dup2(efd, 2);
            cpu_limit(kCaseCpuSeconds);
            Case c;
            c.mode      = Case::Mode::Bytes;
            c.bytes     = data.data();
            c.nbytes    = data.size();
            c.thorough_ = thorough;
            run_one(*t, c);
            ::_exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        {
            return 0;
        }
        Outcome o;
        o.failed = true;
        o.kind   = describe(status);
        o.msg    = shared()->msg;
        o.err    = slurp(efd, 6000);
        o.tape.assign(shared()->tape, shared()->tape + shared()->tape_len);
        return report_failure(*t, o, opt["report"], 60, thorough, false, now());
    }
    const auto num = [&](const char* k, double d) { return opt.count(k) != 0 ? std::atof(opt[k].c_str()) : d; };
    return run_cases(*t,
                     static_cast<std::uint64_t>(num("seed", 1)),
                     static_cast<std::uint64_t>(num("begin", 0)),
                     static_cast<std::uint64_t>(num("cases", 1000)),
                     num("time", 600),
                     opt["report"],
                     opt["hashes"],
                     thorough,
                     num("shrink", 40));
}

}  // namespace detail
}  // namespace pbt

extern "C" __attribute__((used)) const char* __asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=71:detect_stack_use_after_return=0:max_allocation_size_mb=4096";
}
extern "C" __attribute__((used)) const char* __ubsan_default_options()
{
    return "print_stacktrace=0:exitcode=72";
}
extern "C" __attribute__((used)) const char* __tsan_default_options()
{
    return "exitcode=73:halt_on_error=1:die_after_fork=0:allocator_may_return_null=1";
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
    static const pbt::Target* t = [] {
        pbt::shared() = new pbt::Shared();
        const char* n = std::getenv("PBT_TARGET_NAME");
        return pbt::detail::find(n != nullptr ? n : "");
    }();
    if (t == nullptr)
    {
        std::fprintf(stderr, "set PBT_TARGET_NAME\n");
        std::exit(3);
    }
    pbt::Case c;
    c.mode      = pbt::Case::Mode::Bytes;
    c.bytes     = data;
    c.nbytes    = size;
    c.thorough_ = true;
    pbt::detail::run_one(*t, c);
    return 0;
}
#else
int main(int argc, char** argv)
{
    return pbt::detail::main_impl(argc, argv);
}
#endif
