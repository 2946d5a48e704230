// A small choice-sequence property-based testing engine (in the style of Hypothesis / internal
// shrinking).  Every random decision of a test case is a call of Src::draw(n); the sequence of the
// drawn numbers *is* the test case.  0 is always the simplest choice, so deleting, zeroing and
// halving numbers of a failing sequence shrinks the case, whatever the generator built from it.
//
// The cases run in forked workers: a crash, a sanitizer report, an assertion or a hang of the code
// under test is a failure of the case that was running, and is shrunk like any other failure.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace eng
{

// ---------------------------------------------------------------- allocation accounting

struct AllocState
{
    long     live    = 0;      // live blocks made by operator new
    long     total   = 0;      // operator new calls so far
    uint64_t bytes   = 0;      // bytes they asked for
    long     fail_at = -1;     // fail the n-th call from now (0 = the next one), -1 = never
    bool     failed  = false;  // a failure was injected
    bool     sticky  = false;  // once failed, fail all following calls
};

#ifdef ENGINE_THREADS
inline AllocState& alloc()
{
    static thread_local AllocState a;
    return a;
}
#else
extern AllocState g_alloc;
inline AllocState& alloc()
{
    return g_alloc;
}
#endif

inline void* counted_new(std::size_t n)
{
    AllocState& a = alloc();
    if (a.fail_at >= 0)
    {
        if (a.fail_at == 0)
        {
            a.failed = true;
            if (!a.sticky)
                a.fail_at = -1;
            throw std::bad_alloc();
        }
        --a.fail_at;
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++a.live;
    ++a.total;
    a.bytes += n;
    return p;
}
inline void counted_delete(void* p) noexcept
{
    if (p)
    {
        --alloc().live;
        std::free(p);
    }
}

// ---------------------------------------------------------------- failures

struct Failure
{
    std::string msg;
};
// the case is outside the domain of the property (counted apart, never a failure)
struct Discard
{
};

inline std::string fmt(const char* f, ...)
{
    char    buf[2048];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

[[noreturn]] inline void fail(const std::string& m)
{
    throw Failure{ m };
}

#define REQUIRE_MSG(cond, msg)                                                                             \
    do                                                                                                     \
    {                                                                                                      \
        if (!(cond))                                                                                       \
            ::eng::fail(std::string(#cond) + " is false: " + (msg));                                       \
    } while (0)
#define REQUIRE(cond)                                                                                      \
    do                                                                                                     \
    {                                                                                                      \
        if (!(cond))                                                                                       \
            ::eng::fail(std::string(#cond) + " is false (" __FILE__ ":" + std::to_string(__LINE__) + ")"); \
    } while (0)

// ---------------------------------------------------------------- random source

inline uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

enum
{
    MAX_CHOICES = 1 << 16,
    NOTE_BYTES  = 1 << 16,
    MSG_BYTES   = 1 << 13
};

// what a worker shares with its parent
struct Shared
{
    volatile uint64_t in_case;  // 1 while a case runs
    volatile uint64_t sub, idx, done;
    volatile uint64_t nchoices;
    volatile uint64_t status;  // of a single execution: 0 running, 1 passed, 2 failed, 3 discarded
    volatile uint64_t notelen;
    uint64_t          choices[MAX_CHOICES];
    char              note[NOTE_BYTES];
    char              msg[MSG_BYTES];
};

class Src
{
public:
    enum Mode
    {
        Random,
        Replay,
        Bytes
    };

    Src(uint64_t seed, Shared* sh)
        : mode_(Random), state_(seed), sh_(sh)
    {
        sh_->nchoices = 0;
    }
    Src(const std::vector<uint64_t>* c, Shared* sh)
        : mode_(Replay), in_(c), sh_(sh)
    {
        sh_->nchoices = 0;
    }
    Src(const uint8_t* d, size_t n, Shared* sh)
        : mode_(Bytes), bytes_(d), nbytes_(n), sh_(sh)
    {
        sh_->nchoices = 0;
    }

    // choices from a seed, not recorded; for enumerated cases that want some variety
    explicit Src(uint64_t seed)
        : mode_(Random), state_(seed), sh_(nullptr)
    {
    }

    // a number in [0, n); n == 0 means the full 64-bit range
    uint64_t draw(uint64_t n)
    {
        uint64_t v = 0;
        if (n != 1)
        {
            switch (mode_)
            {
            case Random:
                v = splitmix(state_);
                if (n)
                    v %= n;
                break;
            case Replay:
                v = pos_ < in_->size() ? (*in_)[pos_] : 0;
                if (n && v >= n)
                    v = n - 1;
                break;
            case Bytes:
            {
                uint64_t m = n ? n - 1 : ~0ull;
                while (m)
                {
                    v = (v << 8) | (bpos_ < nbytes_ ? bytes_[bpos_] : 0);
                    ++bpos_;
                    m >>= 8;
                }
                if (n)
                    v %= n;
                break;
            }
            }
        }
        ++pos_;
        if (!sh_)
            return v;
        if (sh_->nchoices >= MAX_CHOICES)
            return 0;
        sh_->choices[sh_->nchoices] = v;
        sh_->nchoices               = sh_->nchoices + 1;
        return v;
    }

    bool exhausted() const
    {
        return (sh_ && sh_->nchoices >= MAX_CHOICES - 64) || (mode_ == Bytes && bpos_ > nbytes_ + 64)
               || (mode_ == Replay && pos_ > in_->size() + 20000);
    }

    int64_t range(int64_t lo, int64_t hi)
    {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
    }
    // true with probability num/den; the simple choice is false
    bool chance(unsigned num, unsigned den)
    {
        return draw(den) >= den - num;
    }
    bool flip()
    {
        return draw(2) != 0;
    }
    // one more element?  (den-1)/den chance, bounded
    bool more(size_t have, size_t max, unsigned den)
    {
        if (have >= max || exhausted())
            return false;
        return draw(den) != 0;
    }
    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[static_cast<size_t>(draw(v.size()))];
    }
    template <class T, size_t N>
    const T& pick(const T (&v)[N])
    {
        return v[static_cast<size_t>(draw(N))];
    }
    // index into weights
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned sum = 0;
        for (auto x : w)
            sum += x;
        uint64_t r = draw(sum);
        size_t   i = 0;
        for (auto x : w)
        {
            if (r < x)
                return i;
            r -= x;
            ++i;
        }
        return 0;
    }

private:
    Mode                         mode_;
    uint64_t                     state_  = 0;
    const std::vector<uint64_t>* in_     = nullptr;
    size_t                       pos_    = 0;
    const uint8_t*               bytes_  = nullptr;
    size_t                       nbytes_ = 0, bpos_ = 0;
    Shared*                      sh_;
};

// ---------------------------------------------------------------- per case context

struct Stats
{
    uint64_t                        evaluations = 0, discarded = 0, inner = 0;
    std::set<uint64_t>              keys;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string>        samples;
};

class Ctx
{
public:
    Ctx(Stats& st, Shared* sh, bool verbose)
        : st_(st), sh_(sh), verbose_(verbose)
    {
        sh_->notelen = 0;
        text_.reserve(256);  // one heap block for the whole case, whatever is noted (allocations are counted)
    }
    // describe the case; only kept (and only worth computing) when verbose()
    bool verbose() const
    {
        return verbose_ || st_.samples.size() < 6;
    }
    void note(const std::string& s)
    {
        text_ += s;
        text_ += '\n';
        size_t n = std::min<size_t>(s.size(), NOTE_BYTES - 2 - sh_->notelen);
        std::memcpy(sh_->note + sh_->notelen, s.data(), n);
        sh_->note[sh_->notelen + n]     = '\n';
        sh_->note[sh_->notelen + n + 1] = 0;
        if (sh_->notelen + n + 1 < NOTE_BYTES - 2)
            sh_->notelen = sh_->notelen + n + 1;
    }
    // the case exercised what the property is about; key identifies the case semantically
    void nontrivial(uint64_t key)
    {
        nontrivial_ = true;
        key_        = hash_bytes(&key, sizeof key, key_);
    }
    void label(const std::string& l)
    {
        ++st_.labels[l];
    }
    // comparisons made within the case
    void inner(uint64_t n = 1)
    {
        st_.inner += n;
    }
    void finish()
    {
        if (nontrivial_)
        {
            st_.keys.insert(key_);
            if (st_.samples.size() < 6 && !text_.empty())
                st_.samples.push_back(text_.size() > 600 ? text_.substr(0, 600) + "..." : text_);
        }
    }

private:
    Stats&      st_;
    Shared*     sh_;
    bool        verbose_;
    bool        nontrivial_ = false;
    uint64_t    key_        = 1469598103934665603ull;
    std::string text_;
};

using PropFn = void (*)(Src&, Ctx&);
// a fixed list of cases (exhaustive enumeration, pinned regressions): the index is the case
using EnumFn = void (*)(uint64_t, Ctx&);

struct Sub
{
    std::string name;
    PropFn      fn;
    EnumFn      efn;
    uint64_t    quick, thorough;  // number of cases
};

struct Registry
{
    std::string      property, rule;
    std::vector<Sub> subs;
    static Registry& get()
    {
        static Registry r;
        return r;
    }
};
struct Reg
{
    Reg(const char* name, PropFn fn, uint64_t quick, uint64_t thorough)
    {
        Registry::get().subs.push_back(Sub{ name, fn, nullptr, quick, thorough });
    }
    Reg(const char* name, EnumFn fn, uint64_t quick, uint64_t thorough)
    {
        Registry::get().subs.push_back(Sub{ name, nullptr, fn, quick, thorough });
    }
};
#define PROPERTY_INFO(id, rule_)                                                         \
    static const bool eng_info_ = (::eng::Registry::get().property = id, ::eng::Registry::get().rule = rule_, true)
#define PROP(name, quick, thorough)                                    \
    static void      prop_##name(::eng::Src&, ::eng::Ctx&);            \
    static ::eng::Reg reg_##name(#name, prop_##name, quick, thorough); \
    static void      prop_##name(::eng::Src& s, ::eng::Ctx& c)
#define PROP_ENUM(name, quick, thorough)                               \
    static void      prop_##name(uint64_t, ::eng::Ctx&);               \
    static ::eng::Reg reg_##name(#name, prop_##name, quick, thorough); \
    static void      prop_##name(uint64_t index, ::eng::Ctx& c)

std::string escape_bytes(const std::string& s);

}  // namespace eng

#ifndef ENGINE_NO_MAIN

namespace eng
{
#ifndef ENGINE_THREADS
AllocState g_alloc;
#endif

std::string escape_bytes(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        if (ch == '\\')
            r += "\\\\";
        else if (ch >= 0x20 && ch < 0x7f)
            r += static_cast<char>(ch);
        else
            r += fmt("\\x%02X", ch);
    }
    return r;
}

struct Options
{
    uint64_t    seed = 1;
    bool        thorough = false;
    int         jobs = 8;
    double      scale = 1.0;
    double      budget = 300;  // wall clock guard, seconds
    std::string out, replay, replay_dir = ".", only, fuzzbytes;
    double      case_cpu = 20;
};

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

inline Shared* new_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        std::exit(3);
    }
    return static_cast<Shared*>(p);
}

inline uint64_t case_seed(uint64_t seed, size_t sub, uint64_t idx)
{
    const Registry& r = Registry::get();
    uint64_t        x = hash_str(r.property + "/" + r.subs[sub].name, seed * 0x9E3779B97F4A7C15ull + 1469598103934665603ull);
    x ^= idx * 0xD1342543DE82EF95ull;
    splitmix(x);
    return splitmix(x);
}

inline void set_msg(Shared* sh, const std::string& m)
{
    size_t n = std::min<size_t>(m.size(), MSG_BYTES - 1);
    std::memcpy(sh->msg, m.data(), n);
    sh->msg[n] = 0;
}

inline void arm_timer(double cpu)
{
    itimerval tv;
    tv.it_interval.tv_sec = tv.it_interval.tv_usec = 0;
    tv.it_value.tv_sec                             = static_cast<time_t>(cpu);
    tv.it_value.tv_usec                            = static_cast<suseconds_t>((cpu - std::floor(cpu)) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
}

// runs one case in this process; status is in sh->status
inline void run_here(size_t sub, uint64_t idx, Src* src, Stats& st, Shared* sh, bool verbose)
{
    const Sub& p = Registry::get().subs[sub];
    sh->status   = 0;
    Ctx c(st, sh, verbose);
    try
    {
        if (p.fn)
            p.fn(*src, c);
        else
        {
            sh->nchoices = 0;
            p.efn(idx, c);
        }
        ++st.evaluations;
        c.finish();
        sh->status = 1;
    }
    catch (const Failure& f)
    {
        set_msg(sh, f.msg);
        sh->status = 2;
    }
    catch (const Discard&)
    {
        ++st.discarded;
        sh->status = 3;
    }
    catch (const std::exception& e)
    {
        set_msg(sh, std::string("unexpected exception: ") + e.what());
        sh->status = 2;
    }
    catch (...)
    {
        set_msg(sh, "unexpected exception of unknown type");
        sh->status = 2;
    }
}

struct CaseId
{
    size_t                sub = 0;
    uint64_t              idx = 0;
    std::vector<uint64_t> choices;  // for generated cases
};

struct Outcome
{
    bool        failed = false, infra = false;
    std::string msg, note;
};

inline std::string read_file(const std::string& p)
{
    std::ifstream     f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

inline std::string describe_death(int status, const std::string& errfile)
{
    std::string m;
    if (WIFSIGNALED(status))
        m = WTERMSIG(status) == SIGPROF ? std::string("the case did not terminate (CPU time limit)")
                                        : fmt("the process died of signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
    else
        m = fmt("the process exited with %d", WEXITSTATUS(status));
    std::string e = read_file(errfile);
    if (!e.empty())
    {
        if (e.size() > 3000)
            e.resize(3000);
        m += "\n" + e;
    }
    return m;
}

class Runner
{
public:
    explicit Runner(const Options& o)
        : o_(o)
    {
        char tmpl[] = "/tmp/verif-eng-XXXXXX";
        char* d     = mkdtemp(tmpl);
        if (!d)
        {
            perror("mkdtemp");
            std::exit(3);
        }
        tmp_ = d;
        one_ = new_shared();
    }
    ~Runner()
    {
        std::string cmd = tmp_;
        // flat directory of our own files
        for (auto& f : files_)
            unlink(f.c_str());
        rmdir(tmp_.c_str());
    }

    std::string file(const std::string& n)
    {
        std::string f = tmp_ + "/" + n;
        files_.insert(f);
        return f;
    }

    static void redirect(const std::string& err)
    {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0)
        {
            dup2(fd, 2);
            close(fd);
        }
    }

    // the sanitized builds have a limit of their own
    static void limit_memory()
    {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(__clang__)
        struct rlimit rl = { rlim_t(4000) << 20, rlim_t(4000) << 20 };
        setrlimit(RLIMIT_AS, &rl);
#endif
    }

    // executes a history of cases (usually one) in a fresh process; the last one decides
    Outcome execute(const std::vector<CaseId>& hist, double cpu, bool verbose)
    {
        Outcome     r;
        std::string err = file("one.err");
        one_->status    = 0;
        one_->msg[0] = one_->note[0] = 0;
        one_->done                   = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect(err);
            limit_memory();
            Stats st;
            for (size_t i = 0; i < hist.size(); ++i)
            {
                bool last = i + 1 == hist.size();
                arm_timer(cpu);
                Src s(&hist[i].choices, one_);
                run_here(hist[i].sub, hist[i].idx, &s, st, one_, verbose && last);
                one_->done = i + 1;
                if (one_->status == 2)
                    break;
            }
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        r.note = std::string(one_->note, strnlen(one_->note, NOTE_BYTES));
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
        {
            r.infra  = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
            r.failed = !r.infra;
            r.msg    = describe_death(status, err);
        }
        else if (one_->status == 2)
        {
            r.failed = true;
            r.msg    = one_->msg;
        }
        return r;
    }

    std::vector<uint64_t> shrink(CaseId c, double seconds, double cpu)
    {
        double                end = now() + seconds;
        std::vector<uint64_t> best = c.choices;
        auto                  ok   = [&](const std::vector<uint64_t>& v) {
            CaseId t  = c;
            t.choices = v;
            return execute({ t }, cpu, false).failed;
        };
        auto trim = [&] {
            while (!best.empty() && best.back() == 0)
                best.pop_back();
        };
        {
            std::vector<uint64_t> t = best;
            while (!t.empty() && t.back() == 0)
                t.pop_back();
            if (t.size() < best.size() && ok(t))
                best = t;
        }
        bool improved = true;
        while (improved && now() < end)
        {
            improved = false;
            // delete chunks
            for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len = len > 8 ? len / 2 : len - 1)
            {
                for (size_t i = 0; i + len <= best.size() && now() < end;)
                {
                    std::vector<uint64_t> t = best;
                    t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + len));
                    if (ok(t))
                    {
                        best     = t;
                        improved = true;
                    }
                    else
                        i += std::max<size_t>(1, len / 2);
                }
                if (len == 1)
                    break;
            }
            // zero chunks
            for (size_t len : { 16, 4, 1 })
            {
                for (size_t i = 0; i < best.size() && now() < end; i += len)
                {
                    std::vector<uint64_t> t = best;
                    bool                  ch = false;
                    for (size_t j = i; j < std::min(best.size(), i + len); ++j)
                        if (t[j])
                        {
                            t[j] = 0;
                            ch   = true;
                        }
                    if (ch && ok(t))
                    {
                        best     = t;
                        improved = true;
                    }
                }
            }
            // minimise numbers
            for (size_t i = 0; i < best.size() && now() < end; ++i)
            {
                uint64_t lo = 0, hi = best[i];
                if (!hi)
                    continue;
                while (lo < hi && now() < end)
                {
                    uint64_t              mid = lo + (hi - lo) / 2;
                    std::vector<uint64_t> t   = best;
                    t[i]                      = mid;
                    if (ok(t))
                    {
                        hi       = mid;
                        best     = t;
                        improved = true;
                    }
                    else
                        lo = mid + 1;
                }
            }
            trim();
            if (!best.empty() && !ok(best))
                break;
        }
        return best;
    }

    void write_replay(const std::string& path, const std::vector<CaseId>& hist, const std::string& msg, const std::string& note)
    {
        std::ofstream f(path, std::ios::binary);
        f << "property " << Registry::get().property << "\n";
        for (auto& h : hist)
        {
            f << "case " << Registry::get().subs[h.sub].name << " " << h.idx << " " << h.choices.size();
            for (auto v : h.choices)
                f << " " << v;
            f << "\n";
        }
        f << "---- what fails\n" << msg << "\n---- the case\n" << note << "\n";
    }

    bool read_replay(const std::string& path, std::vector<CaseId>& hist)
    {
        std::ifstream f(path, std::ios::binary);
        std::string   line;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string        w, name;
            is >> w;
            if (w == "----")
                break;
            if (w != "case")
                continue;
            CaseId c;
            size_t n = 0;
            is >> name >> c.idx >> n;
            bool found = false;
            for (size_t i = 0; i < Registry::get().subs.size(); ++i)
                if (Registry::get().subs[i].name == name)
                {
                    c.sub = i;
                    found = true;
                }
            if (!found)
                return false;
            c.choices.resize(n);
            for (auto& v : c.choices)
                is >> v;
            hist.push_back(c);
        }
        return !hist.empty();
    }

    // regenerates the choices of a generated case by running it
    CaseId regenerate(size_t sub, uint64_t idx)
    {
        CaseId c;
        c.sub = sub;
        c.idx = idx;
        if (!Registry::get().subs[sub].fn)
            return c;
        std::string err = file("one.err");
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect(err);
            arm_timer(o_.case_cpu);
            Stats st;
            Src   s(case_seed(o_.seed, sub, idx), one_);
            run_here(sub, idx, &s, st, one_, false);
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        c.choices.assign(one_->choices, one_->choices + one_->nchoices);
        return c;
    }

    int report(const CaseId& found, const std::string& first_msg, const std::vector<CaseId>& history)
    {
        double              cpu = std::min(o_.case_cpu, 5.0);
        std::vector<CaseId> hist{ found };
        Outcome             r = execute(hist, o_.case_cpu, false);
        if (r.failed)
        {
            if (!found.choices.empty())
            {
                hist[0].choices = shrink(found, 45, cpu);
                Outcome t       = execute(hist, o_.case_cpu, true);
                if (!t.failed)
                    hist[0].choices = found.choices;
            }
        }
        else
        {
            // needs state left behind by the cases before it
            for (size_t k = 2;; k *= 2)
            {
                size_t              n = std::min(k, history.size());
                std::vector<CaseId> h(history.end() - static_cast<long>(n), history.end());
                r = execute(h, o_.case_cpu, false);
                if (r.failed)
                {
                    hist = h;
                    break;
                }
                if (n == history.size())
                    break;
            }
            if (hist.size() > 1)
            {
                double end = now() + 45;
                for (size_t i = 0; i + 1 < hist.size() && now() < end;)
                {
                    std::vector<CaseId> t = hist;
                    t.erase(t.begin() + static_cast<long>(i));
                    if (execute(t, cpu, false).failed)
                        hist = t;
                    else
                        ++i;
                }
            }
        }
        // the replay file must fail: three times
        int failures = 0;
        for (int k = 0; k < 3; ++k)
        {
            Outcome t = execute(hist, o_.case_cpu, true);
            failures += t.failed;
            if (t.failed || k == 0)
                r = t;
        }
        std::string msg = failures ? r.msg : first_msg;
        if (failures < 3)
            msg += fmt("\n(of 3 replays, %d failed)", failures);
        std::string dir = o_.replay_dir;
        std::string p   = dir + "/" + Registry::get().subs[found.sub].name + "-" + std::to_string(o_.seed) + "-"
                        + std::to_string(found.idx) + ".replay";
        write_replay(p, hist, msg, r.note);
        std::fprintf(stderr, "---- failing case of sub-property %s (shrunk to %zu choices, %zu cases)\n%s\n---- the case\n%s\n",
                     Registry::get().subs[found.sub].name.c_str(), hist.back().choices.size(), hist.size(), msg.c_str(),
                     r.note.c_str());
        std::printf("VIOLATION property=%s replay=%s\n", Registry::get().property.c_str(), p.c_str());
        fflush(stdout);
        return 1;
    }

    int run()
    {
        Registry& reg = Registry::get();
        struct Job
        {
            size_t   sub;
            uint64_t n;
        };
        std::vector<Job> plan;
        for (size_t i = 0; i < reg.subs.size(); ++i)
        {
            if (!o_.only.empty() && o_.only != reg.subs[i].name)
                continue;
            uint64_t n = o_.thorough ? reg.subs[i].thorough : reg.subs[i].quick;
            if (reg.subs[i].fn)
                n = static_cast<uint64_t>(std::ceil(static_cast<double>(n) * o_.scale));
            plan.push_back(Job{ i, n });
        }
        const double         start = now();
        std::vector<Shared*> sh;
        std::vector<pid_t>   pids;
        for (int w = 0; w < o_.jobs; ++w)
        {
            sh.push_back(new_shared());
            file(fmt("w%d.err", w));
            file(fmt("w%d.stats", w));
        }
        fflush(nullptr);
        for (int w = 0; w < o_.jobs; ++w)
        {
            pid_t pid = fork();
            if (pid == 0)
            {
                redirect(tmp_ + fmt("/w%d.err", w));
                limit_memory();
                Stats st;
                bool  truncated = false;
                // rounds: a slice of every sub-property, so that a time-out cuts all of them alike
                std::vector<uint64_t> next(plan.size(), static_cast<uint64_t>(w));
                bool                  any = true;
                while (any && !truncated)
                {
                    any = false;
                    for (size_t p = 0; p < plan.size() && !truncated; ++p)
                    {
                        uint64_t slice = std::max<uint64_t>(1, plan[p].n / 20 / static_cast<uint64_t>(o_.jobs));
                        for (uint64_t k = 0; k < slice && next[p] < plan[p].n; ++k, next[p] += static_cast<uint64_t>(o_.jobs))
                        {
                            any             = true;
                            sh[w]->sub      = plan[p].sub;
                            sh[w]->idx      = next[p];
                            sh[w]->in_case  = 1;
                            arm_timer(o_.case_cpu);
                            Src s(case_seed(o_.seed, plan[p].sub, next[p]), sh[w]);
                            run_here(plan[p].sub, next[p], &s, st, sh[w], false);
                            if (sh[w]->status == 2)
                                _exit(77);
                            sh[w]->in_case = 0;
                            sh[w]->done    = sh[w]->done + 1;
                            if (now() - start > o_.budget)
                            {
                                truncated = true;
                                break;
                            }
                        }
                    }
                }
                arm_timer(0);
                std::ofstream f(tmp_ + fmt("/w%d.stats", w), std::ios::binary);
                f << "eval " << st.evaluations << "\ndisc " << st.discarded << "\ninner " << st.inner << "\ntrunc " << truncated
                  << "\n";
                for (auto k : st.keys)
                    f << "key " << k << "\n";
                for (auto& l : st.labels)
                    f << "label " << l.second << " " << l.first << "\n";
                for (auto& t : st.samples)
                {
                    std::string one;
                    for (char ch : t)
                        if (ch == '\n')
                            one += " | ";
                        else if (static_cast<unsigned char>(ch) < 0x20 || static_cast<unsigned char>(ch) >= 0x7f)
                            one += escape_bytes(std::string(1, ch));
                        else
                            one += ch;
                    f << "sample " << one.substr(0, one.size() > 3 ? one.size() - 3 : 0) << "\n";
                }
                f.close();
                _exit(f ? 0 : 78);
            }
            pids.push_back(pid);
        }
        // wait; the first failure stops everything
        int                left = o_.jobs, bad = -1, bad_status = 0;
        bool               infra = false;
        std::vector<int>   killed;
        while (left > 0)
        {
            int   status = 0;
            pid_t p      = waitpid(-1, &status, 0);
            if (p < 0)
            {
                if (errno == EINTR)
                    continue;
                break;
            }
            --left;
            int w = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin());
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
                continue;
            if ((WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && bad >= 0) || (WIFSIGNALED(status) && WTERMSIG(status) == SIGTERM))
                continue;
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
            {
                killed.push_back(w);
                infra = true;
                continue;
            }
            if (bad < 0)
            {
                bad        = w;
                bad_status = status;
                for (int k = 0; k < o_.jobs; ++k)
                    if (k != w)
                        kill(pids[k], SIGKILL);
            }
        }
        // ended from outside (out of memory?): a failure of the case only if it happens again
        for (int w : killed)
        {
            if (bad >= 0 || !sh[w]->in_case)
                continue;
            CaseId c;
            c.sub = sh[w]->sub;
            c.idx = sh[w]->idx;
            if (reg.subs[c.sub].fn)
                c.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->nchoices);
            Outcome r = execute({ c }, o_.case_cpu, false);
            if (r.failed || r.infra)
            {
                bad        = w;
                bad_status = SIGKILL;
            }
        }
        int      rc = 0;
        Stats    all;
        bool     truncated = false;
        if (bad >= 0)
        {
            Shared* b = sh[bad];
            CaseId  c;
            c.sub = b->sub;
            c.idx = b->idx;
            if (reg.subs[c.sub].fn)
                c.choices.assign(b->choices, b->choices + b->nchoices);
            std::string msg = (WIFEXITED(bad_status) && WEXITSTATUS(bad_status) == 77)
                                  ? std::string(b->msg)
                                  : describe_death(bad_status, tmp_ + fmt("/w%d.err", bad));
            // the cases this worker ran before: recomputed lazily, the last 64 of the same sub-property
            std::vector<CaseId> hist;
            std::vector<uint64_t> ids;
            for (uint64_t i = c.idx; ids.size() < 64; i -= static_cast<uint64_t>(o_.jobs))
            {
                ids.push_back(i);
                if (i < static_cast<uint64_t>(o_.jobs))
                    break;
            }
            Outcome direct = execute({ c }, o_.case_cpu, false);
            if (!direct.failed)
            {
                for (auto it = ids.rbegin(); it != ids.rend(); ++it)
                    hist.push_back(*it == c.idx ? c : regenerate(c.sub, *it));
            }
            else
                hist.push_back(c);
            rc = report(c, msg, hist);
            all.evaluations = 0;
            for (auto* x : sh)
                all.evaluations += x->done;
        }
        else
        {
            for (int w = 0; w < o_.jobs; ++w)
            {
                std::ifstream f(tmp_ + fmt("/w%d.stats", w), std::ios::binary);
                std::string   line;
                while (std::getline(f, line))
                {
                    std::istringstream is(line);
                    std::string        k;
                    is >> k;
                    uint64_t v = 0;
                    if (k == "sample")
                    {
                        all.samples.push_back(line.substr(7));
                        continue;
                    }
                    is >> v;
                    if (k == "eval")
                        all.evaluations += v;
                    else if (k == "disc")
                        all.discarded += v;
                    else if (k == "inner")
                        all.inner += v;
                    else if (k == "trunc")
                        truncated = truncated || v;
                    else if (k == "key")
                        all.keys.insert(v);
                    else if (k == "label")
                    {
                        std::string rest;
                        std::getline(is, rest);
                        all.labels[rest.substr(rest.empty() ? 0 : 1)] += v;
                    }
                }
            }
        }
        double wall = now() - start;
        if (!o_.out.empty())
        {
            std::ofstream f(o_.out, std::ios::binary);
            auto          q = [](const std::string& s) {
                std::string r = "\"";
                for (unsigned char ch : s)
                {
                    if (ch == '"' || ch == '\\')
                        r += '\\', r += static_cast<char>(ch);
                    else if (ch < 0x20 || ch >= 0x7f)
                        r += fmt("\\u%04x", ch);
                    else
                        r += static_cast<char>(ch);
                }
                return r + "\"";
            };
            f << "{\"rc\":" << rc << ",\"wall\":" << wall << ",\"evaluations\":" << all.evaluations << ",\"discarded\":" << all.discarded
              << ",\"inner\":" << all.inner << ",\"distinct\":" << all.keys.size() << ",\"truncated\":" << (truncated ? "true" : "false")
              << ",\"infra\":" << (infra ? "true" : "false") << ",\"rule\":" << q(reg.rule) << ",\"labels\":{";
            bool first = true;
            for (auto& l : all.labels)
            {
                f << (first ? "" : ",") << q(l.first) << ":" << l.second;
                first = false;
            }
            f << "},\"samples\":[";
            first     = true;
            size_t ns = 0;
            for (auto& t : all.samples)
            {
                if (ns++ >= 16)
                    break;
                f << (first ? "" : ",") << q(t);
                first = false;
            }
            f << "]}\n";
        }
        std::printf("%s seed=%llu: %llu cases, %llu distinct non-trivial, %llu discarded, %llu comparisons, %.1f s%s%s\n",
                    reg.property.c_str(), static_cast<unsigned long long>(o_.seed), static_cast<unsigned long long>(all.evaluations),
                    static_cast<unsigned long long>(all.keys.size()), static_cast<unsigned long long>(all.discarded),
                    static_cast<unsigned long long>(all.inner), wall, truncated ? " (cut by the time guard)" : "",
                    infra ? " (a worker was killed from outside)" : "");
        return rc;
    }

    int replay(const std::string& path)
    {
        std::vector<CaseId> hist;
        if (!read_replay(path, hist))
        {
            std::fprintf(stderr, "cannot read replay %s\n", path.c_str());
            return 3;
        }
        Outcome r = execute(hist, o_.case_cpu, true);
        std::printf("---- the case\n%s\n", r.note.c_str());
        if (r.failed)
        {
            std::printf("---- what fails\n%s\nVIOLATION property=%s replay=%s\n", r.msg.c_str(), Registry::get().property.c_str(),
                        path.c_str());
            return 1;
        }
        std::printf("replay passes\n");
        return 0;
    }

    // a libFuzzer artifact: the bytes become a choice sequence, which is then shrunk like any other
    int fuzz_artifact(const std::string& path, size_t sub)
    {
        std::string d   = read_file(path);
        std::string err = file("one.err");
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect(err);
            arm_timer(o_.case_cpu);
            Stats st;
            Src   s(reinterpret_cast<const uint8_t*>(d.data()), d.size(), one_);
            run_here(sub, 0, &s, st, one_, false);
            _exit(one_->status == 2 ? 77 : 0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        {
            std::printf("artifact passes\n");
            return 0;
        }
        CaseId c;
        c.sub = sub;
        c.choices.assign(one_->choices, one_->choices + one_->nchoices);
        return report(c, one_->msg, { c });
    }

private:
    Options               o_;
    std::string           tmp_;
    std::set<std::string> files_;
    Shared*               one_;
};

}  // namespace eng

#ifndef ENGINE_THREADS
void* operator new(std::size_t n)
{
    return eng::counted_new(n);
}
void* operator new[](std::size_t n)
{
    return eng::counted_new(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return eng::counted_new(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return eng::counted_new(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    eng::counted_delete(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    eng::counted_delete(p);
}
void operator delete(void* p) noexcept
{
    eng::counted_delete(p);
}
void operator delete[](void* p) noexcept
{
    eng::counted_delete(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    eng::counted_delete(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    eng::counted_delete(p);
}

#endif
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_abort=1:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=8:quarantine_size_mb=16:hard_rss_limit_mb=3000";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1";
}

#ifdef ENGINE_LIBFUZZER
// coverage-guided: the input bytes are the choice sequence of one sub-property (FUZZ_SUB)
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    static eng::Shared* sh  = eng::new_shared();
    static size_t       sub = []() -> size_t {
        const char* e = std::getenv("FUZZ_SUB");
        auto&       r = eng::Registry::get();
        for (size_t i = 0; i < r.subs.size(); ++i)
            if (e ? r.subs[i].name == e : r.subs[i].fn != nullptr)
                return i;
        std::abort();
    }();
    static eng::Stats st;
    st.samples.resize(6);
    eng::Src s(d, n, sh);
    eng::run_here(sub, 0, &s, st, sh, false);
    if (sh->status == 2)
    {
        std::fprintf(stderr, "FAILED: %s\n", sh->msg);
        std::abort();
    }
    if (st.keys.size() > 100000)
        st.keys.clear();
    return 0;
}
#else
int main(int argc, char** argv)
{
    using namespace eng;
    Options o;
    std::string fuzz_sub;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            o.seed = std::strtoull(v().c_str(), nullptr, 10);
        else if (a == "--thorough")
            o.thorough = true;
        else if (a == "--jobs")
            o.jobs = std::atoi(v().c_str());
        else if (a == "--scale")
            o.scale = std::atof(v().c_str());
        else if (a == "--budget")
            o.budget = std::atof(v().c_str());
        else if (a == "--out")
            o.out = v();
        else if (a == "--replay")
            o.replay = v();
        else if (a == "--replay-dir")
            o.replay_dir = v();
        else if (a == "--only")
            o.only = v();
        else if (a == "--fuzz-artifact")
            o.fuzzbytes = v();
        else if (a == "--fuzz-sub")
            fuzz_sub = v();
        else
        {
            std::fprintf(stderr, "unknown option %s\n", a.c_str());
            return 3;
        }
    }
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    Runner r(o);
    if (!o.replay.empty())
        return r.replay(o.replay);
    if (!o.fuzzbytes.empty())
    {
        auto& reg = Registry::get();
        for (size_t i = 0; i < reg.subs.size(); ++i)
            if (reg.subs[i].name == fuzz_sub)
                return r.fuzz_artifact(o.fuzzbytes, i);
        return 3;
    }
    return r.run();
}
#endif
#endif  // ENGINE_NO_MAIN
