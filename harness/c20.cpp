// C20: const access from many threads is safe, independent values share nothing.
// Built with ThreadSanitizer (and, in the thorough tier, with ASan/UBSan): every plan is executed by its threads at once and
// then by one thread alone; what the threads saw must be what each sees alone, and there must be no data race.
#include "inputs.hpp"
#include "nodes.hpp"

#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <unordered_map>

using namespace lib;

PROPERTY_INFO("C20", "a case is non-trivial if at least two threads read a shared value that is not a scalar, or at least two work on values of their own; cases "
                     "are distinct by the shared values and the plans of the threads");

#if defined(__SANITIZE_THREAD__) || (defined(__has_feature) && __has_feature(thread_sanitizer))
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0:atexit_sleep_ms=0:history_size=4";
}
#endif

namespace c20
{
struct Point
{
    int         x = 0;
    std::string s;
    bool        operator==(const Point& p) const
    {
        return x == p.x && s == p.s;
    }
    CONFIGOR_BIND(configor::json::value, Point, REQUIRED(x), OPTIONAL(s))
};
struct Shape
{
    std::string                                    name;
    std::vector<Point>                             points;
    std::map<std::string, std::unique_ptr<Point>>  named;
    CONFIGOR_BIND(configor::json::value, Shape, REQUIRED(name), OPTIONAL(points), OPTIONAL(named))
};
template <class V>
struct Bound;
template <>
struct Bound<json::value>
{
    using type = Point;
};
template <>
struct Bound<wjson::value>
{
    using type = std::map<std::wstring, std::unique_ptr<int64_t>>;
};

enum Kind
{
    // on a shared value
    Dump,
    DumpOther,
    DumpStream,
    Wrap,
    Lookup,
    Iterate,
    Extract,
    Types,
    Convert,
    Compare,
    CopyChange,
    MergeFrom,
    // on values of their own
    Parse,
    ParseStream,
    ParseBad,
    ParseHandled,
    Build,
    Change,
    Objects,
    OwnCopy,
    Encode,
    kinds
};
const char* const kind_names[] = { "dump",    "dump to the other width", "dump to a stream", "wrapped insertion", "lookups", "iteration", "reading all",
                                   "types",   "conversions",             "comparisons",      "copy and change",   "insert into own",
                                   "parse",   "parse a stream",          "parse the broken", "parse with handlers", "build", "change own",
                                   "bound structs", "change the copy of a shared one", "encode and decode" };

struct Op
{
    Kind        kind;
    size_t      target = 0, other = 0, i = 0;
    U           key;
    M           m;
    U           text;
    std::string bytes;
    DOpt        o;
    bool        flag = false;
    std::string show() const
    {
        std::string r = kind_names[kind];
        if (kind < Parse)
            r += fmt(" of shared #%zu", target);
        switch (kind)
        {
        case Dump:
        case DumpOther:
        case DumpStream:
            return r + " " + o.show();
        case Lookup:
            return r + " of " + md::show(M::str(key));
        case Compare:
            return r + fmt(" with #%zu", other);
        case Parse:
        case ParseStream:
            return r + ": " + printable(utf8(text));
        case ParseBad:
        case ParseHandled:
            return r + ": " + printable(bytes);
        case Build:
        case Change:
        case Objects:
        case Encode:
        case OwnCopy:
        case CopyChange:
        case MergeFrom:
            return r + " with " + md::show(m);
        default:
            return r;
        }
    }
};

struct Plan
{
    bool            wide = false;
    std::vector<Op> ops;
};

struct Case
{
    std::vector<M>    shared;
    std::vector<Plan> threads;
};

// ---------------------------------------------------------------- operations

template <class S>
std::string text(const S& s)
{
    return printable(s);
}
inline std::string text(std::string s)
{
    return s;
}

template <class F>
std::string caught(F f)
{
    try
    {
        return f();
    }
    catch (const eng::Failure&)
    {
        throw;
    }
    catch (const configor::configor_exception& e)
    {
        return std::string("configor_exception: ") + e.what();
    }
    catch (const std::exception& e)
    {
        return std::string("exception: ") + e.what();
    }
}

template <class V, class T>
std::string got(const V& v, const char* name)
{
    return caught([&] {
        T t = v.template get<T>();
        V back(t);
        return std::string(name) + " " + show(extract(back)) + "; ";
    });
}
template <class V, class T>
std::string tried(const V& v, const char* name)
{
    return caught([&] {
        T    t{};
        bool ok = v.get(t);
        return std::string(name) + (ok ? " yes; " : " no; ");
    });
}

template <class J>
struct Shared
{
    std::vector<typename J::value> values;  // only read
    using C = typename J::value::char_type;
};

template <class J>
class Runner
{
    using V     = typename J::value;
    using C     = typename V::char_type;
    using Other = typename std::conditional<sizeof(C) == 1, wchar_t, char>::type;
    using S     = std::basic_string<C>;

public:
    // `own` are copies of the shared values for this thread only
    static std::string run(const Op& op, const std::vector<V>& shared, std::vector<V>& own)
    {
        return caught([&] { return run_(op, shared, own); });
    }

private:
    static std::string iterate(const V& v)
    {
        std::string r;
        for (auto it = v.begin(); it != v.end(); ++it)
        {
            if (v.is_object())
                r += text(it.key()) + ":";
            r += (it->is_array() || it->is_object()) ? iterate(*it) : show(extract(*it));
            r += ",";
        }
        for (auto it = v.rbegin(); it != v.rend(); ++it)
            r += static_cast<char>('0' + static_cast<int>(it->type()));
        for (const auto& x : v)
            r += fmt("%zu", x.size());
        return "(" + r + ")";
    }

    static std::string run_(const Op& op, const std::vector<V>& shared, std::vector<V>& own)
    {
        const V& v = shared[op.target];
        switch (op.kind)
        {
        case Dump:
            return text(dump_with<J, C>(v, op.o));
        case DumpOther:
            return text(dump_with<J, Other>(v, op.o));
        case DumpStream:
        {
            std::basic_ostringstream<C> os;
            dump_into<J, C>(os, v, op.o);
            return text(os.str());
        }
        case Wrap:
        {
            std::basic_ostringstream<C> os;
            const int                   way = static_cast<int>(op.key.size());
            insert_wrapped<J>(static_cast<std::basic_ostream<C>&>(os), v, way % 4);
            std::basic_istringstream<C> is(os.str());
            V                           back;
            extract_wrapped<J>(static_cast<std::basic_istream<C>&>(is), back, way % 2);
            return text(os.str()) + (back == v ? " equal" : " different");
        }
        case Lookup:
        {
            const auto  k = enc<V>(op.key);
            std::string r;
            if (v.is_object())
            {
                auto it = v.find(k);
                r += fmt("%zu ", v.count(k)) + (it == v.end() ? "absent" : show(extract(*it)));
                r += caught([&] { return show(extract(v.at(k))); });
                r += caught([&] { return show(extract(v[k])); });
            }
            else if (v.is_array())
            {
                r += caught([&] { return show(extract(v.at(op.i))); });
                if (op.i < v.size())
                    r += show(extract(v[op.i]));
                r += caught([&] { return show(extract(v.at(k))); });
            }
            else
                r += caught([&] { return show(extract(v.at(op.i))); });
            r += fmt(" %zu %d", v.size(), v.empty());
            return r;
        }
        case Iterate:
            return iterate(v);
        case Extract:
            return show(extract(v));
        case Types:
        {
            std::string r = fmt("%d", static_cast<int>(v.type()));
            r += fmt(" %d%d%d%d%d%d%d%d%d ", v.is_null(), v.is_bool(), v.is_integer(), v.is_floating(), v.is_number(), v.is_string(), v.is_array(), v.is_object(), v.is_array() || v.is_object());
            r += fmt("%d", static_cast<bool>(v));
            return r;
        }
        case Convert:
        {
            std::string r;
            r += got<V, bool>(v, "bool") + got<V, int64_t>(v, "int64_t") + got<V, double>(v, "double") + got<V, S>(v, "string");
            r += got<V, std::vector<V>>(v, "vector") + got<V, std::map<S, V>>(v, "map");
            r += got<V, std::vector<int64_t>>(v, "vector of int64_t") + got<V, std::list<S>>(v, "list of string") + got<V, std::map<S, std::vector<double>>>(v, "map of vector");
            r += tried<V, bool>(v, "bool") + tried<V, S>(v, "string") + tried<V, std::vector<std::shared_ptr<S>>>(v, "pointers") + tried<V, std::unordered_map<S, int64_t>>(v, "unordered_map");
            r += tried<V, typename Bound<V>::type>(v, "bound");
            r += got<V, typename Bound<V>::type>(v, "bound");
            return r;
        }
        case Compare:
        {
            const V& w = shared[op.other];
            return fmt("%d%d%d%d%d%d %d%d", v == w, v != w, v < w, v > w, v <= w, v >= w, v == 1, v == V(enc<V>(op.key)));
        }
        case CopyChange:
        {
            V copy(v);
            V second;
            second = v;
            change(copy, op);
            return show(extract(copy)) + show(extract(second)) + (second == v ? " equal" : " different");
        }
        case MergeFrom:
        {
            V o;
            o[enc<V>(op.key)] = v;
            o[enc<V>(U"own")] = build<V>(op.m);
            V a{ typename J::array{ v, o, v } };
            a.push_back(v);
            return show(extract(a));
        }
        case Parse:
        {
            auto p = op.flag ? J::parse(chars<C>::enc(op.text).c_str()) : J::parse(chars<C>::enc(op.text));
            return show(extract(p)) + show(extract(J::parse(chars<Other>::enc(op.text))));
        }
        case ParseStream:
        {
            std::basic_istringstream<C> is(chars<C>::enc(op.text));
            V                           r;
            if (op.flag)
                r = J::parse(is);
            else
            {
                std::string t = utf8(op.text);
                FILE*       f = fmemopen(const_cast<char*>(t.data()), t.size(), "r");
                try
                {
                    r = J::template parse<char>(f);
                }
                catch (...)
                {
                    fclose(f);
                    throw;
                }
                fclose(f);
            }
            return show(extract(r));
        }
        case ParseBad:
            return show(extract(J::parse(op.bytes)));
        case ParseHandled:
        {
            std::string               seen;
            configor::error_handler_with<configor::error_policy::record> rec;
            configor::error_handler_with<configor::error_policy::ignore> ign;
            V r = J::parse(op.bytes, { J::template parser_type<char>::with_error_handler(&rec) });
            seen = rec.error + "|" + show(r.is_null() || rec.error.empty() ? extract(r) : M::null());
            V q = J::parse(op.bytes, { J::template parser_type<char>::with_error_handler(&ign) });
            return seen;
        }
        case Build:
        {
            V b = build<V>(op.m);
            V l = configor::make_array<V>({ b, 1, true, nullptr, enc<V>(op.key), configor::make_object<V>({ { enc<V>(op.key), b } }) });
            return show(extract(l)) + text(J::dump(l));
        }
        case Change:
        {
            V b = build<V>(op.m);
            change(b, op);
            change(b, op);
            return show(extract(b));
        }
        case OwnCopy:
        {
            V& mine = own[op.target];
            change(mine, op);
            return show(extract(mine)) + text(J::dump(mine));
        }
        case Objects:
            return objects(op, static_cast<V*>(nullptr));
        default:
        {
            std::string r = text(dump_with<J, C>(build<V>(op.m), op.o));
            V           v2;
            v2 = J::parse(chars<char16_t>::enc(op.text));
            r += show(extract(v2));
            v2 = J::parse(chars<char32_t>::enc(op.text));
            return r + show(extract(v2));
        }
        }
    }

    static std::string objects(const Op& op, json::value*)
    {
        Shape s;
        s.name = utf8(op.key);
        for (size_t i = 0; i < op.i; ++i)
        {
            Point p;
            p.x = static_cast<int>(i) - 1;
            p.s = s.name;
            s.points.push_back(p);
            s.named[s.name + fmt("%zu", i)].reset(new Point(p));
        }
        V           v = s;
        std::string t = json::dump(v);
        Shape       b;
        b = json::parse(t);
        V           w = b;
        return t + (w == v ? " equal" : " different") + tried<V, Shape>(build<V>(op.m), "shape");
    }
    static std::string objects(const Op& op, wjson::value*)
    {
        std::map<std::wstring, std::vector<std::wstring>> m, b;
        for (size_t i = 0; i < op.i; ++i)
            m[wide(op.key) + std::wstring(i, L'-')].assign(i, wide(op.key));
        V v = m;
        b   = wjson::parse(wjson::dump(v)).template get<std::map<std::wstring, std::vector<std::wstring>>>();
        return text(wjson::dump(v)) + (b == m ? " equal" : " different") + tried<V, std::vector<std::wstring>>(build<V>(op.m), "strings");
    }

    static void change(V& v, const Op& op)
    {
        const auto k = enc<V>(op.key);
        if (v.is_null() && op.flag)
            v = V(value_constant::object);
        if (v.is_object())
        {
            v[k] = build<V>(op.m);
            v[enc<V>(U"zz")][enc<V>(U"y")] = v[k];
            if (op.i % 2)
                v.erase(v.begin());
            if (op.i % 3 == 1)
                v.erase(k);
        }
        else if (v.is_array() || v.is_null())
        {
            v.push_back(build<V>(op.m));
            v[v.size()] = static_cast<typename V::integer_type>(op.i);
            if (op.i % 2)
                v.erase(v.begin());
            if (op.i % 3 == 1)
                v.erase(v.size() - 1);
            for (auto& x : v)
                if (x.is_integer())
                    x = k;
        }
        else if (v.is_string())
            *v.template get_ptr<typename V::string_type*>() += k;
        else if (op.i % 2)
            v.clear();
        else
        {
            V o = build<V>(op.m);
            v.swap(o);
        }
    }
};

// ---------------------------------------------------------------- execution

struct World
{
    std::vector<json::value>  narrow;
    std::vector<wjson::value> wide;

    explicit World(const Case& k)
    {
        bool n = false, w = false;
        for (auto& p : k.threads)
            (p.wide ? w : n) = true;
        for (auto& m : k.shared)
        {
            if (n)
                narrow.push_back(build<json::value>(m));
            if (w)
                wide.push_back(build<wjson::value>(m));
        }
    }
};

template <class J>
void execute(const Plan& p, const std::vector<typename J::value>& shared, std::vector<typename J::value>& own, std::vector<std::string>& out)
{
    for (size_t i = 0; i < p.ops.size(); ++i)
        out[i] = Runner<J>::run(p.ops[i], shared, own);
}

struct Own
{
    std::vector<json::value>  narrow;
    std::vector<wjson::value> wide;
};

// "" or what went wrong
std::string perform(const Case& k)
{
    const size_t                          n = k.threads.size();
    const World                           w(k);
    std::vector<std::vector<std::string>> seen(n), alone(n);
    std::vector<std::string>              broken(n);
    std::vector<Own>                      own(n), own2(n);
    for (size_t i = 0; i < n; ++i)
    {
        seen[i].resize(k.threads[i].ops.size());
        alone[i].resize(k.threads[i].ops.size());
        for (auto* o : { &own[i], &own2[i] })
        {
            if (k.threads[i].wide)
                o->wide = w.wide;
            else
                o->narrow = w.narrow;
        }
    }
    auto one = [&](size_t i, Own& o, std::vector<std::string>& out) {
        try
        {
            if (k.threads[i].wide)
                execute<wjson>(k.threads[i], w.wide, o.wide, out);
            else
                execute<json>(k.threads[i], w.narrow, o.narrow, out);
        }
        catch (const eng::Failure& f)
        {
            broken[i] = f.msg;
        }
        // what a thread owns it destroys
        o.wide.clear();
        o.narrow.clear();
    };
    {
        std::atomic<size_t>      ready(0);
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n; ++i)
            ts.emplace_back([&, i] {
                ready.fetch_add(1);
                while (ready.load(std::memory_order_relaxed) < n)
                    std::this_thread::yield();
                one(i, own[i], seen[i]);
            });
        for (auto& t : ts)
            t.join();
    }
    for (size_t i = 0; i < n; ++i)
        if (!broken[i].empty())
            return fmt("thread %zu: ", i) + broken[i];
    for (size_t i = 0; i < n; ++i)
    {
        one(i, own2[i], alone[i]);
        if (!broken[i].empty())
            return fmt("thread %zu alone: ", i) + broken[i];
        for (size_t j = 0; j < seen[i].size(); ++j)
            if (seen[i][j] != alone[i][j])
                return fmt("thread %zu: ", i) + k.threads[i].ops[j].show() + "\n  gave  " + printable(seen[i][j]) + "\n  alone " + printable(alone[i][j]);
    }
    for (size_t i = 0; i < k.shared.size(); ++i)
    {
        std::string d;
        if (!w.narrow.empty() && !(d = diff(k.shared[i], extract(w.narrow[i]), Tol(0))).empty())
            return fmt("shared value #%zu changed: ", i) + d;
        if (!w.wide.empty() && !(d = diff(k.shared[i], extract(w.wide[i]), Tol(0))).empty())
            return fmt("shared wide value #%zu changed: ", i) + d;
    }
    return "";
}

// ---------------------------------------------------------------- generation

Op gen_op(Src& s, const Case& k, int only_private)
{
    Op o;
    o.kind   = static_cast<Kind>(only_private ? Parse + s.draw(kinds - Parse) : s.draw(kinds));
    o.target = static_cast<size_t>(s.draw(k.shared.size()));
    o.i      = static_cast<size_t>(s.draw(6));
    o.flag   = s.flip();
    switch (o.kind)
    {
    case Dump:
    case DumpOther:
    case DumpStream:
        o.o = gen_dopt(s, k.shared[o.target]);
        if (o.o.indent > 8)
            o.o.indent = 2;
        break;
    case Lookup:
    case Compare:
    case Objects:
        o.other = static_cast<size_t>(s.draw(k.shared.size()));
        o.key   = small_key(s);
        if (o.kind == Objects)
            o.m = small_tree(s, 3);
        if (o.kind == Lookup && k.shared[o.target].k == M::Obj && !k.shared[o.target].o.empty() && s.flip())
            o.key = std::next(k.shared[o.target].o.begin(), static_cast<std::ptrdiff_t>(s.draw(k.shared[o.target].o.size())))->first;
        break;
    case CopyChange:
    case MergeFrom:
    case Build:
    case Change:
    case OwnCopy:
        o.key = small_key(s);
        o.m   = small_tree(s, 4);
        break;
    case Parse:
    case ParseStream:
    case Encode:
    {
        WriteOpts wo;
        wo.comments = s.flip();
        Writer w(s, wo);
        o.m    = small_tree(s, 6);
        o.text = w.doc(o.m);
        o.o    = gen_dopt(s, o.m);
        if (o.o.indent > 8)
            o.o.indent = 2;
        for (auto& c : o.text)
            if (c == 0xFFFF)
                c = 0xFFFC;
        break;
    }
    case ParseBad:
    case ParseHandled:
        o.bytes = gen_input(s);
        break;
    default:
        break;
    }
    return o;
}

Case gen_case(Src& s, Ctx& c, bool cold)
{
    Case         k;
    const bool   priv = s.chance(1, 4);
    const size_t ns   = 1 + s.draw(3);
    for (size_t i = 0; i < ns; ++i)
        k.shared.push_back(priv ? M::null() : i > 0 && s.chance(1, 4) ? k.shared[0] : small_tree(s, 10));
    const size_t nt    = 2 + s.draw(cold ? 2 : 3);
    const size_t focus = s.weighted({ 3, 3 });  // alike or any
    size_t       shapes = 0, readers = 0, owners = 0;
    for (auto& m : k.shared)
        shapes += m.k == M::Arr || m.k == M::Obj;
    Plan first;
    for (size_t t = 0; t < nt; ++t)
    {
        Plan p;
        if (t && focus == 0 && s.chance(2, 3))
            p = k.threads[0];  // the same at the same time
        else
        {
            p.wide = s.chance(1, 3);
            do
                p.ops.push_back(gen_op(s, k, priv));
            while (s.more(p.ops.size(), cold ? 6 : 8, 4));
        }
        bool r = false, w = false;
        for (auto& o : p.ops)
        {
            (o.kind < Parse ? r : w) = true;
            c.label(kind_names[o.kind]);
        }
        readers += r;
        owners += w;
        k.threads.push_back(p);
    }
    uint64_t    h = 77;
    std::string t = "";
    for (size_t i = 0; i < k.shared.size(); ++i)
    {
        h = hash(k.shared[i], h);
        t += fmt("shared #%zu: ", i) + show(k.shared[i]) + "\n";
    }
    for (size_t i = 0; i < k.threads.size(); ++i)
    {
        t += fmt("thread %zu%s:\n", i, k.threads[i].wide ? " (wide)" : "");
        for (auto& o : k.threads[i].ops)
        {
            std::string x = "  " + o.show() + fmt(" %zu %s\n", o.i, show(M::str(o.key)).c_str());
            t += x;
            h = eng::hash_str(x, h);
        }
    }
    c.note(t);
    if ((readers > 1 && shapes) || owners > 1)
        c.nontrivial(h);
    return k;
}

// in a process of its own, where nothing of the library ran before the threads do
std::string perform_apart(const Case& k)
{
    int fd[2];
    if (pipe(fd) != 0)
        throw eng::Discard();
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0)
    {
        close(fd[0]);
        close(fd[1]);
        throw eng::Discard();
    }
    if (pid == 0)
    {
        close(fd[0]);
        alarm(60);
        std::string e;
        try
        {
            e = perform(k);
        }
        catch (const std::exception& x)
        {
            e = std::string("unexpected exception: ") + x.what();
        }
        e = e.substr(0, 4000) + "$";
        ssize_t n = write(fd[1], e.data(), e.size());
        _exit(n == static_cast<ssize_t>(e.size()) ? 0 : 9);
    }
    close(fd[1]);
    std::string e;
    char        b[512];
    ssize_t     n;
    while ((n = read(fd[0], b, sizeof b)) > 0)
        e.append(b, static_cast<size_t>(n));
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
        ;
    if (WIFSIGNALED(st))
        return fmt("the threads died of signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st) == 66)
        return "ThreadSanitizer reports a data race";
    if (WEXITSTATUS(st) != 0 || e.empty())
        return fmt("the threads exited with %d", WEXITSTATUS(st));
    e.pop_back();
    return e;
}
}  // namespace c20

PROP(cold, 1200, 16000)
{
    auto        k = c20::gen_case(s, c, true);
    std::string e = c20::perform_apart(k);
    if (!e.empty())
        fail(e);
    c.inner();
}

PROP(warm, 12000, 160000)
{
    auto        k = c20::gen_case(s, c, false);
    std::string e = c20::perform(k);
    if (!e.empty())
        fail(e);
    c.inner();
}
