// C08: the transport never changes the outcome.
#include "inputs.hpp"
#include "lib.hpp"

#include <cstdio>
#include <iomanip>
#include <iterator>
#include <list>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace lib;

PROPERTY_INFO("C08", "a case is non-trivial if the text has at least two characters, or the history at least three operations; cases are distinct "
                     "by text, by value and options, or by content and operations");

namespace
{
// ---------------------------------------------------------------- sources

// a buffer that hands out pieces
template <class C>
class Chunks : public std::basic_streambuf<C>
{
public:
    Chunks(const std::basic_string<C>& t, size_t n)
        : t_(t), n_(n)
    {
    }

protected:
    typename Chunks::int_type underflow() override
    {
        using TR = std::char_traits<C>;
        if (this->gptr() < this->egptr())
            return TR::to_int_type(*this->gptr());
        if (p_ >= t_.size())
            return TR::eof();
        size_t k = std::min(n_, t_.size() - p_);
        C*     b = &t_[p_];
        this->setg(b, b, b + k);
        p_ += k;
        return TR::to_int_type(*b);
    }

private:
    std::basic_string<C> t_;
    size_t               n_, p_ = 0;
};

template <class C>
struct Adapter : public configor::basic_iadapter<C>
{
    using configor::basic_iadapter<C>::read;
    Adapter(const std::basic_string<C>& t, C end)
        : t_(t), end_(end)
    {
    }
    C read() override
    {
        if (i_ < t_.size())
            return t_[i_++];
        ++i_;
        return end_;
    }
    std::basic_string<C> t_;
    size_t               i_ = 0;
    C                    end_;
};
template <class C>
struct BlockAdapter : public Adapter<C>
{
    using Adapter<C>::Adapter;
    using Adapter<C>::read;
    void read(C* s, size_t n) override
    {
        for (size_t k = 0; k < n; ++k)
            s[k] = this->read();
    }
};

struct File
{
    // memory streams of the C library have no wide functions
    explicit File(const std::string& t, const std::string& before = std::string(), bool wide_io = false)
    {
        std::string all = before + t;
        copy_           = all;
        if (all.empty() || wide_io)
        {
            f_ = std::tmpfile();
            if (f_)
            {
                // not through the stream, that would orient it
                if (::write(fileno(f_), all.data(), all.size()) != static_cast<ssize_t>(all.size()) || ::lseek(fileno(f_), 0, SEEK_SET) != 0)
                    fail("harness: no FILE");
            }
        }
        else
            f_ = fmemopen(&copy_[0], copy_.size(), "rb");
        if (!f_)
            fail("harness: no FILE");
        for (size_t i = 0; i < before.size(); ++i)
            std::fgetc(f_);
    }
    ~File()
    {
        std::fclose(f_);
    }
    std::string copy_;
    std::FILE*  f_;
};

bool same(const Read& a, const Read& b)
{
    return a.ok == b.ok && (!a.ok || diff(a.m, b.m, Tol(0)).empty());
}
std::string outcome(const Read& r)
{
    return r.ok ? show(r.m) : "rejected with \"" + r.error + "\"";
}

template <class J>
typename J::value used(Src& s)
{
    TreeOpts to;
    to.budget = 6;
    to.big    = false;
    return build<typename J::value>(gen_tree(s, to));
}

template <class J>
void read_all(Src& s, Ctx& c, const std::string& bytes, const std::basic_string<typename J::value::char_type>& t)
{
    using V = typename J::value;
    using C = typename V::char_type;
    std::string shown = printable(t);
    const Read  ref   = reading([&] { return J::parse(t); });
    auto        eq    = [&](const Read& r, const char* how) {
        c.inner();
        if (!same(ref, r))
            fail(std::string(how) + ": " + outcome(r) + "\n  but string: " + outcome(ref) + "\n  input: " + shown);
    };
    auto into = [&](std::function<void(V&)> f) {
        V v = used<J>(s);
        return reading([&]() -> V {
            f(v);
            return v;
        });
    };
    eq(into([&](V& v) { J::parse(v, t); }), "string into a used value");
    if (t.find(C(0)) == t.npos)
    {
        eq(reading([&] { return J::parse(t.c_str()); }), "C string");
        eq(into([&](V& v) { J::parse(v, t.c_str()); }), "C string into a used value");
    }
    {
        std::basic_istringstream<C> is(t);
        eq(reading([&] { return J::parse(is); }), "istringstream");
    }
    {
        std::basic_stringstream<C> is;
        is << t;
        eq(into([&](V& v) { J::parse(v, is); }), "stringstream into a used value");
    }
    {
        Chunks<C>             buf(t, static_cast<size_t>(s.range(1, 9)));
        std::basic_istream<C> is(&buf);
        eq(reading([&] { return J::parse(is); }), "chunked stream");
    }
    // a stream that was read from before
    {
        std::basic_istringstream<C> is(std::basic_string<C>(3, C('x')) + t);
        is.get();
        is.ignore(1);
        is.peek();
        is.get();
        eq(reading([&] { return J::parse(is); }), "stream from its current position");
    }
    // wrapped extraction; the stream itself skips blanks first unless told otherwise
    {
        std::basic_istringstream<C> is(t);
        is >> std::noskipws;
        V v = used<J>(s);
        eq(reading([&]() -> V {
               auto w = J::wrap(v);
               is >> w;
               return v;
           }),
           "wrapped extraction");
    }
    size_t first = 0;
    while (first < t.size() && (t[first] == C(' ') || (t[first] >= C(9) && t[first] <= C(13))))
        ++first;
    bool json_ws = true;
    for (size_t i = 0; i < first; ++i)
        json_ws = json_ws && t[i] != C('\v') && t[i] != C('\f');
    if (first < t.size() && json_ws && static_cast<uint32_t>(t[first]) < 0x80)
    {
        Chunks<C>             buf(t, static_cast<size_t>(s.range(1, 5)));
        std::basic_istream<C> is(&buf);
        V                     v;
        eq(reading([&]() -> V {
               auto w = J::wrap(v);
               is >> w;
               return v;
           }),
           "wrapped extraction with skipws");
    }
    // adapters; their end is NUL or the end-of-file value
    const C eof = static_cast<C>(std::char_traits<C>::eof());
    if (t.find(eof) == t.npos)
    {
        {
            Adapter<C>                        a(t, eof);
            configor::basic_iadapterstream<C> is(a);
            eq(reading([&] { return J::parse(is); }), "adapter");
        }
        {
            BlockAdapter<C>                   a(t, eof);
            configor::basic_iadapterstream<C> is(a);
            eq(into([&](V& v) { J::parse(v, is); }), "adapter into a used value");
        }
        if (t.find(C(0)) == t.npos)
        {
            Adapter<C>                        a(t, C(0));
            configor::basic_iadapterstream<C> is(a);
            eq(reading([&] { return J::parse(is); }), "adapter that ends with NUL");
            // a small overshoot at the end is what peeking needs; a parser that goes on is one that may never end
            if (a.i_ > t.size() + 8)
                fail(fmt("the adapter was read %zu times beyond its end", a.i_ - t.size()));
        }
    }
    // FILE
    {
        File f(bytes);
        eq(reading([&] { return J::template parse<char>(f.f_); }), "FILE");
    }
    {
        File f(bytes, "zz");
        eq(into([&](V& v) { J::template parse<char>(v, f.f_); }), "FILE from its current position into a used value");
    }
    c.label(ref.ok ? "accepted" : "rejected");
}

// ---------------------------------------------------------------- sinks

template <class C>
struct Sink : public configor::basic_oadapter<C>
{
    void write(const C ch) override
    {
        t += ch;
    }
    std::basic_string<C> t;
};
template <class C>
struct BlockSink : public configor::basic_oadapter<C>
{
    void write(const C ch) override
    {
        t += ch;
    }
    void write(const C* s, size_t n) override
    {
        t.append(s, n);
        ++blocks;
    }
    std::basic_string<C> t;
    unsigned             blocks = 0;
};
template <class C>
class SmallBuffer : public std::basic_streambuf<C>
{
public:
    explicit SmallBuffer(size_t n)
        : b_(n)
    {
        this->setp(b_.data(), b_.data() + n);
    }
    std::basic_string<C> take()
    {
        sync();
        return t_;
    }

protected:
    int sync() override
    {
        t_.append(this->pbase(), this->pptr());
        this->setp(b_.data(), b_.data() + b_.size());
        return 0;
    }
    typename SmallBuffer::int_type overflow(typename SmallBuffer::int_type c) override
    {
        sync();
        using TR = std::char_traits<C>;
        if (!TR::eq_int_type(c, TR::eof()))
        {
            *this->pptr() = TR::to_char_type(c);
            this->pbump(1);
        }
        return TR::not_eof(c);
    }

private:
    std::vector<C>       b_;
    std::basic_string<C> t_;
};

template <class J, class T>
void write_all(Src& s, Ctx& c, const M& m, const DOpt& o)
{
    using V    = typename J::value;
    using S    = std::basic_string<T>;
    const V v  = build<V>(m);
    const S t  = dump_with<J, T>(v, o);
    auto    eq = [&](const S& g, const char* how) {
        c.inner();
        if (g != t)
            fail(std::string(how) + ": " + printable(g) + "\n  but dump to a string: " + printable(t));
    };
    {
        S g;
        dump_into<J, T>(g, v, o);
        eq(g, "dump into a string");
    }
    {
        S before = s.flip() ? S(1, T('[')) : S(20, T('x'));
        S g      = before;
        dump_into<J, T>(g, v, o);
        REQUIRE_MSG(g.compare(0, before.size(), before) == 0, "appending to a string changed what was there: " + printable(g));
        eq(g.substr(before.size()), "append to a string");
    }
    {
        std::basic_ostringstream<T> os;
        dump_into<J, T>(os, v, o);
        eq(os.str(), "ostringstream");
        REQUIRE_MSG(os.good(), "the stream is not good after a successful dump");
        dump_into<J, T>(os, v, o);
        eq(os.str().substr(t.size()), "a second dump to the same stream");
    }
    {
        SmallBuffer<T>        buf(static_cast<size_t>(s.range(1, 7)));
        std::basic_ostream<T> os(&buf);
        os.put(T('<'));
        dump_into<J, T>(os, v, o);
        os.put(T('>'));
        eq(buf.take().substr(1, t.size()), "stream with a small buffer");
        REQUIRE(buf.take() == S(1, T('<')) + t + S(1, T('>')));
    }
    {
        Sink<T>                           a;
        configor::basic_oadapterstream<T> os(a);
        dump_into<J, T>(os, v, o);
        eq(a.t, "output adapter");
    }
    {
        BlockSink<T>                      a;
        configor::basic_oadapterstream<T> os(a);
        os << T('x');
        dump_into<J, T>(os, v, o);
        eq(a.t.substr(1), "output adapter that takes blocks");
    }
    // the stream carries the options; escaping has no manipulator
    DOpt p     = o;
    p.escaping = false;
    const S u  = dump_with<J, T>(v, p);
    auto    wrapped = [&](std::basic_ostream<T>& os) {
        if (p.mode)
        {
            os.precision(p.prec);
            os.setf(p.flags(), std::ios_base::floatfield);
        }
        if (p.indent)
            os << std::setw(static_cast<int>(p.indent)) << std::setfill(T(p.ch));
        os << J::wrap(v);
    };
    auto equ = [&](const S& g, const char* how) {
        c.inner();
        if (g != u)
            fail(std::string(how) + ": " + printable(g) + "\n  but dump to a string: " + printable(u));
    };
    {
        std::basic_ostringstream<T> os;
        os << T('=');
        wrapped(os);
        REQUIRE_MSG(os.good(), "the stream is not good after a wrapped insertion");
        equ(os.str().substr(1), "wrapped insertion");
        os << J::wrap(v) << T('|');
        // the width was used up, so this one is compact
        DOpt q   = p;
        q.indent = 0;
        S rest   = dump_with<J, T>(v, q) + T('|');
        if (os.str().substr(1 + u.size()) != rest)
            fail("a second wrapped insertion: " + printable(os.str().substr(1 + u.size())) + "\n  expected: " + printable(rest));
    }
    {
        BlockSink<T>                      a;
        configor::basic_oadapterstream<T> os(a);
        wrapped(os);
        equ(a.t, "wrapped insertion into an output adapter");
    }
    {
        V                           copy = v;
        std::basic_ostringstream<T> os;
        if (p.mode)
        {
            os.precision(p.prec);
            os.setf(p.flags(), std::ios_base::floatfield);
        }
        if (p.indent)
            os << std::setw(static_cast<int>(p.indent)) << std::setfill(T(p.ch));
        auto w = J::wrap(copy);
        os << w;
        equ(os.str(), "insertion of a wrapped variable");
    }
}
}  // namespace

PROP(read_narrow, 40000, 500000)
{
    std::string t;
    if (s.chance(1, 3))
    {
        WriteOpts wo;
        wo.comments = s.flip();
        Writer w(s, wo);
        t = utf8(w.doc(s.chance(1, 200) ? gen_long(s) : gen_tree(s)));
    }
    else
        t = gen_input(s);
    if (s.chance(1, 12))
        t.insert(static_cast<size_t>(s.draw(t.size() + 1)), 1, '\0');
    c.note(printable(t));
    read_all<json>(s, c, t, t);
    if (t.size() > 1)
        c.nontrivial(eng::hash_str(t));
}

PROP(read_wide, 20000, 250000)
{
    U u;
    if (s.chance(1, 3))
    {
        WriteOpts wo;
        wo.comments = s.flip();
        Writer w(s, wo);
        u = w.doc(s.chance(1, 200) ? gen_long(s) : gen_tree(s));
    }
    else if (!from8(gen_input(s), u))
        throw eng::Discard();
    c.note(printable(utf8(u)));
    read_all<wjson>(s, c, utf8(u), wide(u));
    // a wide FILE, as far as the locale of the process reaches
    bool plain = !u.empty();
    for (char32_t ch : u)
        plain = plain && ch < 0x80 && ch != 0;
    if (plain && s.chance(1, 4))
    {
        File f(utf8(u), "", true);
        Read r   = reading([&] { return wjson::parse<wchar_t>(f.f_); });
        Read ref = reading([&] { return wjson::parse(wide(u)); });
        if (!same(ref, r))
            fail("wide FILE: " + outcome(r) + "\n  but string: " + outcome(ref));
        c.inner();
    }
    if (u.size() > 1)
        c.nontrivial(eng::hash_bytes(u.data(), u.size() * 4));
}

// ---------------------------------------------------------------- C++ objects behind the wrapper
namespace
{
M gen_scalar_of(Src& s, unsigned k)
{
    if (s.chance(1, 12))
        return gen_scalar(s);
    switch (k)
    {
    case 0: return M::integer(gen_int(s));
    case 1: return M::flt(gen_flt(s));
    case 2: return M::boolean(s.flip());
    default: return M::str(gen_str(s));
    }
}
M gen_array_of(Src& s, unsigned k)
{
    M    a = M::arr();
    auto n = s.draw(5);
    for (uint64_t i = 0; i < n; ++i)
        a.a.push_back(gen_scalar_of(s, k));
    return a;
}
M gen_object_of(Src& s, unsigned k, bool arrays)
{
    M    o = M::obj();
    auto n = s.draw(5);
    for (uint64_t i = 0; i < n; ++i)
    {
        U key = gen_key(s);
        o.o.emplace(key, arrays ? gen_array_of(s, k) : gen_scalar_of(s, k));
    }
    return o;
}

template <class J, class C, class T>
void typed_case(Src& s, Ctx& c, const std::basic_string<C>& t, const T& before)
{
    using V   = typename J::value;
    bool ok   = false;
    std::string why;
    V    ref;
    T    want{};
    try
    {
        ref  = J::parse(t);
        want = ref.template get<T>();
        ok   = true;
    }
    catch (const configor::configor_exception& e)
    {
        why = e.what();
    }
    Chunks<C>             buf(t, static_cast<size_t>(s.range(1, 9)));
    std::basic_istream<C> is(&buf);
    is.unsetf(std::ios_base::skipws);
    T    got(before);
    bool read = false;
    std::string err;
    try
    {
        auto w = J::wrap(got);
        is >> w;
        read = true;
    }
    catch (const configor::configor_exception& e)
    {
        err = e.what();
    }
    c.inner();
    if (ok != read)
        fail(std::string("extraction of a wrapped object ") + (read ? "succeeds" : "fails: " + err) + "\n  but parse() and get() "
             + (ok ? "succeed" : "fail: " + why));
    if (ok && !(got == want))
        fail("extraction of a wrapped object gives " + printable(J::template dump<char>(V(got))) + "\n  but parse() and get() give "
             + printable(J::template dump<char>(V(want))));
    if (ok)
    {
        std::basic_ostringstream<C> os;
        const T&                    cref = got;
        os << J::wrap(cref);
        const std::basic_string<C> text = J::template dump<C>(V(want));
        c.inner();
        if (os.str() != text)
            fail("insertion of a wrapped object: " + printable(os.str()) + "\n  but dump: " + printable(text));
    }
    c.label(ok ? "read" : "refused");
}

template <class J, class C>
void typed_all(Src& s, Ctx& c, const std::function<std::basic_string<C>(const U&)>& to)
{
    using V         = typename J::value;
    using S         = typename V::string_type;
    const unsigned k = static_cast<unsigned>(s.draw(4));
    const unsigned f = static_cast<unsigned>(s.draw(4));
    M              m = f == 0 ? gen_scalar_of(s, k) : f == 1 ? gen_array_of(s, k) : gen_object_of(s, k, f == 3);
    if (s.chance(1, 10))
        m = gen_tree(s);
    WriteOpts wo;
    wo.comments = s.flip();
    Writer w(s, wo);
    U      u = w.doc(m);
    if (s.chance(1, 12) && u.size() > 1)
        u.resize(static_cast<size_t>(s.range(1, u.size() - 1)));
    const std::basic_string<C> t = to(u);
    static const char* const kinds[] = { "integer", "float", "bool", "string" };
    static const char* const forms[] = { "", "vector of ", "map of ", "map of vectors of " };
    c.note(std::string(forms[f]) + kinds[k] + " from " + printable(utf8(u)));
    c.label(std::string(forms[f]) + kinds[k]);
    const bool used = s.flip();
    const S    a(1, typename S::value_type('a'));
#define TYPED(K, T, VAL)                                                                                               \
    if (k == K)                                                                                                        \
    {                                                                                                                  \
        if (f == 0)                                                                                                    \
            typed_case<J, C, T>(s, c, t, used ? T(VAL) : T());                                                         \
        else if (f == 1)                                                                                               \
            typed_case<J, C>(s, c, t, used ? std::vector<T>(3, T(VAL)) : std::vector<T>());                            \
        else if (f == 2)                                                                                               \
            typed_case<J, C>(s, c, t, used ? std::map<S, T>{ { a, T(VAL) } } : std::map<S, T>());                      \
        else                                                                                                           \
            typed_case<J, C>(s, c, t, used ? std::map<S, std::list<T>>{ { a, { T(VAL) } } } : std::map<S, std::list<T>>()); \
    }
    TYPED(0, int64_t, 7)
    TYPED(1, double, 2.5)
    TYPED(2, bool, true)
    TYPED(3, S, a)
#undef TYPED
    if (u.size() > 1)
        c.nontrivial(eng::hash_bytes(u.data(), u.size() * 4) * 31 + k * 4 + f);
}
}  // namespace

PROP(objects, 20000, 250000)
{
    if (s.flip())
        typed_all<json, char>(s, c, [](const U& u) { return utf8(u); });
    else
        typed_all<wjson, wchar_t>(s, c, [](const U& u) { return wide(u); });
}

PROP(write, 30000, 400000)
{
    M    m = s.chance(1, 4) ? gen_scalar(s) : s.chance(1, 300) ? gen_long(s) : gen_tree(s);
    DOpt o = gen_dopt(s, m);
    unsigned w = static_cast<unsigned>(s.draw(4));
    static const char* const names[] = { "json to char", "wjson to wchar_t", "json to wchar_t", "wjson to char" };
    c.note(std::string(names[w]) + " " + o.show() + " " + show(m));
    c.label(names[w]);
    if (w == 0)
        write_all<json, char>(s, c, m, o);
    else if (w == 1)
        write_all<wjson, wchar_t>(s, c, m, o);
    else if (w == 2)
        write_all<json, wchar_t>(s, c, m, o);
    else
        write_all<wjson, char>(s, c, m, o);
    c.nontrivial(eng::hash_str(show(m, 2000)) + o.key() + w);
}

namespace
{
template <class C>
std::basic_string<C> word(const char* t)
{
    std::string s = t;
    return std::basic_string<C>(s.begin(), s.end());
}
template <class C>
void same_text(const std::basic_string<C>& a, const std::basic_string<C>& b, const char* op)
{
    if (a != b)
        fail(std::string(op) + ": \"" + printable(a) + "\", expected \"" + printable(b) + "\"");
}

// an adapter stream against a string stream over the same characters
template <class C>
void input_history(Src& s, Ctx& c)
{
    std::basic_string<C> t;
    while (s.more(t.size(), 60, 24))
    {
        static const char cs[] = "ab c\n12,;\t\"{}[]x";
        switch (s.draw(8))
        {
        case 0:
            t += static_cast<C>(s.draw(256));
            break;
        case 1:
            t += C(0);
            break;
        default:
            t += static_cast<C>(cs[s.draw(sizeof cs - 1)]);
        }
    }
    for (auto& ch : t)
        if (static_cast<uint32_t>(ch) == static_cast<uint32_t>(C(-1)) || (sizeof(C) == 1 && ch == C(-1)))
            ch = C('y');
    c.note(printable(t));
    const C           eof = static_cast<C>(std::char_traits<C>::eof());
    bool              blk = s.flip();
    Adapter<C>        a1(t, eof);
    BlockAdapter<C>   a2(t, eof);
    configor::basic_iadapterstream<C> is(blk ? static_cast<configor::basic_iadapter<C>&>(a2) : a1);
    std::basic_istringstream<C>       ref(t);
    size_t                            n = 0;
    std::string                       ops;
    auto                              left = [&]() -> size_t {
        if (ref.rdstate() != std::ios_base::goodbit)
            return 0;
        return t.size() - static_cast<size_t>(ref.tellg());
    };
    do
    {
        size_t k = static_cast<size_t>(s.draw(8));
        switch (s.draw(10))
        {
        case 0:
        {
            ops += "get ";
            auto g = is.get(), r = ref.get();
            REQUIRE(static_cast<C>(g) == static_cast<C>(r));
            break;
        }
        case 1:
        {
            ops += "peek ";
            auto g = is.peek(), r = ref.peek();
            REQUIRE(static_cast<C>(g) == static_cast<C>(r));
            break;
        }
        case 2:
        {
            // the adapter has no way to say that a block ended early
            k = std::min(k, left());
            ops += fmt("read(%zu) ", k);
            std::vector<C> g(k + 2, C('#')), r(k + 2, C('#'));
            is.read(g.data() + 1, static_cast<std::streamsize>(k));
            ref.read(r.data() + 1, static_cast<std::streamsize>(k));
            if (g != r)
                fail("read: \"" + printable(std::basic_string<C>(g.begin(), g.end())) + "\", expected \"" + printable(std::basic_string<C>(r.begin(), r.end())) + "\" after " + ops);
            REQUIRE(is.gcount() == ref.gcount());
            break;
        }
        case 3:
        {
            ops += fmt("ignore(%zu) ", k);
            is.ignore(static_cast<std::streamsize>(k));
            ref.ignore(static_cast<std::streamsize>(k));
            REQUIRE(is.gcount() == ref.gcount());
            break;
        }
        case 4:
        {
            ops += "ignore to ',' ";
            is.ignore(static_cast<std::streamsize>(k * 4), ',');
            ref.ignore(static_cast<std::streamsize>(k * 4), ',');
            REQUIRE(is.gcount() == ref.gcount());
            break;
        }
        case 5:
        {
            ops += "getline ";
            std::basic_string<C> g, r;
            std::getline(is, g);
            std::getline(ref, r);
            same_text(g, r, "getline");
            break;
        }
        case 6:
        {
            ops += ">>string ";
            std::basic_string<C> g, r;
            is >> g;
            ref >> r;
            same_text(g, r, ">> string");
            break;
        }
        case 7:
        {
            ops += ">>char ";
            C g = C('#'), r = C('#');
            is >> g;
            ref >> r;
            REQUIRE(g == r);
            break;
        }
        case 8:
        {
            ops += fmt("get(buffer, %zu) ", k + 1);
            C g[16] = { 0 }, r[16] = { 0 };
            is.get(g, static_cast<std::streamsize>(k + 1), C(';'));
            ref.get(r, static_cast<std::streamsize>(k + 1), C(';'));
            same_text(std::basic_string<C>(g), std::basic_string<C>(r), "get(buffer)");
            break;
        }
        default:
        {
            ops += "ws ";
            is >> std::ws;
            ref >> std::ws;
        }
        }
        if (is.rdstate() != ref.rdstate())
            fail(fmt("state %d, expected %d after ", static_cast<int>(is.rdstate()), static_cast<int>(ref.rdstate())) + ops + "on \"" + printable(t) + "\"");
        if (!is.good() && s.flip())
        {
            ops += "clear ";
            is.clear();
            ref.clear();
        }
        ++n;
        c.inner();
    } while (s.more(n, 25, 10));
    // and the rest
    is.clear();
    ref.clear();
    std::basic_string<C> g, r;
    for (;;)
    {
        auto x = is.get();
        if (!is.good())
            break;
        g += static_cast<C>(x);
        if (g.size() > t.size())
            fail("the adapter stream does not end after " + ops);
    }
    r.assign(std::istreambuf_iterator<C>(ref), std::istreambuf_iterator<C>());
    if (g != r)
        fail("the rest: \"" + printable(g) + "\", expected \"" + printable(r) + "\" after " + ops);
    c.note(" " + ops);
    if (n > 2)
        c.nontrivial(eng::hash_str(ops, eng::hash_bytes(t.data(), t.size() * sizeof(C))));
}

template <class C>
void output_history(Src& s, Ctx& c)
{
    Sink<C>                           a1;
    BlockSink<C>                      a2;
    bool                              blk = s.flip();
    configor::basic_oadapterstream<C> os(blk ? static_cast<configor::basic_oadapter<C>&>(a2) : a1);
    std::basic_ostringstream<C>       ref;
    size_t                            n = 0;
    std::string                       ops;
    do
    {
        switch (s.draw(7))
        {
        case 0:
        {
            C x = static_cast<C>(s.draw(255));
            ops += fmt("put(%d) ", static_cast<int>(x));
            os.put(x);
            ref.put(x);
            break;
        }
        case 1:
        {
            std::basic_string<C> x;
            size_t               k = static_cast<size_t>(s.draw(20));
            for (size_t i = 0; i < k; ++i)
                x += static_cast<C>('a' + (i + n) % 26);
            if (k > 3)
                x[k / 2] = C(0);
            ops += fmt("write(%zu) ", k);
            os.write(x.data(), static_cast<std::streamsize>(k));
            ref.write(x.data(), static_cast<std::streamsize>(k));
            break;
        }
        case 2:
        {
            int64_t x = gen_int(s);
            ops += "<<integer ";
            os << x << C(' ');
            ref << x << C(' ');
            break;
        }
        case 3:
        {
            double x = gen_flt(s);
            ops += "<<float ";
            os << x;
            ref << x;
            break;
        }
        case 4:
        {
            std::basic_string<C> x = word<C>("word");
            ops += "<<setw string ";
            os << std::setw(9) << std::setfill(C('*')) << x;
            ref << std::setw(9) << std::setfill(C('*')) << x;
            break;
        }
        case 5:
            ops += "flush ";
            os << std::flush;
            break;
        default:
            ops += "endl ";
            os << std::endl;
            ref << std::endl;
        }
        REQUIRE_MSG(os.rdstate() == ref.rdstate(), "state after " + ops);
        same_text(blk ? a2.t : a1.t, ref.str(), ops.c_str());
        ++n;
        c.inner();
    } while (s.more(n, 20, 8));
    c.note(ops + printable(ref.str()));
    if (n > 2)
        c.nontrivial(eng::hash_str(ops) + eng::hash_bytes(ref.str().data(), ref.str().size() * sizeof(C)));
}
}  // namespace

PROP(input_adapter, 60000, 600000)
{
    if (s.flip())
        input_history<wchar_t>(s, c);
    else
        input_history<char>(s, c);
}
PROP(output_adapter, 30000, 300000)
{
    if (s.flip())
        output_history<wchar_t>(s, c);
    else
        output_history<char>(s, c);
}

static const char* const ENDS[] = { "//", "1//", "1//x", "/*", "/* *", "[1]/**/", "[1]", "1", "\"", "\"a", "[", "{\"a\":1}//", "", " ", "/", "1/", "[/**/", "t", "-", "1e", "1.", "\"\\", "\"\\u" };
PROP_ENUM(ends, sizeof(ENDS) / sizeof(ENDS[0]) * 3, sizeof(ENDS) / sizeof(ENDS[0]) * 3)
{
    std::string t = ENDS[index / 3];
    if (index % 3)
        t += '\0';
    if (index % 3 == 2)
        t += "]";
    c.note(printable(t));
    Src s(index + 1);
    read_all<json>(s, c, t, t);
    U u;
    from8(t, u);
    read_all<wjson>(s, c, t, wide(u));
    c.nontrivial(eng::hash_str(t));
}
