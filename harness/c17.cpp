// C17: failing sources and sinks are reported, never silently truncated.
#include "inputs.hpp"
#include "lib.hpp"

#include <cstdio>
#include <cwchar>
#include <sstream>
#include <sys/socket.h>
#include <unistd.h>
using namespace lib;

PROPERTY_INFO("C17", "a case is non-trivial if the text has at least three units and at least one fault struck before its end; cases are distinct by "
                     "text or value, options and kind of source or sink");

namespace
{
template <class V>
size_t walk(const V& v)
{
    size_t n = 1;
    if (v.is_array() || v.is_object())
        for (auto it = v.begin(); it != v.end(); ++it)
            n += walk(*it);
    return n;
}

// what is thrown, of all sorts
struct Broken
{
};
static int                g_thrown = 0;
static const char* const thrown_names[] = { "its own", "ios_base::failure", "runtime_error", "serialization error", "deserialization error", "int", "bad_alloc" };
[[noreturn]] void broken()
{
    switch (g_thrown)
    {
    case 1:
        throw std::ios_base::failure("broken");
    case 2:
        throw std::runtime_error("broken");
    case 3:
        throw configor::configor_serialization_error("broken");
    case 4:
        throw configor::configor_deserialization_error("broken");
    case 5:
        throw 5;
    case 6:
        throw std::bad_alloc();
    default:
        throw Broken();
    }
}

// ---------------------------------------------------------------- sinks

enum SinkMode
{
    Refuse,       // says no
    RefuseOnce,   // says no, then goes on
    Throw,        // throws
    ThrowOnce,    // throws, then goes on
    Modes
};
const char* const mode_names[] = { "refuses", "refuses once", "throws", "throws once" };

// accepts n units, then fails; buf: units collected before they are handed on; whole: takes blocks itself
template <class C>
class Sink : public std::basic_streambuf<C>
{
public:
    Sink(size_t n, SinkMode m, size_t buf, bool whole)
        : left_(n)
        , mode_(m)
        , area_(buf, C(0))
        , whole_(whole)
    {
        if (buf)
            this->setp(&area_[0], &area_[0] + buf);
    }
    std::basic_string<C> text() const
    {
        return taken_ + std::basic_string<C>(this->pbase(), this->pptr());
    }
    bool failed() const
    {
        return failed_;
    }

protected:
    using TR = std::char_traits<C>;
    bool take(C ch)
    {
        if (left_ == 0 && !(failed_ && (mode_ == RefuseOnce || mode_ == ThrowOnce)))
        {
            failed_ = true;
            if (mode_ == Throw || mode_ == ThrowOnce)
                broken();
            return false;
        }
        if (left_)
            --left_;
        taken_ += ch;
        return true;
    }
    typename TR::int_type overflow(typename TR::int_type ch) override
    {
        while (this->pbase() != this->pptr())
        {
            C first = *this->pbase();
            // what was handed on leaves the area
            if (!take(first))
                return TR::eof();
            std::basic_string<C> rest(this->pbase() + 1, this->pptr());
            this->setp(&area_[0], &area_[0] + area_.size());
            std::copy(rest.begin(), rest.end(), this->pptr());
            this->pbump(static_cast<int>(rest.size()));
        }
        if (TR::eq_int_type(ch, TR::eof()))
            return TR::not_eof(ch);
        if (!area_.empty())
        {
            *this->pptr() = TR::to_char_type(ch);
            this->pbump(1);
            return ch;
        }
        return take(TR::to_char_type(ch)) ? ch : TR::eof();
    }
    std::streamsize xsputn(const C* s, std::streamsize n) override
    {
        if (!whole_ || !area_.empty())
            return std::basic_streambuf<C>::xsputn(s, n);
        for (std::streamsize i = 0; i < n; ++i)
            if (!take(s[i]))
                return i;
        return n;
    }

private:
    size_t               left_;
    SinkMode             mode_;
    std::basic_string<C> area_;
    bool                 whole_;
    bool                 failed_ = false;
    std::basic_string<C> taken_;
};

template <class C>
struct OutAdapter : configor::basic_oadapter<C>
{
    OutAdapter(size_t n, bool once, bool blocks)
        : left(n)
        , once_(once)
        , blocks_(blocks)
    {
    }
    void write(const C ch) override
    {
        if (left == 0 && !(failed && once_))
        {
            failed = true;
            broken();
        }
        if (left)
            --left;
        text += ch;
    }
    void write(const C* p, std::size_t n) override
    {
        if (!blocks_)
            return configor::basic_oadapter<C>::write(p, n);
        for (size_t i = 0; i < n; ++i)
            this->write(p[i]);
    }
    size_t               left;
    bool                 once_, blocks_;
    bool                 failed = false;
    std::basic_string<C> text;
};

template <class C>
void judge(const std::basic_string<C>& whole, const std::basic_string<C>& got, bool failed, bool reported, const std::string& what)
{
    if (whole.compare(0, got.size(), got) != 0)
        fail(what + ": the sink holds " + printable(got) + "\n  which is not a prefix of " + printable(whole));
    if (failed && !reported)
        fail(what + ": no error, the sink holds " + printable(got) + "\n  instead of " + printable(whole));
    if (!failed && reported)
        fail(what + ": an error though nothing failed");
    if (!failed && got != whole)
        fail(what + ": nothing failed, but the sink holds " + printable(got) + "\n  instead of " + printable(whole));
}

// all positions of short texts, the ends and some others of long ones
std::vector<size_t> positions(Src& s, size_t len)
{
    std::vector<size_t> r;
    if (len <= 30)
        for (size_t i = 0; i <= len + 1; ++i)
            r.push_back(i);
    else
    {
        for (size_t i : { size_t(0), size_t(1), len - 2, len - 1, len, len + 1 })
            r.push_back(i);
        for (int i = 0; i < 20; ++i)
            r.push_back(static_cast<size_t>(s.draw(len)));
    }
    return r;
}

template <class J, class C>
void dumping(Src& s, Ctx& c)
{
    using V = typename J::value;
    TreeOpts to;
    to.budget = 10;
    to.big    = s.chance(1, 20);
    const M m = s.chance(1, 80) ? gen_long(s, 2100) : gen_tree(s, to);
    const V v = build<V>(m);
    DOpt    o = gen_dopt(s, m);
    if (o.indent > 8)
        o.indent = 3;
    const bool                 wrapped = s.chance(1, 3);
    const int                  way     = wrapped ? static_cast<int>(s.draw(4)) : 0;
    const std::basic_string<C> whole   = wrapped ? J::template dump<C>(v) : dump_with<J, C>(v, o);
    const bool                 adapter = s.chance(1, 4), blocks = s.flip();
    const SinkMode             mode    = static_cast<SinkMode>(s.draw(Modes));
    g_thrown                           = static_cast<int>(s.draw(7));
    const size_t               area    = adapter || s.flip() ? 0 : static_cast<size_t>(s.range(1, 9));
    const bool                 mask    = s.chance(1, 4);
    std::string                how = std::string(adapter ? "an adapter" : wrapped ? "wrapped insertion" : "dump") + " of " + (wrapped ? std::string("a ") + wrapped_names[way] + " " : std::string()) + show(m) + (wrapped ? "" : ", " + o.show()) +
                      fmt(" to a sink with a buffer of %zu that ", area) + mode_names[mode] + (mode == Throw || mode == ThrowOnce ? std::string(" (") + thrown_names[g_thrown] + ")" : std::string());
    c.note(how);
    bool struck = false;
    for (size_t k : positions(s, whole.size()))
    {
        bool                  reported = false, failed = false;
        std::basic_string<C>  got;
        auto                  put = [&](std::basic_ostream<C>& os) {
            if (mask)
                os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
            try
            {
                if (wrapped)
                    insert_wrapped<J>(os, v, way);
                else
                    dump_into<J, C>(os, v, o);
            }
            catch (const configor::configor_serialization_error&)
            {
                reported = true;
            }
            catch (const std::ios_base::failure&)
            {
                reported = true;
            }
            reported = reported || !os.good();
        };
        if (adapter)
        {
            OutAdapter<C>                     a(k, mode == RefuseOnce || mode == ThrowOnce, blocks);
            configor::basic_oadapterstream<C> os(a);
            put(os);
            got    = a.text;
            failed = a.failed;
        }
        else
        {
            Sink<C>               buf(k, mode, area, blocks);
            std::basic_ostream<C> os(&buf);
            put(os);
            got    = buf.text();
            failed = buf.failed();
        }
        judge(whole, got, failed, reported, how + fmt(" after %zu units", k));
        struck = struck || failed;
        c.inner();
    }
    std::string d = diff(m, extract(v), Tol(0));
    if (!d.empty())
        fail(how + ": the value changed: " + d);
    if (struck && whole.size() >= 3)
        c.nontrivial(hash(m, o.key() * 64 + static_cast<uint64_t>(mode) * 8 + adapter * 4u + wrapped * 2u + (area != 0)) + sizeof(C));
}

// ---------------------------------------------------------------- sources

enum SourceMode
{
    End,       // there is no more
    EndOnce,   // there seems to be no more, then there is
    Bad,       // throws
    BadOnce,   // throws, then goes on
    SModes
};
const char* const smode_names[] = { "ends", "ends for a moment", "throws", "throws once" };

template <class C>
class Source : public std::basic_streambuf<C>
{
public:
    Source(const std::basic_string<C>& t, size_t k, SourceMode m, size_t chunk)
        : t_(t)
        , k_(k)
        , mode_(m)
        , chunk_(chunk)
    {
    }

protected:
    using TR = std::char_traits<C>;
    typename TR::int_type underflow() override
    {
        if (this->gptr() < this->egptr())
            return TR::to_int_type(*this->gptr());
        if (p_ == k_ && !(struck_ && (mode_ == EndOnce || mode_ == BadOnce)))
        {
            struck_ = true;
            if (mode_ == Bad || mode_ == BadOnce)
                broken();
            return TR::eof();
        }
        if (p_ >= t_.size())
            return TR::eof();
        size_t n = std::min(chunk_, t_.size() - p_);
        if (p_ < k_)
            n = std::min(n, k_ - p_);
        C* b = &t_[p_];
        this->setg(b, b, b + n);
        p_ += n;
        return TR::to_int_type(*b);
    }

private:
    std::basic_string<C> t_;
    size_t               k_;
    SourceMode           mode_;
    size_t               chunk_;
    size_t               p_      = 0;
    bool                 struck_ = false;
};

template <class C>
struct InAdapter : configor::basic_iadapter<C>
{
    InAdapter(const std::basic_string<C>& t, size_t k, SourceMode m)
        : t_(t)
        , k_(k)
        , mode_(m)
    {
    }
    C read() override
    {
        if (p_ == k_ && !(struck_ && (mode_ == EndOnce || mode_ == BadOnce)))
        {
            struck_ = true;
            if (mode_ == Bad || mode_ == BadOnce)
                broken();
            return static_cast<C>(std::char_traits<C>::eof());
        }
        return p_ < t_.size() ? t_[p_++] : static_cast<C>(std::char_traits<C>::eof());
    }
    std::basic_string<C> t_;
    size_t               k_;
    SourceMode           mode_;
    size_t               p_      = 0;
    bool                 struck_ = false;
};

// a C stream whose device fails
struct Cookie
{
    Cookie(const std::string& text, size_t end, bool b)
        : t(text)
        , k(end)
        , bad(b)
    {
    }
    std::string t;
    size_t      k;
    bool        bad;
    size_t      p = 0;
    static ssize_t read(void* self, char* b, size_t n)
    {
        Cookie* x = static_cast<Cookie*>(self);
        if (x->p >= x->k)
        {
            if (!x->bad)
                return 0;
            errno = EIO;
            return -1;
        }
        n = std::min(n, std::min(x->k, x->t.size()) - x->p);
        std::copy(x->t.begin() + static_cast<std::ptrdiff_t>(x->p), x->t.begin() + static_cast<std::ptrdiff_t>(x->p + n), b);
        x->p += n;
        return static_cast<ssize_t>(n);
    }
};

// cookies have no wide functions; a socket whose other end went away with unread data breaks after what was sent
struct Device
{
    Device(const std::string& t, size_t k, bool bad, bool wide_io)
        : cookie_(t, k, bad)
    {
        if (!wide_io)
        {
            cookie_io_functions_t io = { &Cookie::read, nullptr, nullptr, nullptr };
            f                        = fopencookie(&cookie_, "rb", io);
        }
        else
        {
            int fd[2];
            if (::socketpair(AF_UNIX, SOCK_STREAM, 0, fd) != 0)
                fail("harness: no socket");
            bool ok = true;
            if (k)
                ok = ::write(fd[1], t.data(), k) == static_cast<ssize_t>(k);
            if (bad)
                ok = ::write(fd[0], "x", 1) == 1 && ok;
            ::close(fd[1]);
            f = ok ? fdopen(fd[0], "rb") : nullptr;
        }
        if (!f)
            fail("harness: no FILE");
    }
    ~Device()
    {
        if (f)
            std::fclose(f);
    }
    std::FILE* f = nullptr;

private:
    Cookie cookie_;
};

template <class C>
std::string narrow_text(const std::basic_string<C>& t)
{
    return std::string(t.begin(), t.end());
}

template <class J, class C>
void parsing(Src& s, Ctx& c)
{
    using V = typename J::value;
    std::string bytes;
    if (s.chance(3, 4))
    {
        TreeOpts to;
        to.budget = 8;
        to.big    = false;
        WriteOpts wo;
        wo.comments = s.flip();
        Writer w(s, wo);
        bytes = utf8(w.doc(s.chance(1, 80) ? gen_long(s, 2100) : gen_tree(s, to)));
    }
    else
        bytes = gen_input(s);
    std::basic_string<C> t;
    U                    u;
    if (from8(bytes, u))
        t = chars<C>::enc(u);
    else
        for (char x : bytes)
            t += static_cast<C>(static_cast<unsigned char>(x));
    const SourceMode mode = static_cast<SourceMode>(s.draw(SModes));
    g_thrown              = static_cast<int>(s.draw(7));
    int              kind = static_cast<int>(s.draw(4));
    const size_t     chunk = static_cast<size_t>(s.range(1, 9));
    bool             ascii_only = true, eof_unit = false;
    for (C x : t)
    {
        ascii_only = ascii_only && x >= C(0) && static_cast<uint32_t>(x) < 0x80;
        eof_unit   = eof_unit || static_cast<typename std::char_traits<C>::int_type>(x) == std::char_traits<C>::eof();
    }
    const bool object = kind == 1 && s.chance(1, 2);
    if (kind == 3 && sizeof(C) > 1 && !ascii_only)
        kind = 0;
    if (kind == 2 && eof_unit)
        kind = 1;
    static const char* const kinds[] = { "a stream", "wrapped extraction from a stream", "an adapter", "a C stream" };
    const std::string        how     = std::string(kinds[kind]) + (object ? " into an object" : "") + fmt(" in pieces of %zu that ", chunk) + smode_names[mode] + (mode == Bad || mode == BadOnce ? std::string(" (") + thrown_names[g_thrown] + ")" : std::string()) + ", text " + printable(t);
    c.note(how);
    const bool breaks = mode == Bad || mode == BadOnce;
    bool       struck = false;
    for (size_t k : positions(s, t.size()))
    {
        if (k > t.size())
            continue;
        const std::basic_string<C> part = t.substr(0, k);
        const Read                 ref  = reading([&] { return J::parse(part); });
        if (ref.ok)
        {
            // the part itself is not taken for a document if it is none
            U d;
            if (chars<C>::dec(part, d) && Reader::read(d).v == Reader::Reject)
                fail(how + fmt("\n  after %zu units: the part alone is no document, but is accepted as ", k) + show(ref.m));
        }
        V                          v    = build<V>(M::str(U"used"));
        Read                       r    = reading([&]() -> V {
            switch (kind)
            {
            case 0:
            {
                Source<C>             buf(t, k, mode, chunk);
                std::basic_istream<C> is(&buf);
                J::parse(v, is);
                return v;
            }
            case 1:
            {
                Source<C>             buf(t, k, mode, chunk);
                std::basic_istream<C> is(&buf);
                is >> std::noskipws;
                extract_wrapped<J>(is, v, object);
                return v;
            }
            case 2:
            {
                InAdapter<C>                      a(t, k, mode);
                configor::basic_iadapterstream<C> is(a);
                J::parse(v, is);
                return v;
            }
            default:
            {
                Device f(narrow_text(t), k, breaks, sizeof(C) > 1);
                if (chunk == 1)
                    std::setvbuf(f.f, nullptr, _IONBF, 0);
                J::template parse<C>(v, f.f);
                return v;
            }
            }
        });
        c.inner();
        const std::string at = how + fmt("\n  after %zu units", k);
        if (breaks)
        {
            // a document may be over before its end, at a NUL
            if (r.ok && part.find(C(0)) == part.npos)
                fail(at + ": the source broke, but the value read is " + show(r.m));
        }
        else if (r.ok != ref.ok || (r.ok && !diff(ref.m, r.m, Tol(0)).empty()))
            fail(at + ": " + (r.ok ? show(r.m) : "rejected with \"" + r.error + "\"") + "\n  but the part alone: " + (ref.ok ? show(ref.m) : "rejected with \"" + ref.error + "\""));
        struck = struck || k < t.size();
        walk(v);
        v = V(1);
        if (!(v == 1))
            fail(at + ": the target cannot be assigned to");
    }
    if (struck && t.size() >= 3)
        c.nontrivial(eng::hash_str(bytes, static_cast<uint64_t>(mode) * 8 + static_cast<uint64_t>(kind) * 2 + (chunk == 1)) + sizeof(C));
}
}  // namespace

PROP(sinks_narrow, 8000, 160000)
{
    s.chance(3, 4) ? dumping<json, char>(s, c) : dumping<wjson, char>(s, c);
}
PROP(sinks_wide, 6000, 120000)
{
    s.chance(3, 4) ? dumping<wjson, wchar_t>(s, c) : dumping<json, wchar_t>(s, c);
}
PROP(sources_narrow, 8000, 160000)
{
    s.chance(3, 4) ? parsing<json, char>(s, c) : parsing<wjson, char>(s, c);
}
PROP(sources_wide, 6000, 120000)
{
    s.chance(3, 4) ? parsing<wjson, wchar_t>(s, c) : parsing<json, wchar_t>(s, c);
}
