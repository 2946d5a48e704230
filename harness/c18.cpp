// C18: locale and stream state leak neither into the text nor out of the call.
#include "inputs.hpp"
#include "lib.hpp"

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iterator>
#include <locale>
#include <sstream>
#include <unistd.h>
using namespace lib;

PROPERTY_INFO("C18", "a case is non-trivial if a number or an array or object is involved and the locale or the flags differ from the default; cases "
                     "are distinct by value or text, locales, flags, width, fill and precision");

namespace
{
// ---------------------------------------------------------------- locales

template <class C>
struct Punct : std::numpunct<C>
{
    Punct(char point, char sep, const std::string& grouping)
        : point_(point)
        , sep_(sep)
        , grouping_(grouping)
    {
    }

protected:
    C do_decimal_point() const override
    {
        return static_cast<C>(point_);
    }
    C do_thousands_sep() const override
    {
        return static_cast<C>(sep_);
    }
    std::string do_grouping() const override
    {
        return grouping_;
    }
    std::basic_string<C> do_truename() const override
    {
        return std::basic_string<C>(3, C('y'));
    }
    std::basic_string<C> do_falsename() const override
    {
        return std::basic_string<C>(2, C('n'));
    }

private:
    char        point_, sep_;
    std::string grouping_;
};

// writes every number as #
template <class C>
struct NumPut : std::num_put<C>
{
protected:
    using It = typename std::num_put<C>::iter_type;
    static It hash(It i)
    {
        *i = C('#');
        return ++i;
    }
    It do_put(It i, std::ios_base&, C, bool) const override
    {
        return hash(i);
    }
    It do_put(It i, std::ios_base&, C, long) const override
    {
        return hash(i);
    }
    It do_put(It i, std::ios_base&, C, unsigned long) const override
    {
        return hash(i);
    }
    It do_put(It i, std::ios_base&, C, long long) const override
    {
        return hash(i);
    }
    It do_put(It i, std::ios_base&, C, unsigned long long) const override
    {
        return hash(i);
    }
    It do_put(It i, std::ios_base&, C, double) const override
    {
        return hash(i);
    }
    It do_put(It i, std::ios_base&, C, long double) const override
    {
        return hash(i);
    }
    It do_put(It i, std::ios_base&, C, const void*) const override
    {
        return hash(i);
    }
};

// reads every number as 7
template <class C>
struct NumGet : std::num_get<C>
{
protected:
    using It = typename std::num_get<C>::iter_type;
#define GET(T)                                                                                             \
    It do_get(It i, It e, std::ios_base&, std::ios_base::iostate&, T& x) const override                    \
    {                                                                                                      \
        x = static_cast<T>(7);                                                                             \
        return i == e ? i : ++i;                                                                           \
    }
    GET(bool)
    GET(long)
    GET(long long)
    GET(unsigned short)
    GET(unsigned int)
    GET(unsigned long)
    GET(unsigned long long)
    GET(float)
    GET(double)
    GET(long double)
#undef GET
};

struct Loc
{
    std::locale l = std::locale::classic();
    std::string shown = "classic";
    uint64_t    key   = 0;
};

Loc gen_locale(Src& s)
{
    Loc r;
    if (s.chance(1, 4))
        return r;
    if (s.chance(1, 6))
    {
        r.l     = std::locale("C.utf8");
        r.shown = "C.utf8";
        r.key   = 1;
    }
    static const char* const gs[] = { "\3", "\1", "\2\1", "", "\1\2\3" };
    size_t                   g    = static_cast<size_t>(s.draw(5));
    static const char        points[] = ",;:x.", seps[] = ".,' _0";
    char                     p    = points[s.draw(5)], t = seps[s.draw(6)];
    r.l = std::locale(r.l, new Punct<char>(p, t, gs[g]));
    r.l = std::locale(r.l, new Punct<wchar_t>(p, t, gs[g]));
    r.shown += fmt(" with point '%c', separator '%c', grouping %zu", p, t, g);
    r.key = r.key * 1000 + g * 100 + static_cast<uint64_t>(p) * 7 + static_cast<uint64_t>(t);
    if (s.chance(1, 4))
    {
        r.l = std::locale(r.l, new NumPut<char>);
        r.l = std::locale(r.l, new NumPut<wchar_t>);
        r.l = std::locale(r.l, new NumGet<char>);
        r.l = std::locale(r.l, new NumGet<wchar_t>);
        r.shown += " and other number facets";
        r.key ^= 0x5555555;
    }
    return r;
}

// the global locale of the process for the time of a case
struct Global
{
    explicit Global(const std::locale& l)
        : before_(std::locale::global(l))
    {
    }
    ~Global()
    {
        std::locale::global(before_);
    }
    std::locale before_;
};

// ---------------------------------------------------------------- stream state

using F = std::ios_base;
const F::fmtflags all_flags[] = { F::hex, F::oct, F::dec, F::showbase, F::showpos, F::showpoint, F::uppercase, F::left, F::right, F::internal, F::boolalpha, F::unitbuf, F::skipws, F::fixed, F::scientific };

struct Fmt
{
    F::fmtflags     flags;
    std::streamsize width, prec;
    uint32_t        fill;
    F::iostate      mask;
    std::string     show() const
    {
        return fmt("flags %x, width %ld, precision %ld, fill '%c', exceptions %x", static_cast<unsigned>(flags), static_cast<long>(width), static_cast<long>(prec), static_cast<char>(fill), static_cast<unsigned>(mask));
    }
    uint64_t key() const
    {
        return static_cast<uint64_t>(flags) * 1000003 + static_cast<uint64_t>(width) * 1009 + static_cast<uint64_t>(prec) * 31 + fill + static_cast<uint64_t>(mask) * 7919;
    }
};

Fmt gen_fmt(Src& s, bool floats)
{
    Fmt f;
    f.flags = F::fmtflags(0);
    for (auto x : all_flags)
        if (s.chance(1, 3))
            f.flags |= x;
    if (!floats)
        f.flags &= ~F::floatfield;
    static const std::streamsize wide[] = { 8, 16, 63, 64, 127, 128, 129, 200, 254, 255 };
    f.width = s.flip() ? 0 : s.chance(1, 8) ? s.pick(wide) : static_cast<std::streamsize>(s.range(1, 5));
    f.fill  = s.flip() ? ' ' : s.flip() ? '\t' : static_cast<uint32_t>("0*._-x#"[s.draw(7)]);
    f.prec  = static_cast<std::streamsize>(s.chance(1, 20) ? 18 + s.draw(43) : s.draw(18));
    f.mask  = s.chance(1, 4) ? F::badbit | F::failbit : F::goodbit;
    return f;
}
template <class C>
void apply(std::basic_ios<C>& io, const Fmt& f)
{
    io.flags(f.flags);
    io.width(f.width);
    io.precision(f.prec);
    io.fill(static_cast<C>(f.fill));
}

// all there is to a stream besides its content
template <class C>
struct Seen
{
    F::fmtflags     flags;
    std::streamsize width, prec;
    C               fill;
    std::locale     loc, bufloc;
    F::iostate      mask, state;
    const void*     tie;
    const void*     buf;
    explicit Seen(std::basic_ios<C>& io)
        : flags(io.flags())
        , width(io.width())
        , prec(io.precision())
        , fill(io.fill())
        , loc(io.getloc())
        , bufloc(io.rdbuf()->getloc())
        , mask(io.exceptions())
        , state(io.rdstate())
        , tie(io.tie())
        , buf(io.rdbuf())
    {
    }
    void expect(const Seen& now, const std::string& what, bool state_too = true) const
    {
        std::string d;
        if (flags != now.flags)
            d = fmt("flags %x became %x", static_cast<unsigned>(flags), static_cast<unsigned>(now.flags));
        else if (prec != now.prec)
            d = fmt("precision %ld became %ld", static_cast<long>(prec), static_cast<long>(now.prec));
        else if (fill != now.fill)
            d = "the fill changed";
        else if (!(loc == now.loc))
            d = "the locale changed";
        else if (!(bufloc == now.bufloc))
            d = "the locale of its buffer changed";
        else if (mask != now.mask)
            d = "the exception mask changed";
        else if (state_too && state != now.state)
            d = fmt("state %x became %x", static_cast<unsigned>(state), static_cast<unsigned>(now.state));
        else if (tie != now.tie || buf != now.buf)
            d = "the tie or buffer changed";
        if (!d.empty())
            fail(what + ": of the stream, " + d);
    }
};

// what the caller writes next is what he would have written anyway
template <class C>
std::basic_string<C> goes_on(const Fmt& f, const std::locale& l)
{
    std::basic_ostringstream<C> os;
    os.imbue(l);
    apply(os, f);
    os.width(0);
    os << 12345678 << C('|') << 1234.5678 << C('|') << true << C('|') << std::setw(9) << -5;
    return os.str();
}

bool interesting(const M& m)
{
    return m.k == M::Int || m.k == M::Flt || m.k == M::Arr || m.k == M::Obj;
}

template <class J, class C>
void dumping(Src& s, Ctx& c)
{
    using V = typename J::value;
    TreeOpts to;
    to.budget  = 9;
    to.big     = false;
    const M m  = s.chance(1, 80) ? gen_long(s, 1025) : gen_tree(s, to);
    const V v  = build<V>(m);
    Fmt     f  = gen_fmt(s, true);
    if (huge_float(m) && (f.flags & F::floatfield) == F::fixed)
        f.flags &= ~F::floatfield;
    const Loc   gl = gen_locale(s), sl = s.flip() ? gl : gen_locale(s);
    std::string how = "dump of " + show(m) + ", " + f.show() + ", global locale " + gl.shown + ", stream locale " + sl.shown;
    c.note(how);
    DOpt o;
    o.indent      = static_cast<unsigned>(f.width);
    o.ch          = static_cast<char>(f.fill);
    const auto ff = f.flags & F::floatfield;
    o.mode        = ff == F::fixed ? 1 : ff == F::scientific ? 2 : 3;
    o.prec        = static_cast<int>(f.prec);
    const DOpt own = gen_dopt(s, m);
    // in the classic locale, without any stream
    const std::basic_string<C> want = dump_with<J, C>(v, o), plain = J::template dump<C>(v), want_own = own.indent <= 8 ? dump_with<J, C>(v, own) : std::basic_string<C>();
    DOpt                       after_first = o;
    after_first.indent                     = 0;
    const std::basic_string<C> second = dump_with<J, C>(v, after_first), next = goes_on<C>(f, sl.l);
    {
        Global g(gl.l);
        auto   same = [&](const std::basic_string<C>& got, const std::basic_string<C>& w, const char* what) {
            c.inner();
            if (got != w)
                fail(how + "\n  " + what + ": " + printable(got) + "\n  expected " + printable(w));
        };
        same(J::template dump<C>(v), plain, "dump to a string");
        if (own.indent <= 8)
            same(dump_with<J, C>(v, own), want_own, "dump to a string with options");
        {
            std::basic_ostringstream<C> os;
            os.imbue(sl.l);
            os.exceptions(f.mask);
            apply(os, f);
            const Seen<C> before(os);
            const int way = static_cast<int>(s.draw(5));
            if (way == 4)
                J::template dump<C>(os, v);
            else
                insert_wrapped<J>(static_cast<std::basic_ostream<C>&>(os), v, way);
            same(os.str(), want, way == 4 ? "dump to a stream" : fmt("insertion of a wrapped %s", wrapped_names[way]).c_str());
            const Seen<C> now(os);
            before.expect(now, how);
            if (now.width != 0)
                fail(how + fmt(": the width is %ld afterwards", static_cast<long>(now.width)));
            os.str(std::basic_string<C>());
            insert_wrapped<J>(static_cast<std::basic_ostream<C>&>(os), v, static_cast<int>(s.draw(4)));
            same(os.str(), second, "second dump to the stream");
            os.str(std::basic_string<C>());
            os << 12345678 << C('|') << 1234.5678 << C('|') << true << C('|') << std::setw(9) << -5;
            same(os.str(), next, "what is written afterwards");
        }
        // options go before the state of the stream
        {
            std::basic_ostringstream<C> os;
            os.imbue(sl.l);
            apply(os, f);
            const Seen<C> before(os);
            if (own.indent <= 8 && own.mode)
            {
                dump_into<J, C>(static_cast<std::basic_ostream<C>&>(os), v, own);
                same(os.str(), want_own, "dump to a stream with options");
                before.expect(Seen<C>(os), how + " with options");
            }
        }
        // nothing goes to a stream that failed before, and it stays as it is
        {
            std::basic_ostringstream<C> os;
            os.imbue(sl.l);
            apply(os, f);
            os << J::wrap(v);
            const std::basic_string<C> kept = os.str();
            os.setstate(s.flip() ? F::failbit : F::badbit);
            const Seen<C> before(os);
            insert_wrapped<J>(static_cast<std::basic_ostream<C>&>(os), v, static_cast<int>(s.draw(4)));
            same(os.str(), kept, "insertion into a failed stream");
            before.expect(Seen<C>(os), how + " into a failed stream", false);
        }
        // and the value reads back under the same locale
        if (!has_kind(m, M::Flt) && (f.fill == ' ' || f.fill == '\t'))
        {
            std::string d = diff(m, extract(J::parse(want)), Tol(0));
            if (!d.empty())
                fail(how + ": reading it back: " + d);
        }
    }
    if (interesting(m) && (gl.key || sl.key || f.flags != (F::skipws | F::dec)))
        c.nontrivial(hash(m, gl.key * 31 + sl.key) + f.key() + sizeof(C));
}

template <class C>
struct Units : configor::basic_iadapter<C>
{
    using configor::basic_iadapter<C>::read;
    explicit Units(const std::basic_string<C>& t)
        : t_(t)
    {
    }
    C read() override
    {
        return i_ < t_.size() ? t_[i_++] : static_cast<C>(std::char_traits<C>::eof());
    }
    const std::basic_string<C>& t_;
    size_t                      i_ = 0;
};

template <class J, class C>
void parsing(Src& s, Ctx& c)
{
    using V = typename J::value;
    std::string bytes;
    if (s.chance(3, 4))
    {
        TreeOpts to;
        to.budget = 8;
        to.big    = false;
        WriteOpts wo;
        Writer    w(s, wo);
        bytes = utf8(w.doc(s.chance(1, 80) ? gen_long(s, 1025) : gen_tree(s, to)));
    }
    else
        bytes = gen_input(s);
    std::basic_string<C> t;
    U                    u;
    if (from8(bytes, u))
        t = chars<C>::enc(u);
    else
        for (char x : bytes)
            t += static_cast<C>(static_cast<unsigned char>(x));
    Fmt       f  = gen_fmt(s, true);
    const Loc gl = gen_locale(s), sl = s.flip() ? gl : gen_locale(s);
    std::string how = "parse of " + printable(t) + ", " + f.show() + ", global locale " + gl.shown + ", stream locale " + sl.shown;
    c.note(how);
    const Read ref = reading([&] { return J::parse(t); });
    const U    su  = ascii("x");
    {
        Global g(gl.l);
        auto   same = [&](const Read& r, const char* what) {
            c.inner();
            if (r.ok != ref.ok || (r.ok && !diff(ref.m, r.m, Tol(0)).empty()))
                fail(how + "\n  " + what + ": " + (r.ok ? show(r.m) : "rejected with \"" + r.error + "\"") + "\n  expected " + (ref.ok ? show(ref.m) : "rejected with \"" + ref.error + "\""));
        };
        same(reading([&] { return J::parse(t); }), "string");
        if (t.find(C(0)) == t.npos)
        {
            same(reading([&] { return J::parse(t.c_str()); }), "C string");
            if (t.find(static_cast<C>(std::char_traits<C>::eof())) == t.npos)
            {
                Units<C>                          a(t);
                configor::basic_iadapterstream<C> is(a);
                apply(is, f);
                same(reading([&] { return J::parse(static_cast<std::basic_istream<C>&>(is)); }), "adapter");
            }
            if (sizeof(C) == 1 && !t.empty())
            {
                struct File
                {
                    std::FILE* f;
                    ~File()
                    {
                        std::fclose(f);
                    }
                } file{ ::fmemopen(const_cast<C*>(t.data()), t.size(), "r") };
                same(reading([&] { return J::template parse<char>(file.f); }), "FILE");
            }
        }
        {
            std::basic_istringstream<C> is(t);
            is.imbue(sl.l);
            apply(is, f);
            is.exceptions(f.mask);
            const Seen<C> before(is);
            same(reading([&] { return J::parse(is); }), "stream");
            before.expect(Seen<C>(is), how);
            if (Seen<C>(is).width != f.width)
                fail(how + ": the width of the stream changed");
        }
        {
            std::basic_stringstream<C> is(t);
            is.imbue(sl.l);
            apply(is, f);
            is >> std::noskipws;
            std::basic_ostringstream<C> tied;
            if (s.flip())
                is.tie(&tied);
            const Seen<C> before(is);
            same(reading([&]() -> V {
                     V v;
                     extract_wrapped<J>(static_cast<std::basic_istream<C>&>(is), v, s.flip());
                     return v;
                 }),
                 "wrapped extraction");
            before.expect(Seen<C>(is), how + " by wrapped extraction", false);
        }
        // extraction from a failed stream reads nothing
        {
            std::basic_istringstream<C> is(t);
            is.imbue(sl.l);
            apply(is, f);
            is.setstate(F::failbit);
            const Seen<C> before(is);
            V             v(enc<V>(U"before"));
            extract_wrapped<J>(static_cast<std::basic_istream<C>&>(is), v, s.flip());
            before.expect(Seen<C>(is), how + " from a failed stream", false);
            is.clear();
            if (is.tellg() != typename std::basic_istringstream<C>::pos_type(0))
                fail(how + ": something was read from a failed stream");
            if (!(v == V(enc<V>(U"before"))))
                fail(how + ": extraction from a failed stream changed the value");
        }
    }
    if (t.size() > 1 && (gl.key || sl.key || f.flags != (F::skipws | F::dec)))
        c.nontrivial(eng::hash_str(bytes, gl.key * 31 + sl.key) + f.key() + sizeof(C));
}

// wide files, whose encoding belongs to the buffer
struct Scratch
{
    Scratch()
    {
        char t[] = "/tmp/verif-c18-XXXXXX";
        int  fd  = mkstemp(t);
        if (fd < 0)
            fail("harness: no scratch file");
        ::close(fd);
        path = t;
    }
    ~Scratch()
    {
        ::unlink(path.c_str());
    }
    std::string path;
};

void files(Src& s, Ctx& c)
{
    TreeOpts to;
    to.budget = 6;
    to.big    = false;
    M       m = gen_tree(s, to);
    const U k = gen_str(s, 6);
    {
        M o      = M::obj();
        o.o[k]   = m;
        o.o[U"\x1"] = M::str(k);
        m        = o;
    }
    const bool on_buffer = s.flip();
    const Loc  gl = gen_locale(s);
    c.note(show(m) + (on_buffer ? " through a file whose buffer has the encoding" : " through a file with the encoding") + ", global locale " + gl.shown);
    const wjson::value v    = build<wjson::value>(m);
    const std::wstring text = wjson::dump(v);
    U                  chars_;
    if (!fromwide(text, chars_))
        fail("harness: text");
    Scratch           scratch;
    const std::locale utf("C.utf8");
    Global            g(gl.l);
    {
        std::wofstream os(scratch.path);
        if (on_buffer)
            os.rdbuf()->pubimbue(utf);
        else
            os.imbue(utf);
        const Seen<wchar_t> before(os);
        os << wjson::wrap(v);
        before.expect(Seen<wchar_t>(os), "writing " + show(m) + " to a file");
        os << L"\n\x20AC";
        os.close();
        if (!os)
            fail("writing " + show(m) + " to a file failed");
    }
    {
        std::ifstream is(scratch.path);
        std::string   bytes((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
        if (bytes != utf8(chars_) + "\n\xE2\x82\xAC")
            fail("the file of " + show(m) + " holds " + printable(bytes));
        std::ofstream os(scratch.path);
        os << utf8(chars_);
    }
    {
        std::wifstream is(scratch.path);
        if (on_buffer)
            is.rdbuf()->pubimbue(utf);
        else
            is.imbue(utf);
        const Seen<wchar_t> before(is);
        wjson::value        r = wjson::parse(is);
        before.expect(Seen<wchar_t>(is), "reading " + show(m) + " from a file");
        if (!(r == wjson::parse(text)))
            fail("read from a file: " + show(extract(r)) + "\n  expected " + show(m));
    }
    c.inner(2);
    c.nontrivial(hash(m, on_buffer));
}
}  // namespace

PROP(dump_narrow, 20000, 400000)
{
    s.chance(3, 4) ? dumping<json, char>(s, c) : dumping<wjson, char>(s, c);
}
PROP(dump_wide, 12000, 240000)
{
    s.chance(3, 4) ? dumping<wjson, wchar_t>(s, c) : dumping<json, wchar_t>(s, c);
}
PROP(parse_narrow, 15000, 300000)
{
    s.chance(3, 4) ? parsing<json, char>(s, c) : parsing<wjson, char>(s, c);
}
PROP(parse_wide, 10000, 200000)
{
    s.chance(3, 4) ? parsing<wjson, wchar_t>(s, c) : parsing<json, wchar_t>(s, c);
}
PROP(files_wide, 2000, 40000)
{
    files(s, c);
}
