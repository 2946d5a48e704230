// C08: an encoding supplied by the user may read and write the streams in any way it likes.
#define ENGINE_NO_MAIN
#include "inputs.hpp"
#include "lib.hpp"

#include <cstdio>
#include <sstream>
#include <unistd.h>
using namespace lib;

namespace
{
// which stream operations the encoding uses next
struct Ops
{
    uint64_t x      = 1;
    bool     blocks = true;  // also for the first unit of a character
    unsigned next(unsigned n)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        return static_cast<unsigned>((x >> 33) % n);
    }
};
thread_local Ops* ops = nullptr;

// below U+007F a character is itself, any other one is U+007F and four digits
template <class C>
struct Blocks
{
    using TR = std::char_traits<C>;

    static bool one(std::basic_istream<C>& is, C& c)
    {
        switch (ops->next(ops->blocks ? 8 : 6))
        {
        case 0:
        {
            auto i = is.get();
            c      = TR::to_char_type(i);
            return !TR::eq_int_type(i, TR::eof());
        }
        case 1:
            return static_cast<bool>(is.get(c));
        case 2:
            if (TR::eq_int_type(is.peek(), TR::eof()))
                return false;
            is.peek();
            c = TR::to_char_type(is.get());
            return true;
        case 3:
        {
            auto i = is.rdbuf()->sbumpc();
            if (TR::eq_int_type(i, TR::eof()))
                return false;
            c = TR::to_char_type(i);
            return true;
        }
        case 4:
        {
            auto i = is.rdbuf()->sgetc();
            if (TR::eq_int_type(i, TR::eof()))
                return false;
            c = TR::to_char_type(i);
            is.rdbuf()->sbumpc();
            return true;
        }
        case 5:
            if (TR::eq_int_type(is.peek(), TR::eof()))
                return false;
            return many(is, &c, 1);
        case 6:
            return static_cast<bool>(is.read(&c, 1));
        default:
            return is.rdbuf()->sgetn(&c, 1) == 1;
        }
    }

    static bool many(std::basic_istream<C>& is, C* to, unsigned n)
    {
        while (n)
        {
            unsigned k = 1 + ops->next(n);
            if (ops->next(3) == 0)
                k = n;
            bool got;
            switch (ops->next(3))
            {
            case 0:
                got = static_cast<bool>(is.read(to, k));
                break;
            case 1:
                got = is.rdbuf()->sgetn(to, k) == static_cast<std::streamsize>(k);
                break;
            default:
                k   = 1;
                got = static_cast<bool>(is.get(*to));
            }
            if (!got)
                return false;
            to += k;
            n -= k;
        }
        return true;
    }

    static bool decode(std::basic_istream<C>& is, uint32_t& cp)
    {
        C c = C();
        if (!one(is, c))
        {
            is.clear(std::ios_base::eofbit);
            return false;
        }
        cp = static_cast<uint32_t>(static_cast<typename std::make_unsigned<C>::type>(c));
        if (cp < 0x7f)
            return true;
        C d[4] = {};
        if (cp != 0x7f || !many(is, d, 4))
        {
            is.clear(std::ios_base::failbit);
            return true;
        }
        cp = 0;
        for (C x : d)
        {
            if (x < C('0') || x > C('0' + 63))
            {
                is.setstate(std::ios_base::failbit);
                return true;
            }
            cp = cp << 6 | static_cast<uint32_t>(x - C('0'));
        }
        if (cp < 0x7f || !is_scalar(cp))
            is.setstate(std::ios_base::failbit);
        return true;
    }

    static void encode(std::basic_ostream<C>& os, uint32_t cp)
    {
        std::basic_string<C> t;
        if (cp < 0x7f)
            t += static_cast<C>(cp);
        else if (is_scalar(cp))
        {
            t += C(0x7f);
            for (int k = 18; k >= 0; k -= 6)
                t += static_cast<C>('0' + (cp >> k & 63));
        }
        else
        {
            os.setstate(std::ios_base::failbit);
            return;
        }
        for (size_t i = 0; i < t.size();)
        {
            unsigned k = 1 + ops->next(static_cast<unsigned>(t.size() - i));
            switch (ops->next(4))
            {
            case 0:
                os.write(&t[i], k);
                break;
            case 1:
                os.rdbuf()->sputn(&t[i], k);
                break;
            case 2:
                k = 1;
                os.rdbuf()->sputc(t[i]);
                break;
            default:
                k = 1;
                os.put(t[i]);
            }
            i += k;
        }
    }
};

U coded(const U& u)
{
    U r;
    for (uint32_t cp : u)
        if (cp < 0x7f)
            r.push_back(cp);
        else
        {
            r.push_back(0x7f);
            for (int k = 18; k >= 0; k -= 6)
                r.push_back('0' + (cp >> k & 63));
        }
    return r;
}
M coded(const M& m)
{
    M r = m;
    r.s = coded(m.s);
    for (auto& x : r.a)
        x = coded(x);
    r.o.clear();
    for (auto& x : m.o)
        r.o.emplace(coded(x.first), coded(x.second));
    return r;
}

struct TmpFile
{
    explicit TmpFile(const std::string& t)
        : f(std::tmpfile())
    {
        if (!f || ::write(fileno(f), t.data(), t.size()) != static_cast<ssize_t>(t.size()) || ::lseek(fileno(f), 0, SEEK_SET) != 0)
            fail("harness: no FILE");
    }
    ~TmpFile()
    {
        std::fclose(f);
    }
    std::FILE* f;
};

template <class C>
struct Units : public configor::basic_iadapter<C>
{
    explicit Units(const std::basic_string<C>& t)
        : t_(t)
    {
    }
    C read() override
    {
        return i_ < t_.size() ? t_[i_++] : static_cast<C>(std::char_traits<C>::eof());
    }
    std::basic_string<C> t_;
    size_t               i_ = 0;
};
template <class C>
struct Taken : public configor::basic_oadapter<C>
{
    void write(const C ch) override
    {
        t += ch;
    }
    std::basic_string<C> t;
};

std::string outcome(const Read& r)
{
    return r.ok ? show(r.m) : "rejected with \"" + r.error + "\"";
}

template <class C>
std::basic_string<C> units(const U& u)
{
    return std::basic_string<C>(u.begin(), u.end());
}

// J reads documents of characters C
template <class J, class C>
void read_case(Src& s, Ctx& c)
{
    using P = typename J::template parser_type<C>;
    U       u;
    if (s.flip())
    {
        WriteOpts wo;
        wo.comments = s.flip();
        Writer w(s, wo);
        u = w.doc(gen_tree(s));
    }
    else if (!from8(gen_input(s), u))
        throw eng::Discard();
    U           e   = coded(u);
    const bool  cut = s.chance(1, 10);
    if (cut)
    {
        // in the middle of a character
        std::vector<size_t> at;
        for (size_t i = 0; i < e.size(); ++i)
            if (e[i] == 0x7f)
                at.push_back(i);
        if (at.empty())
            throw eng::Discard();
        e.resize(at[s.draw(at.size())] + static_cast<size_t>(s.range(1, 4)));
        if (e.find(U::value_type(0)) != e.npos)
            throw eng::Discard();
    }
    const std::string bytes(e.begin(), e.end());
    const auto        t      = units<C>(e);
    const bool        inside = s.flip();  // the strings of the value are encoded so as well
    Ops               o;
    o.x = s.draw(1u << 30);
    ops = &o;
    c.note(printable(utf8(u)) + (cut ? " cut to " + printable(bytes) : "") + (inside ? ", strings too" : "") + fmt(" (operations %llu)", static_cast<unsigned long long>(o.x)));
    Read ref;
    if (!cut)
        ref = reading([&] { return J::parse(chars<typename J::value::char_type>::enc(u)); });
    if (ref.ok && inside)
        ref.m = coded(ref.m);
    auto eq = [&](const char* how, std::function<typename J::value()> f) {
        c.inner();
        Read r = reading(f);
        if (r.ok != ref.ok || (r.ok && !diff(ref.m, r.m, Tol(0)).empty()))
            fail(std::string(how) + " in a user-defined encoding: " + outcome(r) + "\n  but the same text in the default encoding: " + outcome(ref) + "\n  input: "
                 + printable(bytes));
    };
    const bool former = s.chance(1, 3);
    auto       opt    = [&] {
        const auto last = inside ? P::template with_encoding<Blocks>() : P::template with_source_encoding<Blocks>();
        // the last of several is what counts
        return !former ? last : typename P::option([=](P& p) {
            (inside ? P::template with_encoding<configor::encoding::ignore>() : P::template with_source_encoding<configor::encoding::ignore>())(p);
            last(p);
        });
    };
    eq("string", [&] { return J::parse(t, { opt() }); });
    if (t.find(C(0)) == t.npos)
        eq("C string", [&] { return J::parse(t.c_str(), { opt() }); });
    eq("istringstream", [&] {
        std::basic_istringstream<C> is(t);
        return J::parse(is, { opt() });
    });
    if (s.chance(1, 2) && (sizeof(C) == 1 || t.find(C(0)) == t.npos))
        eq("FILE", [&] {
            TmpFile f(bytes);
            return J::template parse<C>(f.f, { opt() });
        });
    o.blocks = false;  // an adapter has no end in block reads
    eq("adapter", [&] {
        Units<C>                          a(t);
        configor::basic_iadapterstream<C> is(a);
        return J::parse(is, { opt() });
    });
    ops = nullptr;
    c.label(cut ? "cut" : ref.ok ? "accepted" : "rejected");
    if (e.size() > u.size())
        c.label("with blocks");
    if (e.size() > 1)
        c.nontrivial(eng::hash_str(bytes) * 2 + inside);
}

template <class J, class T, class Target>
void put(Target& to, const typename J::value& v, const std::vector<typename J::template serializer_option<T>>& x)
{
    if (x.size() == 3)
        J::template dump<T>(to, v, { x[0], x[1], x[2] });
    else
        J::template dump<T>(to, v, { x[0], x[1], x[2], x[3] });
}

template <class J, class T>
void write_case(Src& s, Ctx& c)
{
    using V          = typename J::value;
    using Z          = typename J::template serializer_type<T>;
    const M    m     = s.chance(1, 4) ? gen_scalar(s) : gen_tree(s);
    const DOpt o     = gen_dopt(s, m);
    const auto which = s.draw(3);
    const V    v     = build<V>(which == 1 ? m : coded(m));
    Ops        x;
    x.x = s.draw(1u << 30);
    ops = &x;
    static const char* const names[] = { "source encoding", "target encoding", "both encodings" };
    c.note(std::string(names[which]) + " " + o.show() + fmt(" (operations %llu) ", static_cast<unsigned long long>(x.x)) + show(m));
    auto opts = options<J, T>(o);
    opts.push_back(which == 0   ? Z::template with_source_encoding<Blocks>()
                   : which == 1 ? Z::template with_target_encoding<Blocks>()
                                : Z::template with_encoding<Blocks>());
    if (s.chance(1, 3))
    {
        // the last of several is what counts
        const auto former = which == 0   ? Z::template with_source_encoding<configor::encoding::ignore>()
                            : which == 1 ? Z::template with_target_encoding<configor::encoding::ignore>()
                                         : Z::template with_encoding<configor::encoding::ignore>();
        const auto first  = opts[0];
        opts[0]           = [=](Z& z) {
            former(z);
            first(z);
        };
    }
    const auto plain = dump_with<J, T>(build<V>(m), o);
    U          u;
    REQUIRE(chars<T>::dec(plain, u));
    const auto want = which == 0 ? plain : units<T>(coded(u));
    auto eq = [&](const char* how, const std::basic_string<T>& g) {
        c.inner();
        if (g != want)
            fail(std::string(how) + " in a user-defined encoding: " + printable(g) + "\n  expected: " + printable(want));
    };
    {
        std::basic_string<T> g;
        put<J, T>(g, v, opts);
        eq("string", g);
    }
    {
        std::basic_ostringstream<T> os;
        put<J, T>(os, v, opts);
        eq("ostringstream", os.str());
        REQUIRE(os.good());
    }
    {
        Taken<T>                          a;
        configor::basic_oadapterstream<T> os(a);
        put<J, T>(os, v, opts);
        eq("adapter", a.t);
    }
    ops = nullptr;
    c.label(names[which]);
    c.nontrivial(eng::hash_str(show(m, 2000)) * 3 + which + o.key());
}
}  // namespace

PROP(encoding_read, 12000, 150000)
{
    unsigned w = static_cast<unsigned>(s.draw(4));
    static const char* const names[] = { "json from char", "wjson from wchar_t", "json from wchar_t", "wjson from char" };
    c.note(names[w]);
    c.label(names[w]);
    if (w == 0)
        read_case<json, char>(s, c);
    else if (w == 1)
        read_case<wjson, wchar_t>(s, c);
    else if (w == 2)
        read_case<json, wchar_t>(s, c);
    else
        read_case<wjson, char>(s, c);
}

PROP(encoding_write, 12000, 150000)
{
    unsigned w = static_cast<unsigned>(s.draw(4));
    static const char* const names[] = { "json to char", "wjson to wchar_t", "json to wchar_t", "wjson to char" };
    c.note(names[w]);
    c.label(names[w]);
    if (w == 0)
        write_case<json, char>(s, c);
    else if (w == 1)
        write_case<wjson, wchar_t>(s, c);
    else if (w == 2)
        write_case<json, wchar_t>(s, c);
    else
        write_case<wjson, char>(s, c);
}
