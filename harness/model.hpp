// The reference model: a JSON tree with decoded strings, generators for it, an independent strict
// reader (RFC 8259) that also classifies the documented extensions, and a randomised writer.
// Nothing here uses configor.
#pragma once
#include "engine.hpp"

#include <cfloat>
#include <limits>
#include <string>

namespace md
{
using eng::Ctx;
using eng::Src;
using U = std::u32string;

// ---------------------------------------------------------------- unicode, written from the standard

inline bool is_scalar(uint32_t c)
{
    return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF);
}

inline void put8(std::string& o, uint32_t c)
{
    if (c < 0x80)
        o += static_cast<char>(c);
    else if (c < 0x800)
    {
        o += static_cast<char>(0xC0 + c / 64);
        o += static_cast<char>(0x80 + c % 64);
    }
    else if (c < 0x10000)
    {
        o += static_cast<char>(0xE0 + c / 4096);
        o += static_cast<char>(0x80 + c / 64 % 64);
        o += static_cast<char>(0x80 + c % 64);
    }
    else
    {
        o += static_cast<char>(0xF0 + c / 262144);
        o += static_cast<char>(0x80 + c / 4096 % 64);
        o += static_cast<char>(0x80 + c / 64 % 64);
        o += static_cast<char>(0x80 + c % 64);
    }
}
inline std::string utf8(const U& s)
{
    std::string o;
    for (char32_t c : s)
        put8(o, c);
    return o;
}
inline std::u16string utf16(const U& s)
{
    std::u16string o;
    for (uint32_t c : s)
    {
        if (c < 0x10000)
            o += static_cast<char16_t>(c);
        else
        {
            o += static_cast<char16_t>(0xD800 + (c - 0x10000) / 1024);
            o += static_cast<char16_t>(0xDC00 + (c - 0x10000) % 1024);
        }
    }
    return o;
}
inline std::wstring wide(const U& s)
{
    std::wstring o;
    for (uint32_t c : s)
        o += static_cast<wchar_t>(c);
    return o;
}
// strict decoder, table 3-7 of the Unicode standard; false for ill-formed text
inline bool from8(const std::string& in, U& out)
{
    out.clear();
    size_t i = 0, n = in.size();
    auto   b = [&](size_t k) { return static_cast<unsigned char>(in[k]); };
    while (i < n)
    {
        unsigned c = b(i);
        if (c < 0x80)
        {
            out += static_cast<char32_t>(c);
            ++i;
            continue;
        }
        unsigned lo = 0x80, hi = 0xBF, len;
        if (c >= 0xC2 && c <= 0xDF)
            len = 2;
        else if (c >= 0xE0 && c <= 0xEF)
        {
            len = 3;
            if (c == 0xE0)
                lo = 0xA0;
            if (c == 0xED)
                hi = 0x9F;
        }
        else if (c >= 0xF0 && c <= 0xF4)
        {
            len = 4;
            if (c == 0xF0)
                lo = 0x90;
            if (c == 0xF4)
                hi = 0x8F;
        }
        else
            return false;
        if (i + len > n)
            return false;
        uint32_t cp = len == 2 ? c - 0xC0 : len == 3 ? c - 0xE0 : c - 0xF0;
        for (unsigned k = 1; k < len; ++k)
        {
            unsigned d = b(i + k);
            if (d < (k == 1 ? lo : 0x80u) || d > (k == 1 ? hi : 0xBFu))
                return false;
            cp = cp * 64 + (d - 0x80);
        }
        out += static_cast<char32_t>(cp);
        i += len;
    }
    return true;
}
inline bool from16(const std::u16string& in, U& out)
{
    out.clear();
    for (size_t i = 0; i < in.size(); ++i)
    {
        uint32_t c = in[i];
        if (c >= 0xD800 && c <= 0xDBFF)
        {
            if (i + 1 >= in.size() || in[i + 1] < 0xDC00 || in[i + 1] > 0xDFFF)
                return false;
            c = 0x10000 + (c - 0xD800) * 1024 + (in[i + 1] - 0xDC00u);
            ++i;
        }
        else if (c >= 0xDC00 && c <= 0xDFFF)
            return false;
        out += static_cast<char32_t>(c);
    }
    return true;
}
inline bool fromwide(const std::wstring& in, U& out)
{
    out.clear();
    for (wchar_t w : in)
    {
        if (!is_scalar(static_cast<uint32_t>(w)))
            return false;
        out += static_cast<char32_t>(w);
    }
    return true;
}
inline U ascii(const std::string& s)
{
    return U(s.begin(), s.end());
}
inline std::string show(const U& s)
{
    return eng::escape_bytes(utf8(s));
}

// ---------------------------------------------------------------- the model tree

struct M
{
    enum Kind
    {
        Null,
        Bool,
        Int,
        Flt,
        Str,
        Arr,
        Obj
    };
    Kind           k = Null;
    bool           b = false;
    int64_t        i = 0;
    double         f = 0;
    bool           loose = false;  // a float outside the accuracy domain: only its kind is specified
    U              s;
    std::vector<M> a;
    std::map<U, M> o;

    static M null()
    {
        return M();
    }
    static M boolean(bool v)
    {
        M m;
        m.k = Bool;
        m.b = v;
        return m;
    }
    static M integer(int64_t v)
    {
        M m;
        m.k = Int;
        m.i = v;
        return m;
    }
    static M flt(double v)
    {
        M m;
        m.k = Flt;
        m.f = v;
        return m;
    }
    static M str(const U& v)
    {
        M m;
        m.k = Str;
        m.s = v;
        return m;
    }
    static M arr()
    {
        M m;
        m.k = Arr;
        return m;
    }
    static M obj()
    {
        M m;
        m.k = Obj;
        return m;
    }
};

inline const char* kind_name(M::Kind k)
{
    static const char* const n[] = { "null", "boolean", "integer", "float", "string", "array", "object" };
    return n[k];
}

inline std::string show(const M& m, size_t limit = 400)
{
    std::string r;
    switch (m.k)
    {
    case M::Null:
        r = "null";
        break;
    case M::Bool:
        r = m.b ? "true" : "false";
        break;
    case M::Int:
        r = std::to_string(m.i);
        break;
    case M::Flt:
        r = eng::fmt("%.17g", m.f) + "f";
        break;
    case M::Str:
        r = "\"" + show(m.s) + "\"";
        break;
    case M::Arr:
        r = "[";
        for (size_t i = 0; i < m.a.size() && r.size() < limit; ++i)
            r += (i ? "," : "") + show(m.a[i], limit);
        r += "]";
        break;
    case M::Obj:
        r = "{";
        for (auto it = m.o.begin(); it != m.o.end() && r.size() < limit; ++it)
            r += (it != m.o.begin() ? "," : "") + ("\"" + show(it->first) + "\":") + show(it->second, limit);
        r += "}";
        break;
    }
    if (r.size() > limit)
        r = r.substr(0, limit) + "...";
    return r;
}

inline uint64_t hash(const M& m, uint64_t h = 7)
{
    h = eng::hash_bytes(&m.k, sizeof m.k, h);
    switch (m.k)
    {
    case M::Bool:
        return eng::hash_bytes(&m.b, 1, h);
    case M::Int:
        return eng::hash_bytes(&m.i, 8, h);
    case M::Flt:
        return eng::hash_bytes(&m.f, 8, h);
    case M::Str:
        return eng::hash_bytes(m.s.data(), m.s.size() * 4, h);
    case M::Arr:
        for (auto& x : m.a)
            h = hash(x, h * 31);
        return h * 5 + 1;
    case M::Obj:
        for (auto& x : m.o)
            h = hash(x.second, eng::hash_bytes(x.first.data(), x.first.size() * 4, h * 31));
        return h * 7 + 3;
    default:
        return h;
    }
}

inline size_t nodes(const M& m)
{
    size_t n = 1;
    for (auto& x : m.a)
        n += nodes(x);
    for (auto& x : m.o)
        n += nodes(x.second);
    return n;
}

inline bool has_kind(const M& m, M::Kind k)
{
    if (m.k == k)
        return true;
    for (auto& x : m.a)
        if (has_kind(x, k))
            return true;
    for (auto& x : m.o)
        if (has_kind(x.second, k))
            return true;
    return false;
}

// which difference between a wanted and a got float is allowed
struct Tol
{
    double rel;
    double abs;
    Tol(double r = 1e-12, double a = 0)
        : rel(r), abs(a)
    {
    }
};

inline bool flt_close(double want, double got, const Tol& t)
{
    if (want == got)
        return true;
    if (!(std::isfinite(got)))
        return false;
    return std::fabs(want - got) <= t.rel * std::fabs(want) + t.abs;
}

// "" if equal, else the first difference with its path
inline std::string diff(const M& want, const M& got, const Tol& t = Tol(), const std::string& path = "$")
{
    if (want.k != got.k)
        return path + ": expected " + kind_name(want.k) + " " + show(want, 80) + ", got " + kind_name(got.k) + " " + show(got, 80);
    switch (want.k)
    {
    case M::Null:
        return "";
    case M::Bool:
        return want.b == got.b ? "" : path + ": expected " + show(want) + ", got " + show(got);
    case M::Int:
        return want.i == got.i ? "" : path + ": expected " + show(want) + ", got " + show(got);
    case M::Flt:
        if (want.loose || flt_close(want.f, got.f, t))
            return "";
        return path + ": expected " + show(want) + ", got " + show(got);
    case M::Str:
        return want.s == got.s ? "" : path + ": expected " + show(want, 200) + ", got " + show(got, 200);
    case M::Arr:
        if (want.a.size() != got.a.size())
            return path + eng::fmt(": expected %zu elements, got %zu", want.a.size(), got.a.size());
        for (size_t i = 0; i < want.a.size(); ++i)
        {
            std::string d = diff(want.a[i], got.a[i], t, path + eng::fmt("[%zu]", i));
            if (!d.empty())
                return d;
        }
        return "";
    case M::Obj:
        for (auto& x : want.o)
        {
            auto it = got.o.find(x.first);
            if (it == got.o.end())
                return path + ": member \"" + show(x.first) + "\" is missing";
            std::string d = diff(x.second, it->second, t, path + "." + show(x.first));
            if (!d.empty())
                return d;
        }
        for (auto& x : got.o)
            if (!want.o.count(x.first))
                return path + ": unexpected member \"" + show(x.first) + "\"";
        return "";
    }
    return "";
}

// ---------------------------------------------------------------- generators

inline uint32_t gen_cp(Src& s)
{
    static const uint32_t specials[]   = { '"', '\\', '/', '\b', '\f', '\n', '\r', '\t' };
    // limits of the encodings, and characters whose low byte looks like a digit, a quote, a slash...
    static const uint32_t boundaries[] = { 0x7F,   0x80,   0xFF,   0x100,  0x7FF,   0x800,    0xFFF,   0x1000, 0xD7FF,  0xE000,
                                           0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF,  0x10000,  0x10001, 0xFFFFF, 0x100000, 0x10FFFF,
                                           0x10FFFE, 0x2028, 0x2029, 0x122,  0x130,  0x12F,   0x15C,   0x17B,  0x20AC,  0x4E2D,
                                           0x6587, 0x1F600, 0x222,  0x10022, 0x1005C, 0x3000,  0xA0,    0x85,   0xC0,    0x1F1E6 };
    switch (s.weighted({ 30, 10, 5, 10, 14, 14, 10 }))
    {
    case 0:
        return static_cast<uint32_t>('a' + s.draw(26));
    case 1:
        return s.pick(specials);
    case 2:
        return static_cast<uint32_t>(s.draw(0x20));
    case 3:
        return static_cast<uint32_t>(0x20 + s.draw(0x5F));
    case 4:
        return s.pick(boundaries);
    case 5:
    {
        uint32_t c = static_cast<uint32_t>(0x80 + s.draw(0xFFFF - 0x80 - 0x800 + 1));
        return c >= 0xD800 ? c + 0x800 : c;
    }
    default:
        return static_cast<uint32_t>(0x10000 + s.draw(0x100000));
    }
}

inline U gen_str(Src& s, size_t max = 12)
{
    static const unsigned lens[] = { 7, 8, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097 };
    U r;
    if (s.chance(1, 24))
    {
        size_t   n = s.pick(lens);
        uint32_t c = gen_cp(s);
        r.assign(n, static_cast<char32_t>(c));
        for (int k = 0; k < 3; ++k)
            r[static_cast<size_t>(s.draw(n))] = static_cast<char32_t>(gen_cp(s));
        return r;
    }
    while (s.more(r.size(), max, 5))
        r += static_cast<char32_t>(gen_cp(s));
    return r;
}

inline U gen_key(Src& s)
{
    static const char* const keys[] = { "a", "b", "", "ab", "aa", "k", "key", "a b", "0", "1", "-", "\"", "\\", "A", "null", "a\nb", "name" };
    if (s.chance(1, 3))
        return gen_str(s, 6);
    return ascii(s.pick(keys));
}

inline int64_t gen_int(Src& s)
{
    static const int64_t b[] = { 0, 1, -1, 9, 10, -10, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536,
                                 INT32_MAX, INT32_MIN, 4294967295LL, 4294967296LL, -4294967296LL, 9007199254740991LL, 9007199254740992LL, 9007199254740993LL,
                                 -9007199254740993LL, 999999999999999999LL, 1000000000000000000LL, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1,
                                 922337203685477580LL, 922337203685477581LL, -922337203685477580LL, 9223372036854775800LL, -9223372036854775800LL };
    switch (s.weighted({ 4, 4, 3 }))
    {
    case 0:
        return s.range(0, 400) - 200;
    case 1:
        return s.pick(b);
    default:
    {
        unsigned w = static_cast<unsigned>(s.draw(64)) + 1;
        uint64_t v = s.draw(0);
        if (w < 64)
            v &= (1ull << w) - 1;
        return static_cast<int64_t>(s.flip() ? 0 - v : v);
    }
    }
}

// finite, zero or 1e-290 <= |f| <= 1e300
inline double gen_flt(Src& s)
{
    static const double b[] = { 0.0, 1.0, -1.0, 0.5, 0.1, -0.0, 3.14, 1e-5, 1e-4, 0.0001234, 999999.5, 999999.4, 9999995.0, 123456.7, 99999.95, 1234567.8,
                                -123456.5, 0.99999999, 1e15, 123456789.125, 1e17, 1e18, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0,
                                -9223372036854777856.0, 1e19, 18446744073709551616.0, 1e20, 1e22, 1e23, 1e100, 1e300, -1e300, 1e-290, 2.5e-7, 4294967296.0, 4294967295.5,
                                2147483648.0, 9007199254740993.0, 1e-10, 1.7976931348623157e290, 100.25, 1e6, 1e7, 12345.678 };
    switch (s.weighted({ 4, 4, 3, 2 }))
    {
    case 0:
    {
        double v = static_cast<double>(s.range(0, 4000000) - 2000000);
        static const double d[] = { 10, 100, 1000, 8, 3, 1e5, 1e9, 1 };
        return v / s.pick(d);
    }
    case 1:
        return s.pick(b);
    case 2:
    {
        // any mantissa, exponent within the domain
        uint64_t m = s.draw(1ull << 52);
        int      e = static_cast<int>(s.range(-960, 990));
        double   v = std::ldexp(1.0 + static_cast<double>(m) / 4503599627370496.0, e);
        return s.flip() ? -v : v;
    }
    default:
        return static_cast<double>(gen_int(s));
    }
}

struct TreeOpts
{
    unsigned depth  = 4;
    size_t   budget = 40;
    bool     floats = true;
    bool     big    = true;  // sometimes deep chains, wide arrays
};

inline M gen_scalar(Src& s, bool floats = true)
{
    switch (s.weighted({ 2, 2, 4, floats ? 3u : 0u, 5 }))
    {
    case 0:
        return M::null();
    case 1:
        return M::boolean(s.flip());
    case 2:
        return M::integer(gen_int(s));
    case 3:
        return M::flt(gen_flt(s));
    default:
        return M::str(gen_str(s));
    }
}

inline M gen_node(Src& s, const TreeOpts& o, unsigned depth, size_t& budget)
{
    if (budget)
        --budget;
    if (depth == 0 || budget == 0 || !s.chance(1, 2))
        return gen_scalar(s, o.floats);
    if (s.flip())
    {
        M m = M::obj();
        while (budget && s.more(m.o.size(), 8, 4))
        {
            U k    = gen_key(s);
            m.o[k] = gen_node(s, o, depth - 1, budget);
        }
        return m;
    }
    M m = M::arr();
    while (budget && s.more(m.a.size(), 10, 5))
        m.a.push_back(gen_node(s, o, depth - 1, budget));
    return m;
}

inline M gen_tree(Src& s, const TreeOpts& o = TreeOpts())
{
    if (o.big && s.chance(1, 40))
    {
        static const unsigned wide_n[] = { 100, 255, 256, 257, 1000, 1024 };
        static const unsigned deep_n[] = { 33, 64, 127, 128, 129, 200, 255, 256, 257, 300 };
        if (s.flip())
        {
            // a chain
            unsigned n = s.pick(deep_n);
            M        m = gen_scalar(s, o.floats);
            unsigned p = static_cast<unsigned>(s.draw(4));
            for (unsigned i = 0; i < n; ++i)
            {
                bool arr = p == 0 || (p > 1 && (i % p) == 0);
                M    w   = arr ? M::arr() : M::obj();
                if (arr)
                    w.a.push_back(std::move(m));
                else
                    w.o[ascii("k")] = std::move(m);
                m = std::move(w);
            }
            return m;
        }
        unsigned n    = s.pick(wide_n);
        bool     arr  = s.flip();
        M        m    = arr ? M::arr() : M::obj();
        M        e[3] = { gen_scalar(s, o.floats), gen_scalar(s, o.floats), M::arr() };
        for (unsigned i = 0; i < n; ++i)
            if (arr)
                m.a.push_back(e[i % 3]);
            else
                m.o[ascii(std::to_string(i * 7))] = e[i % 3];
        return m;
    }
    size_t budget = o.budget;
    return gen_node(s, o, o.depth, budget);
}

// large values: many elements, many members, long strings and names; sizes around powers of two
inline M gen_long(Src& s, size_t most = 70000, bool floats = true)
{
    static const unsigned ns[] = { 129, 257, 513, 1000, 1025, 2049, 4097, 8193, 10000, 16385, 32768, 32769, 65535, 65536, 65537, 70000 };
    size_t                n    = s.flip() ? s.pick(ns) : ns[s.draw(8)];
    if (n > most)
        n = most - static_cast<size_t>(s.draw(3));
    auto text = [&](size_t len) {
        U r(len, static_cast<char32_t>(gen_cp(s)));
        for (int k = 0; k < 3; ++k)
            r[k ? static_cast<size_t>(s.draw(len)) : len - 1] = static_cast<char32_t>(gen_cp(s));
        return r;
    };
    M              m;
    const unsigned what = static_cast<unsigned>(s.draw(5));
    if (what < 2)
    {
        m            = what ? M::arr() : M::obj();
        const M e[3] = { gen_scalar(s, floats), M::integer(gen_int(s)), s.flip() ? M::arr() : gen_scalar(s, floats) };
        for (size_t i = 0; i < n; ++i)
            if (what)
                m.a.push_back(e[i % 3].k == M::Str && e[i % 3].s.size() > 64 ? e[1] : e[i % 3]);
            else
                m.o[ascii(std::to_string(i * 7))] = e[i % 3].k == M::Str && e[i % 3].s.size() > 64 ? e[1] : e[i % 3];
    }
    else if (what == 2)
        m = M::str(text(n));
    else if (what == 3)
    {
        m            = M::obj();
        m.o[text(n)] = gen_scalar(s, floats);
        m.o[gen_key(s)] = gen_scalar(s, floats);
    }
    else
    {
        // a few long texts
        m = M::arr();
        for (size_t k = 1 + static_cast<size_t>(s.draw(5)); k; --k)
            m.a.push_back(M::str(text(1 + n / k)));
    }
    if (s.chance(1, 3))
    {
        // within others
        M w = s.flip() ? M::arr() : M::obj();
        if (w.k == M::Arr)
        {
            w.a.push_back(gen_scalar(s, floats));
            w.a.push_back(std::move(m));
            w.a.push_back(gen_scalar(s, floats));
        }
        else
        {
            w.o[ascii("a")] = gen_scalar(s, floats);
            w.o[ascii("b")] = std::move(m);
            w.o[ascii("c")] = gen_scalar(s, floats);
        }
        return w;
    }
    return m;
}

// ---------------------------------------------------------------- reference reader

// Reads a document from decoded text.  Accept/Reject follow RFC 8259 plus the documented comments;
// DontCare is what the library's documentation and tests leave open or treat in its own way:
//  * a '+' before a number, an exponent directly after a 0 integer part ("0e1") and an unsigned
//    exponent that starts with 0 ("1e05"): the library's own tests demand some of the rejections
//  * trailing commas (accepted by the library)
//  * NUL outside strings (taken as the end of the input), U+FEFF at the start, nesting > 500
class Reader
{
public:
    enum Verdict
    {
        Accept,
        Reject,
        DontCare
    };
    struct Result
    {
        Verdict     v = Reject;
        M           m;
        bool        dup = false, bigint = false, comment = false;
        std::string why;
    };

    static Result read(const U& t, bool strict = false)
    {
        Reader r(t, strict);
        Result out;
        bool   ok = false;
        try
        {
            r.ws();
            out.m = r.value(0);
            r.ws();
            if (r.p_ < t.size())
                r.reject("text after the document");
            ok = true;
        }
        catch (const Stop&)
        {
        }
        out.dup     = r.dup_;
        out.bigint  = r.bigint_;
        out.comment = r.comment_;
        out.why     = r.why_;
        // an error that no reading of the open points would accept stays an error
        out.v = r.dc_ ? DontCare : !ok ? Reject : r.soft_ ? DontCare : Accept;
        if (strict && (r.dc_ || r.soft_))
            out.v = Reject;
        return out;
    }

private:
    struct Stop
    {
    };
    Reader(const U& t, bool strict)
        : t_(t), strict_(strict)
    {
    }
    [[noreturn]] void reject(const char* w)
    {
        why_ = eng::fmt("%s at %zu", w, p_);
        throw Stop();
    }
    void dontcare(const char* w)
    {
        dc_  = true;
        why_ = w;
    }
    // either a lenience or an error right here; the rest of the text is judged as usual
    void soft(const char* w)
    {
        soft_ = true;
        why_  = w;
    }
    uint32_t cur() const
    {
        return p_ < t_.size() ? static_cast<uint32_t>(t_[p_]) : 0x110000u;
    }
    static bool digit(uint32_t c)
    {
        return c >= '0' && c <= '9';
    }
    void ws()
    {
        for (;;)
        {
            uint32_t c = cur();
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
            {
                ++p_;
                continue;
            }
            if (c == '/' && !strict_)
            {
                comment_   = true;
                uint32_t d = p_ + 1 < t_.size() ? static_cast<uint32_t>(t_[p_ + 1]) : 0x110000u;
                if (d == '/')
                {
                    p_ += 2;
                    while (cur() != '\n' && cur() != '\r' && p_ < t_.size())
                    {
                        if (cur() == 0)
                            dontcare("NUL");
                        ++p_;
                    }
                    continue;
                }
                if (d == '*')
                {
                    p_ += 2;
                    for (;;)
                    {
                        if (p_ >= t_.size())
                            reject("unterminated comment");
                        if (cur() == 0)
                            dontcare("NUL");
                        if (cur() == '*' && p_ + 1 < t_.size() && t_[p_ + 1] == '/')
                            break;
                        ++p_;
                    }
                    p_ += 2;
                    continue;
                }
                reject("lone slash");
            }
            if (c == 0)
                dontcare("NUL");
            if (c == 0xFEFF && p_ == 0)
                dontcare("BOM");
            return;
        }
    }
    void literal(const char* w)
    {
        for (; *w; ++w, ++p_)
            if (cur() != static_cast<uint32_t>(*w))
                reject("bad literal");
    }
    unsigned hex4()
    {
        unsigned v = 0;
        for (int k = 0; k < 4; ++k, ++p_)
        {
            uint32_t c = cur();
            unsigned d;
            if (digit(c))
                d = c - '0';
            else if (c >= 'a' && c <= 'f')
                d = c - 'a' + 10;
            else if (c >= 'A' && c <= 'F')
                d = c - 'A' + 10;
            else
                reject("bad hex digit");
            v = v * 16 + d;
        }
        return v;
    }
    U string()
    {
        U r;
        ++p_;
        for (;;)
        {
            if (p_ >= t_.size())
                reject("unterminated string");
            uint32_t c = cur();
            if (c < 0x20)
                reject("control character in a string");
            ++p_;
            if (c == '"')
                return r;
            if (c != '\\')
            {
                r += static_cast<char32_t>(c);
                continue;
            }
            c = cur();
            ++p_;
            switch (c)
            {
            case '"':
            case '\\':
            case '/':
                r += static_cast<char32_t>(c);
                break;
            case 'b':
                r += U'\b';
                break;
            case 'f':
                r += U'\f';
                break;
            case 'n':
                r += U'\n';
                break;
            case 'r':
                r += U'\r';
                break;
            case 't':
                r += U'\t';
                break;
            case 'u':
            {
                unsigned v = hex4();
                if (v >= 0xDC00 && v <= 0xDFFF)
                    reject("lone trail surrogate");
                if (v >= 0xD800 && v <= 0xDBFF)
                {
                    if (cur() != '\\' || p_ + 1 >= t_.size() || t_[p_ + 1] != 'u')
                        reject("lone lead surrogate");
                    p_ += 2;
                    unsigned w = hex4();
                    if (w < 0xDC00 || w > 0xDFFF)
                        reject("lone lead surrogate");
                    v = 0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00);
                }
                r += static_cast<char32_t>(v);
                break;
            }
            default:
                reject("bad escape");
            }
        }
    }
    M number()
    {
        std::string txt;
        bool        neg = false;
        if (cur() == '+')
        {
            soft("leading plus");
            ++p_;
        }
        else if (cur() == '-')
        {
            neg = true;
            txt += '-';
            ++p_;
        }
        if (!digit(cur()))
            reject("sign without digits");
        size_t      start = txt.size();
        bool        isint = true;
        if (cur() == '0')
        {
            txt += '0';
            ++p_;
            if (digit(cur()))
                reject("leading zero");
            if (cur() == 'e' || cur() == 'E')
                soft("0e");
        }
        else
            while (digit(cur()))
            {
                txt += static_cast<char>(cur());
                ++p_;
            }
        if (cur() == '.')
        {
            isint = false;
            txt += '.';
            ++p_;
            if (!digit(cur()))
                reject("no digit after the point");
            while (digit(cur()))
            {
                txt += static_cast<char>(cur());
                ++p_;
            }
        }
        std::string mant = txt.substr(start);
        long        ex   = 0;
        if (cur() == 'e' || cur() == 'E')
        {
            isint = false;
            txt += 'e';
            ++p_;
            bool eneg = false, sign = false;
            if (cur() == '+' || cur() == '-')
            {
                sign = true;
                eneg = cur() == '-';
                txt += static_cast<char>(cur());
                ++p_;
            }
            if (!digit(cur()))
                reject("no digit in the exponent");
            if (!sign && cur() == '0')
                soft("exponent starts with 0");
            while (digit(cur()))
            {
                if (ex < 1000000000)
                    ex = ex * 10 + static_cast<long>(cur() - '0');
                txt += static_cast<char>(cur());
                ++p_;
            }
            if (eneg)
                ex = -ex;
        }
        if (isint)
        {
            // fits?
            size_t d = txt.size() - start;
            bool   fits = d <= 18;
            if (d == 19)
                fits = mant <= (neg ? "9223372036854775808" : "9223372036854775807");
            if (fits)
            {
                uint64_t v = 0;
                for (char ch : mant)
                    v = v * 10 + static_cast<uint64_t>(ch - '0');
                return M::integer(static_cast<int64_t>(neg ? 0 - v : v));
            }
            bigint_ = true;
        }
        M      m  = M::flt(std::strtod(txt.c_str(), nullptr));
        double mv = std::strtod(mant.c_str(), nullptr);
        if (mv == 0)
            m.f = 0;
        if (mv != 0 && !(mv >= 1e-250 && mv <= 1e280 && ex >= -280 && ex <= 280 && std::fabs(m.f) >= 1e-290 && std::fabs(m.f) <= 1e290))
            m.loose = true;
        return m;
    }
    M value(unsigned depth)
    {
        if (depth > 500)
        {
            dontcare("depth");
            reject("depth");
        }
        uint32_t c = cur();
        switch (c)
        {
        case '{':
        {
            M m = M::obj();
            ++p_;
            ws();
            if (cur() == '}')
            {
                ++p_;
                return m;
            }
            for (;;)
            {
                if (cur() != '"')
                    reject("member name expected");
                U k = string();
                ws();
                if (cur() != ':')
                    reject("colon expected");
                ++p_;
                ws();
                M v = value(depth + 1);
                if (m.o.count(k))
                    dup_ = true;
                else
                    m.o[k] = std::move(v);
                ws();
                if (cur() == ',')
                {
                    ++p_;
                    ws();
                    if (cur() == '}')
                    {
                        soft("trailing comma");
                        ++p_;
                        return m;
                    }
                    continue;
                }
                if (cur() == '}')
                {
                    ++p_;
                    return m;
                }
                reject("comma or brace expected");
            }
        }
        case '[':
        {
            M m = M::arr();
            ++p_;
            ws();
            if (cur() == ']')
            {
                ++p_;
                return m;
            }
            for (;;)
            {
                m.a.push_back(value(depth + 1));
                ws();
                if (cur() == ',')
                {
                    ++p_;
                    ws();
                    if (cur() == ']')
                    {
                        soft("trailing comma");
                        ++p_;
                        return m;
                    }
                    continue;
                }
                if (cur() == ']')
                {
                    ++p_;
                    return m;
                }
                reject("comma or bracket expected");
            }
        }
        case '"':
            return M::str(string());
        case 't':
            literal("true");
            return M::boolean(true);
        case 'f':
            literal("false");
            return M::boolean(false);
        case 'n':
            literal("null");
            return M::null();
        default:
            if (c == '-' || c == '+' || digit(c))
                return number();
            reject("value expected");
        }
    }

    const U&    t_;
    bool        strict_;
    size_t      p_  = 0;
    bool        dc_ = false, soft_ = false, dup_ = false, bigint_ = false, comment_ = false;
    std::string why_;
};

// ---------------------------------------------------------------- randomised writer

struct WriteOpts
{
    bool comments = false;  // the documented extension
    bool floats   = true;
};

class Writer
{
public:
    Writer(Src& s, const WriteOpts& o)
        : s_(s), o_(o)
    {
        // per document habits, so that simple documents exist too
        ws_  = s.draw(3) == 2;
        esc_ = static_cast<unsigned>(s.draw(4));
        com_ = o.comments && s.flip();
    }
    U doc(const M& m)
    {
        out_.clear();
        ws();
        val(m);
        ws(true);
        return out_;
    }
    unsigned comments() const
    {
        return ncom_;
    }

private:
    void add(const std::string& t)
    {
        out_.append(t.begin(), t.end());
    }
    void ws(bool last = false)
    {
        if (!ws_ && !com_)
            return;
        static const char sp[] = { ' ', '\n', '\t', '\r' };
        while (s_.chance(1, 3))
        {
            if (com_ && s_.chance(1, 3))
            {
                ++ncom_;
                static const char* const bodies[] = { "", "*", "**", " c ", "/", "//", " * / ", "\"", "*//", "{}", "/*", "***", " x *", "'", "\\" };
                if (s_.flip())
                {
                    add("/*");
                    if (s_.flip())
                        add("*");
                    U b = ascii(s_.pick(bodies));
                    // must not end the comment early: the end marker, also together with the stars around it
                    U full = ascii("*") + b + ascii("*");
                    if (full.find(ascii("*/")) != U::npos)
                        b.clear();
                    out_ += b;
                    if (s_.chance(1, 4))
                        cm_char(U"*/");
                    add("*/");
                }
                else
                {
                    add("//");
                    add(s_.pick(bodies));
                    if (s_.chance(1, 4))
                        cm_char(U"\n\r");
                    if (last && s_.flip())
                        return;  // ended by the end of the document
                    add(s_.flip() ? "\n" : s_.flip() ? "\r" : "\r\n");
                }
            }
            else
                out_ += static_cast<char32_t>(s_.pick(sp));
        }
    }
    void cm_char(const U& avoid)
    {
        uint32_t c = gen_cp(s_);
        if (c == 0 || avoid.find(static_cast<char32_t>(c)) != U::npos)
            c = 'x';
        out_ += static_cast<char32_t>(c);
    }
    void hex(unsigned v)
    {
        static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
        add("\\u");
        for (int sh = 12; sh >= 0; sh -= 4)
            out_ += static_cast<char32_t>((esc_ & 1 ? lo : up)[(v >> sh) & 15]);
    }
    void str(const U& t)
    {
        out_ += U'"';
        for (uint32_t c : t)
        {
            const char* sh = nullptr;
            switch (c)
            {
            case '"':
                sh = "\\\"";
                break;
            case '\\':
                sh = "\\\\";
                break;
            case '/':
                sh = "\\/";
                break;
            case '\b':
                sh = "\\b";
                break;
            case '\f':
                sh = "\\f";
                break;
            case '\n':
                sh = "\\n";
                break;
            case '\r':
                sh = "\\r";
                break;
            case '\t':
                sh = "\\t";
                break;
            }
            bool must = c < 0x20 || c == '"' || c == '\\';
            bool may  = esc_ >= 2 && t.size() < 40 && s_.chance(1, 3);
            if (!must && !may)
                out_ += static_cast<char32_t>(c);
            else if (sh && !(t.size() < 40 && s_.chance(1, 3)))
                add(sh);
            else if (c < 0x10000)
                hex(c);
            else
            {
                hex(0xD800 + (c - 0x10000) / 1024);
                hex(0xDC00 + (c - 0x10000) % 1024);
            }
        }
        out_ += U'"';
    }
    void val(const M& m)
    {
        switch (m.k)
        {
        case M::Null:
            add("null");
            break;
        case M::Bool:
            add(m.b ? "true" : "false");
            break;
        case M::Int:
            add(m.i == 0 && s_.chance(1, 8) ? "-0" : std::to_string(m.i));
            break;
        case M::Flt:
            add(number(m.f));
            break;
        case M::Str:
            str(m.s);
            break;
        case M::Arr:
        {
            add("[");
            ws();
            bool first = true;
            for (auto& x : m.a)
            {
                if (!first)
                {
                    add(",");
                    ws();
                }
                first = false;
                val(x);
                ws();
            }
            add("]");
            break;
        }
        case M::Obj:
        {
            add("{");
            ws();
            bool first = true;
            // any order
            std::vector<const std::pair<const U, M>*> ps;
            for (auto& x : m.o)
                ps.push_back(&x);
            if (ps.size() > 1 && ps.size() < 20 && s_.flip())
                for (size_t i = ps.size() - 1; i > 0; --i)
                    std::swap(ps[i], ps[i - static_cast<size_t>(s_.draw(i + 1))]);
            for (auto* x : ps)
            {
                if (!first)
                {
                    add(",");
                    ws();
                }
                first = false;
                str(x->first);
                ws();
                add(":");
                ws();
                val(x->second);
                ws();
            }
            add("}");
            break;
        }
        }
    }
    // a spelling of a float that has a point or an exponent; always the same double with strtod
    std::string number(double f)
    {
        std::string t = eng::fmt("%.17g", f);
        if (s_.chance(1, 3))
            t = eng::fmt("%.16e", f);
        size_t e = t.find('e');
        std::string mant = t.substr(0, e), ex = e == std::string::npos ? "" : t.substr(e + 1);
        if (mant.find('.') == std::string::npos && (ex.empty() || mant == "0" || mant == "-0" || s_.flip()))
            mant += ".0";
        if (mant.find('.') != std::string::npos && s_.chance(1, 4))
            mant += "00";
        if (ex.empty())
            return mant;
        // with a sign leading zeros are fine, without one they are not (a documented restriction)
        bool neg = ex[0] == '-';
        ex       = ex.substr(1);
        if (s_.flip() || (!neg && ex[0] == '0'))
        {
            size_t z = ex.find_first_not_of('0');
            ex       = z == std::string::npos ? "0" : ex.substr(z);
        }
        bool sign = neg || ex[0] == '0' || s_.flip();
        return mant + (s_.flip() ? "e" : "E") + (sign ? (neg ? "-" : "+") : "") + ex;
    }

    Src&      s_;
    WriteOpts o_;
    U         out_;
    bool      ws_ = false, com_ = false;
    unsigned  esc_ = 0, ncom_ = 0;
};

}  // namespace md
