// The bridge between the model and configor, through the public interface only.
#pragma once
#include "model.hpp"

#include <configor/json.hpp>

namespace lib
{
using namespace md;
using configor::json;
using configor::value_constant;
using configor::wjson;
using eng::fail;
using eng::fmt;

template <class C>
struct chars;
template <>
struct chars<char>
{
    static std::string enc(const U& s)
    {
        return utf8(s);
    }
    static bool dec(const std::string& s, U& o)
    {
        return from8(s, o);
    }
};
template <>
struct chars<wchar_t>
{
    static std::wstring enc(const U& s)
    {
        return wide(s);
    }
    static bool dec(const std::wstring& s, U& o)
    {
        return fromwide(s, o);
    }
};

template <>
struct chars<char16_t>
{
    static std::u16string enc(const U& s)
    {
        return utf16(s);
    }
    static bool dec(const std::u16string& s, U& o)
    {
        return from16(s, o);
    }
};
template <>
struct chars<char32_t>
{
    static std::u32string enc(const U& s)
    {
        return std::u32string(s.begin(), s.end());
    }
    static bool dec(const std::u32string& s, U& o)
    {
        o.assign(s.begin(), s.end());
        for (uint32_t c : o)
            if (!is_scalar(c))
                return false;
        return true;
    }
};

template <class V>
typename V::string_type enc(const U& s)
{
    auto t = chars<typename V::char_type>::enc(s);
    return typename V::string_type(t.begin(), t.end());
}

inline std::string printable(const std::string& s, size_t n = 600)
{
    return eng::escape_bytes(s.size() > n ? s.substr(0, n) + "..." : s);
}
inline std::string printable(const std::wstring& s, size_t n = 600)
{
    std::string r;
    for (wchar_t c : s.substr(0, n))
        r += c >= 0x20 && c < 0x7f ? std::string(1, static_cast<char>(c)) : fmt("\\u{%X}", static_cast<unsigned>(c));
    return r;
}
inline std::string printable(const std::u16string& s, size_t n = 600)
{
    return printable(std::wstring(s.begin(), s.end()), n);
}
inline std::string printable(const std::u32string& s, size_t n = 600)
{
    return printable(std::wstring(s.begin(), s.end()), n);
}

// model -> library value
template <class V>
V build(const M& m)
{
    switch (m.k)
    {
    case M::Null:
        return V();
    case M::Bool:
        return V(m.b);
    case M::Int:
        return V(m.i);
    case M::Flt:
        return V(m.f);
    case M::Str:
        return V(enc<V>(m.s));
    case M::Arr:
    {
        V v(value_constant::array);
        for (auto& x : m.a)
            v.push_back(build<V>(x));
        return v;
    }
    case M::Obj:
    {
        V v(value_constant::object);
        for (auto& x : m.o)
            v[enc<V>(x.first)] = build<V>(x.second);
        return v;
    }
    }
    return V();
}

// library value -> model; reads every kind through get_ptr
template <class V>
M extract(const V& v)
{
    switch (v.type())
    {
    case value_constant::null:
        return M::null();
    case value_constant::boolean:
        return M::boolean(*v.template get_ptr<const bool*>());
    case value_constant::integer:
        return M::integer(static_cast<int64_t>(*v.template get_ptr<const typename V::integer_type*>()));
    case value_constant::floating:
        return M::flt(static_cast<double>(*v.template get_ptr<const typename V::float_type*>()));
    case value_constant::string:
    {
        const auto& t = *v.template get_ptr<const typename V::string_type*>();
        U           u;
        std::basic_string<typename V::char_type> c(t.begin(), t.end());
        if (!chars<typename V::char_type>::dec(c, u))
            fail("a string of the value is not well-formed unicode: " + printable(c));
        return M::str(u);
    }
    case value_constant::array:
    {
        M m = M::arr();
        for (auto& x : *v.template get_ptr<const typename V::array_type*>())
            m.a.push_back(extract<V>(x));
        return m;
    }
    case value_constant::object:
    {
        M m = M::obj();
        for (auto& x : *v.template get_ptr<const typename V::object_type*>())
        {
            U                                        u;
            std::basic_string<typename V::char_type> c(x.first.begin(), x.first.end());
            if (!chars<typename V::char_type>::dec(c, u))
                fail("a key of the value is not well-formed unicode: " + printable(c));
            m.o[u] = extract<V>(x.second);
        }
        return m;
    }
    }
    fail("a value of unknown type");
}

// the outcome of reading a document
struct Read
{
    bool        ok = false;
    M           m;
    std::string error;
};

// runs f() -> library value; a deserialization error is an outcome, any other exception a failure
template <class F>
Read reading(F f)
{
    Read r;
    try
    {
        auto v = f();
        r.ok   = true;
        r.m    = extract(v);
    }
    catch (const configor::configor_deserialization_error& e)
    {
        r.error = e.what();
        r.ok    = false;
    }
    return r;
}

inline void expect_read(const Read& r, const M& want, const std::string& what, const std::string& text, const Tol& t = Tol())
{
    if (!r.ok)
        fail(what + ": rejected with \"" + r.error + "\"\n  text: " + text);
    std::string d = diff(want, r.m, t);
    if (!d.empty())
        fail(what + ": " + d + "\n  text: " + text);
}

inline bool needs_escape(const M& m)
{
    if (m.k == M::Str)
        for (uint32_t c : m.s)
            if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\')
                return true;
    for (auto& x : m.a)
        if (needs_escape(x))
            return true;
    for (auto& x : m.o)
    {
        if (needs_escape(x.second))
            return true;
        for (uint32_t c : x.first)
            if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\')
                return true;
    }
    return false;
}

// ---------------------------------------------------------------- dump options

inline bool huge_float(const M& m)
{
    if (m.k == M::Flt && (std::fabs(m.f) > 1e30))
        return true;
    for (auto& x : m.a)
        if (huge_float(x))
            return true;
    for (auto& x : m.o)
        if (huge_float(x.second))
            return true;
    return false;
}
inline unsigned depth(const M& m)
{
    unsigned d = 0;
    for (auto& x : m.a)
        d = std::max(d, depth(x));
    for (auto& x : m.o)
        d = std::max(d, depth(x.second));
    return d + (m.k == M::Arr || m.k == M::Obj);
}

struct DOpt
{
    unsigned indent   = 0;
    char     ch       = ' ';
    bool     escaping = false;
    int      mode     = 0;  // 0 default precision, 1 fixed, 2 scientific, 3 general
    int      prec     = 6;
    unsigned former   = 0;  // options given before and replaced by these

    // how floats come back
    Tol tol() const
    {
        switch (mode)
        {
        case 1:
            return Tol(1e-12, 0.5000001 * std::pow(10.0, -prec));
        case 2:
            return Tol(0.5000001 * std::pow(10.0, -prec) + 1e-12);
        default:
            return Tol(0.5000001 * std::pow(10.0, 1 - std::max(prec, 1)) + 1e-12);
        }
    }
    std::string show() const
    {
        return fmt("indent=%ux'%s' escaping=%d floats=%s precision=%d%s", indent, ch == '\t' ? "\\t" : std::string(1, ch).c_str(), escaping,
                   mode == 0 ? "default" : mode == 1 ? "fixed" : mode == 2 ? "scientific" : "general", prec, former ? ", other ones before" : "");
    }
    std::ios_base::fmtflags flags() const
    {
        return mode == 1 ? std::ios_base::fixed : mode == 2 ? std::ios_base::scientific : std::ios_base::fmtflags(0);
    }
    uint64_t key() const
    {
        return ((indent * 256u + static_cast<unsigned char>(ch)) * 2u + escaping) * 80u + static_cast<unsigned>(mode * 20 + prec) + (former << 24);
    }
};

inline DOpt gen_dopt(Src& s, const M& m)
{
    static const unsigned steps[] = { 1, 2, 3, 4, 8, 16, 63, 64, 127, 128, 254, 255 };
    DOpt                  o;
    if (s.flip())
    {
        o.indent = s.pick(steps);
        // deep or large values with wide indentation would only make megabytes of blanks
        if (o.indent * depth(m) * nodes(m) > 200000)
            o.indent = o.indent % 4 + 1;
        o.ch = s.flip() ? '\t' : ' ';
    }
    o.escaping = s.flip();
    o.mode     = static_cast<int>(s.draw(4));
    if (o.mode)
    {
        o.prec = static_cast<int>(s.chance(1, 12) ? 18 + s.draw(43) : s.draw(18));
        if (o.mode == 1 && huge_float(m))
            o.mode = 3;
    }
    if (s.chance(1, 4))
        o.former = static_cast<unsigned>(s.draw(8));
    return o;
}

template <class J, class T>
std::vector<typename J::template serializer_option<T>> options(const DOpt& o)
{
    using SZ = typename J::template serializer_type<T>;
    std::vector<typename J::template serializer_option<T>> r;
    r.push_back(SZ::with_indent(static_cast<uint8_t>(o.indent), static_cast<T>(o.ch)));
    if (o.former)
    {
        const auto     last = r[0];
        const unsigned f = o.former;
        const int      p = o.mode ? std::abs(17 - o.prec) : 0, m = o.mode;
        const auto     other = m == 1 ? std::ios_base::scientific : std::ios_base::fixed;
        const auto     i = SZ::with_indent(static_cast<uint8_t>(o.indent ? 0 : 3), T('\t'));
        const auto     e = SZ::with_unicode_escaping(!o.escaping);
        r[0] = [=](SZ& sz) {
            if (f & 1)
                i(sz);
            if (f & 2)
                e(sz);
            if ((f & 4) && m)
                SZ::with_precision(p, other)(sz);
            last(sz);
        };
    }
    r.push_back(SZ::with_unicode_escaping(o.escaping));
    if (o.mode)
        r.push_back(SZ::with_precision(o.prec, o.flags()));
    return r;
}

// dump(target, v, { all options })
template <class J, class T, class Target>
void dump_into(Target& t, const typename J::value& v, const DOpt& o)
{
    auto x = options<J, T>(o);
    if (x.size() == 2)
        J::template dump<T>(t, v, { x[0], x[1] });
    else
        J::template dump<T>(t, v, { x[0], x[1], x[2] });
}
template <class J, class T>
std::basic_string<T> dump_with(const typename J::value& v, const DOpt& o)
{
    auto x = options<J, T>(o);
    if (x.size() == 2)
        return J::template dump<T>(v, { x[0], x[1] });
    return J::template dump<T>(v, { x[0], x[1], x[2] });
}

// objects of a program whose image is a value, for wrapping
template <class V>
struct View
{
    const V*    of;
    friend void to_value(V& c, const View& x)
    {
        c = *x.of;
    }
};
template <class V>
struct Carrier
{
    V           v;
    friend void to_value(V& c, const Carrier& x)
    {
        c = x.v;
    }
    friend void from_value(const V& c, Carrier& x)
    {
        x.v = c;
    }
};
const char* const wrapped_names[] = { "constant", "variable", "temporary object", "variable object" };
// os << wrap(...), of a value or of an object, constant or not
template <class J, class C>
std::basic_ostream<C>& insert_wrapped(std::basic_ostream<C>& os, const typename J::value& v, int way)
{
    using V = typename J::value;
    switch (way)
    {
    case 1:
    {
        V    x(v);
        auto w = J::wrap(x);
        return os << w;
    }
    case 2:
    {
        return os << J::wrap(View<V>{ &v });
    }
    case 3:
    {
        Carrier<V> x;
        x.v    = v;
        auto w = J::wrap(x);
        return os << w;
    }
    default:
        return os << J::wrap(v);
    }
}
// is >> w, of a value or of an object
template <class J, class C>
void extract_wrapped(std::basic_istream<C>& is, typename J::value& v, bool object)
{
    if (object)
    {
        Carrier<typename J::value> x;
        x.v.swap(v);
        struct Back
        {
            typename J::value &a, &b;
            ~Back()
            {
                a.swap(b);
            }
        } back{ x.v, v };
        is >> J::wrap(x);
    }
    else
    {
        auto w = J::wrap(v);
        is >> w;
    }
}

}  // namespace lib
