// C07: the character width of text and of values never changes the meaning.
#include "inputs.hpp"
#include "lib.hpp"
using namespace lib;
namespace cf = configor::encoding;

PROPERTY_INFO("C07", "a case is non-trivial if the text has at least two characters (reading) or the value holds a string or at least two nodes "
                     "(writing); cases are distinct by the text, or by value and options");

namespace
{
struct Outcome
{
    Read        r;
    std::string how;
};

bool same_bits(const M& a, const M& b)
{
    if (a.k != b.k || a.a.size() != b.a.size() || a.o.size() != b.o.size())
        return false;
    if (a.k == M::Flt && !(a.f == b.f || (a.f != a.f && b.f != b.f)))
        return false;
    if (a.k == M::Bool && a.b != b.b)
        return false;
    if (a.k == M::Int && a.i != b.i)
        return false;
    if (a.s != b.s)
        return false;
    for (size_t i = 0; i < a.a.size(); ++i)
        if (!same_bits(a.a[i], b.a[i]))
            return false;
    for (auto x = a.o.begin(), y = b.o.begin(); x != a.o.end(); ++x, ++y)
        if (x->first != y->first || !same_bits(x->second, y->second))
            return false;
    return true;
}

class Agree
{
public:
    Agree(const std::string& shown, Ctx& c)
        : shown_(shown), c_(c)
    {
    }
    void operator()(const Read& r, const char* how)
    {
        if (first_.empty())
        {
            first_ = how;
            r_     = r;
            return;
        }
        c_.inner();
        if (r.ok != r_.ok || (r.ok && !same_bits(r.m, r_.m)))
            fail(std::string(how) + ": " + (r.ok ? show(r.m) : "rejected with \"" + r.error + "\"") + "\n  but " + first_ + ": "
                 + (r_.ok ? show(r_.m) : "rejected with \"" + r_.error + "\"") + "\n  input: " + shown_);
    }
    bool ok() const
    {
        return r_.ok;
    }

private:
    std::string shown_, first_;
    Read        r_;
    Ctx&        c_;
};

template <class J, class S, template <class> class E>
Read src(const std::basic_string<S>& t)
{
    return reading([&] { return J::parse(t, { J::template parser_type<S>::template with_source_encoding<E>() }); });
}
template <class J, class S, template <class> class E, template <class> class F>
Read both(const std::basic_string<S>& t)
{
    return reading([&] {
        return J::parse(t, { J::template parser_type<S>::template with_source_encoding<E>(), J::template parser_type<S>::template with_target_encoding<F>() });
    });
}
template <class J, class S, template <class> class E>
Read enc_(const std::basic_string<S>& t)
{
    return reading([&] { return J::parse(t, { J::template parser_type<S>::template with_encoding<E>() }); });
}

template <class J>
void all_sources(const U& u, Agree& agree)
{
    std::string    a = utf8(u);
    std::wstring   w = wide(u);
    std::u32string d = u;
    agree(reading([&] { return J::parse(a); }), "char");
    agree(reading([&] { return J::parse(w); }), "wchar_t");
    agree(reading([&] { return J::parse(d); }), "char32_t");
    agree(src<J, char, cf::utf8>(a), "char as utf8");
    agree(src<J, char, cf::auto_utf>(a), "char as auto_utf");
    agree(src<J, wchar_t, cf::utf32>(w), "wchar_t as utf32");
    agree(src<J, char32_t, cf::utf32>(d), "char32_t as utf32");
    agree(both<J, wchar_t, cf::utf32, cf::auto_utf>(w), "wchar_t as utf32 to auto_utf");
    std::u16string h = utf16(u);
    if (h.find(char16_t(0xFFFF)) == std::u16string::npos)
    {
        agree(reading([&] { return J::parse(h); }), "char16_t");
        agree(src<J, char16_t, cf::utf16>(h), "char16_t as utf16");
        // the same units in a wider type
        agree(src<J, wchar_t, cf::utf16>(std::wstring(h.begin(), h.end())), "wchar_t as utf16");
    }
    std::wstring bytes;
    for (char ch : a)
        bytes += static_cast<wchar_t>(static_cast<unsigned char>(ch));
    agree(src<J, wchar_t, cf::utf8>(bytes), "wchar_t as utf8");
    if (u.find(U'\0') == U::npos)
    {
        agree(reading([&] { return J::parse(a.c_str()); }), "const char*");
        agree(reading([&] { return J::parse(w.c_str()); }), "const wchar_t*");
        agree(reading([&] { return J::parse(h.c_str()); }), h.find(char16_t(0xFFFF)) == std::u16string::npos ? "const char16_t*" : "const char16_t* ");
        agree(reading([&] { return J::parse(d.c_str()); }), "const char32_t*");
    }
}

U wide_to_u(const std::wstring& w, const char* how)
{
    U u;
    if (!fromwide(w, u))
        fail(std::string(how) + ": the dumped text is not UTF-32: " + printable(w));
    return u;
}
U narrow_to_u(const std::string& t, const char* how)
{
    U u;
    if (!from8(t, u))
        fail(std::string(how) + ": the dumped text is not UTF-8: " + printable(t));
    return u;
}

template <class J, class T, template <class> class S, template <class> class D>
std::basic_string<T> dump_as(const typename J::value& v, const DOpt& o)
{
    using SZ = typename J::template serializer_type<T>;
    auto x   = options<J, T>(o);
    auto p   = x.size() == 3 ? x[2] : x[1];
    return J::template dump<T>(v, { x[0], x[1], p, SZ::template with_source_encoding<S>(), SZ::template with_target_encoding<D>() });
}
}  // namespace

// documents, and what is nearly one: the outcome is the same whichever way the text is given
PROP(documents, 60000, 800000)
{
    U u;
    if (s.chance(1, 3))
    {
        WriteOpts wo;
        wo.comments = s.flip();
        Writer w(s, wo);
        u = w.doc(s.chance(1, 400) ? gen_long(s, 20000) : gen_tree(s));
    }
    else if (!from8(gen_input(s), u))
        throw eng::Discard();
    // the end-of-file value of char16_t streams
    for (auto& ch : u)
        if (ch == 0xFFFF && s.flip())
            ch = U'x';
    if (u.find(U'\uFFFF') != U::npos && u.find(U'\0') == U::npos && s.flip())
        for (auto& ch : u)
            if (ch == 0xFFFF)
                ch = 0xFFFC;
    std::string shown = printable(utf8(u));
    c.note(shown);
    bool has_ffff = u.find(char32_t(0xFFFF)) != U::npos;
    Agree agree(shown, c);
    if (!has_ffff)
        all_sources<json>(u, agree);
    else
    {
        agree(reading([&] { return json::parse(utf8(u)); }), "char");
        agree(reading([&] { return json::parse(wide(u)); }), "wchar_t");
    }
    if (!has_ffff)
        all_sources<wjson>(u, agree);
    else
    {
        agree(reading([&] { return wjson::parse(utf8(u)); }), "char, wide value");
        agree(reading([&] { return wjson::parse(wide(u)); }), "wchar_t, wide value");
    }
    agree(enc_<json, char, cf::utf8>(utf8(u)), "char as utf8 to utf8");
    agree(enc_<wjson, wchar_t, cf::utf32>(wide(u)), "wchar_t as utf32 to utf32");
    agree(both<json, wchar_t, cf::utf32, cf::utf8>(wide(u)), "wchar_t as utf32 to utf8");
    agree(both<wjson, char, cf::utf8, cf::utf32>(utf8(u)), "char as utf8 to utf32");
    c.label(agree.ok() ? "accepted" : "rejected");
    if (u.size() >= 2)
        c.nontrivial(eng::hash_bytes(u.data(), u.size() * 4));
}

// values: the same characters whatever the width
PROP(values, 40000, 600000)
{
    M    m = s.chance(1, 3) ? gen_scalar(s) : s.chance(1, 400) ? gen_long(s, 20000) : gen_tree(s);
    DOpt o = gen_dopt(s, m);
    c.note(o.show() + " " + show(m));
    auto v  = build<json::value>(m);
    auto wv = build<wjson::value>(m);
    U    t  = narrow_to_u(dump_with<json, char>(v, o), "json to char");
    auto eq = [&](const U& g, const char* how) {
        c.inner();
        if (g != t)
            fail(std::string(how) + ": " + printable(utf8(g)) + "\n  but json to char: " + printable(utf8(t)));
    };
    eq(wide_to_u(dump_with<json, wchar_t>(v, o), "json to wchar_t"), "json to wchar_t");
    eq(narrow_to_u(dump_with<wjson, char>(wv, o), "wjson to char"), "wjson to char");
    eq(wide_to_u(dump_with<wjson, wchar_t>(wv, o), "wjson to wchar_t"), "wjson to wchar_t");
    eq(narrow_to_u(dump_as<json, char, cf::utf8, cf::utf8>(v, o), "utf8 to utf8"), "json as utf8 to utf8");
    eq(wide_to_u(dump_as<json, wchar_t, cf::utf8, cf::utf32>(v, o), "utf8 to utf32"), "json as utf8 to wchar_t as utf32");
    eq(narrow_to_u(dump_as<wjson, char, cf::utf32, cf::utf8>(wv, o), "utf32 to utf8"), "wjson as utf32 to char as utf8");
    eq(wide_to_u(dump_as<wjson, wchar_t, cf::utf32, cf::utf32>(wv, o), "utf32 to utf32"), "wjson as utf32 to wchar_t as utf32");
    eq(narrow_to_u(dump_as<wjson, char, cf::auto_utf, cf::auto_utf>(wv, o), "auto to auto"), "wjson as auto_utf to char as auto_utf");
    // the units of UTF-16 and UTF-8 in wide characters
    std::wstring   h = dump_as<json, wchar_t, cf::utf8, cf::utf16>(v, o);
    U              d;
    std::u16string units;
    for (wchar_t x : h)
    {
        REQUIRE(static_cast<uint32_t>(x) < 0x10000);
        units += static_cast<char16_t>(x);
    }
    REQUIRE_MSG(from16(units, d), "utf16 in wchar_t: ill-formed");
    eq(d, "json to wchar_t as utf16");
    std::wstring b = dump_as<wjson, wchar_t, cf::utf32, cf::utf8>(wv, o);
    std::string  bytes;
    for (wchar_t x : b)
    {
        REQUIRE(static_cast<uint32_t>(x) < 0x100);
        bytes += static_cast<char>(x);
    }
    eq(narrow_to_u(bytes, "utf8 in wchar_t"), "wjson to wchar_t as utf8");
    // and the way back, across the widths
    Agree agree(printable(utf8(t)), c);
    agree(reading([&] { return json::parse(dump_with<wjson, wchar_t>(wv, o)); }), "json from the wide dump");
    agree(reading([&] { return wjson::parse(dump_with<json, char>(v, o)); }), "wjson from the narrow dump");
    REQUIRE(agree.ok());
    if (nodes(m) > 1 || (m.k == M::Str && !m.s.empty()))
        c.nontrivial(eng::hash_bytes(t.data(), t.size() * 4) + o.key());
}
