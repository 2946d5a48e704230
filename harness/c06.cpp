// C06: UTF-8, UTF-16 and UTF-32 are coded exactly as Unicode defines.
#include "lib.hpp"

#include "inputs.hpp"

#include <sstream>
using namespace lib;
namespace cf = configor::encoding;

PROPERTY_INFO("C06", "a case is non-trivial if it codes at least one non-ASCII scalar or one ill-formed sequence; an enumerated case is a block of "
                     "scalars or all sequences with one prefix; cases are distinct by the sequence or block");

namespace
{
template <class C>
std::basic_string<C> units(const U& s, std::integral_constant<int, 8>)
{
    std::string t = utf8(s);
    std::basic_string<C> r;
    for (char ch : t)
        r += static_cast<C>(static_cast<unsigned char>(ch));
    return r;
}
template <class C>
std::basic_string<C> units(const U& s, std::integral_constant<int, 16>)
{
    std::u16string t = utf16(s);
    return std::basic_string<C>(t.begin(), t.end());
}
template <class C>
std::basic_string<C> units(const U& s, std::integral_constant<int, 32>)
{
    return std::basic_string<C>(s.begin(), s.end());
}

template <class C>
std::string hex(const std::basic_string<C>& t)
{
    std::string r;
    for (C ch : t)
        r += fmt("%0*X ", static_cast<int>(2 * sizeof(C)), static_cast<unsigned>(static_cast<uint32_t>(ch) & (sizeof(C) == 1 ? 0xFFu : 0xFFFFFFFFu)));
    return r;
}

// decodes everything; false if the stream was put into a failed state
template <class E, class C>
bool decode_all(const std::basic_string<C>& t, U& out)
{
    std::basic_istringstream<C> is(t);
    out.clear();
    for (;;)
    {
        uint32_t cp = 0;
        if (!E::decode(is, cp))
            return true;
        if (!is.good())
            return false;
        out += static_cast<char32_t>(cp);
        if (out.size() > t.size())
            fail("more scalars than code units were decoded from " + hex(t));
    }
}

template <class E, class C, int N>
void scalar(uint32_t cp, const char* name)
{
    if (sizeof(C) == 2 && cp == 0xFFFF)
        return;  // the end-of-file value of the character type, standard streams replace it
    U one(1, static_cast<char32_t>(cp));
    {
        std::basic_ostringstream<C> os;
        E::encode(os, cp);
        if (!is_scalar(cp))
        {
            if (os.good())
                fail(fmt("%s encoded U+%X, which is no scalar, as ", name, cp) + hex(os.str()));
            return;
        }
        auto want = units<C>(one, std::integral_constant<int, N>());
        if (!os.good() || os.str() != want)
            fail(fmt("%s encoded U+%X as ", name, cp) + hex(os.str()) + "instead of " + hex(want));
    }
    static const U around = U"a";
    U              all    = one + around + one + one, got;
    bool           ok     = decode_all<E, C>(units<C>(all, std::integral_constant<int, N>()), got);
    if (!ok || got != all)
        fail(fmt("%s decoded U+%X as ", name, cp) + hex(got) + (ok ? "" : "(failed)"));
}

template <class E, class C, class W>
void sequence(const std::basic_string<C>& t, bool wellformed, const U& want, const char* name, W)
{
    U    got;
    bool ok = decode_all<E, C>(t, got);
    if (!wellformed)
    {
        if (ok)
            fail(std::string(name) + " accepted the ill-formed " + hex(t) + "as " + hex(got));
        if (want.compare(0, got.size(), got) != 0)
            fail(std::string(name) + " decoded the start of " + hex(t) + "as " + hex(got));
    }
    else if (!ok || got != want)
        fail(std::string(name) + " decoded " + hex(t) + "as " + hex(got) + (ok ? "" : "(failed)"));
}

// the scalars before the first error
U prefix8(const std::string& t)
{
    U u;
    for (size_t n = t.size();; --n)
        if (from8(t.substr(0, n), u) || n == 0)
            return u;
}

void all8(const std::string& t)
{
    U    want;
    bool good = from8(t, want);
    if (!good)
        want = prefix8(t);
    sequence<cf::utf8<char>>(t, good, want, "utf8", 0);
}

template <class J>
bool dumps(const typename J::value& v, bool escaping)
{
    using C = typename J::value::char_type;
    try
    {
        J::template dump<C>(v, { J::template serializer_type<C>::with_unicode_escaping(escaping) });
        return true;
    }
    catch (const configor::configor_serialization_error&)
    {
        return false;
    }
}

// ill-formed text inside values is reported when dumped, wherever it is
template <class J>
void dump_refuses(const typename J::value::string_type& t)
{
    using V = typename J::value;
    V v(t);
    V a(value_constant::array), o(value_constant::object), k(value_constant::object);
    a.push_back(1);
    a.push_back(v);
    o[enc<V>(U"x")] = v;
    k[t]            = 1;
    const V* all[]  = { &v, &a, &o, &k };
    for (auto* p : all)
        for (int e = 0; e < 2; ++e)
            if (dumps<J>(*p, e != 0))
                fail(fmt("a value with ill-formed text was dumped (%s, escaping %d): ", p == &v ? "string" : p == &a ? "element" : p == &o ? "member" : "key", e) + hex(t));
}
}  // namespace

// every code point, scalar or not, through every codec
PROP_ENUM(code_points, 0x110000 / 256, 0x110000 / 256)
{
    uint32_t base = static_cast<uint32_t>(index) * 256;
    c.note(fmt("U+%X..U+%X through every codec", base, base + 255));
    for (uint32_t cp = base; cp < base + 256; ++cp)
    {
        scalar<cf::utf8<char>, char, 8>(cp, "utf8<char>");
        scalar<cf::auto_utf<char>, char, 8>(cp, "auto_utf<char>");
        scalar<cf::utf8<wchar_t>, wchar_t, 8>(cp, "utf8<wchar_t>");
        scalar<cf::utf16<char16_t>, char16_t, 16>(cp, "utf16<char16_t>");
        scalar<cf::auto_utf<char16_t>, char16_t, 16>(cp, "auto_utf<char16_t>");
        scalar<cf::utf16<wchar_t>, wchar_t, 16>(cp, "utf16<wchar_t>");
        scalar<cf::utf32<char32_t>, char32_t, 32>(cp, "utf32<char32_t>");
        scalar<cf::auto_utf<char32_t>, char32_t, 32>(cp, "auto_utf<char32_t>");
        scalar<cf::utf32<wchar_t>, wchar_t, 32>(cp, "utf32<wchar_t>");
        scalar<cf::auto_utf<wchar_t>, wchar_t, 32>(cp, "auto_utf<wchar_t>");
    }
    c.inner(256 * 10);
    c.nontrivial(index);
}

// beyond Unicode
PROP_ENUM(beyond, 64, 64)
{
    for (uint32_t k = 0; k < 64; ++k)
    {
        uint32_t cp = 0x110000u + static_cast<uint32_t>(index) * 0x3BBBBBBu + k * 0x10001u;
        if (cp < 0x110000u || cp == 0xFFFFFFFFu)
            continue;
        scalar<cf::utf8<char>, char, 8>(cp, "utf8<char>");
        scalar<cf::utf16<char16_t>, char16_t, 16>(cp, "utf16<char16_t>");
        scalar<cf::utf32<char32_t>, char32_t, 32>(cp, "utf32<char32_t>");
        scalar<cf::utf32<wchar_t>, wchar_t, 32>(cp, "utf32<wchar_t>");
        scalar<cf::auto_utf<wchar_t>, wchar_t, 32>(cp, "auto_utf<wchar_t>");
        c.inner(5);
    }
    c.note(fmt("values beyond U+10FFFF, set %d", static_cast<int>(index)));
    c.nontrivial(index);
}

// all sequences of up to two bytes, and of three and four with the last ones sampled from every class
PROP_ENUM(utf8_sequences, 256, 256)
{
    static const unsigned char cls[] = { 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xE0, 0xFF };
    c.note(fmt("UTF-8 sequences starting with %02X", static_cast<unsigned>(index)));
    std::string t(1, static_cast<char>(index));
    all8(t);
    for (unsigned b = 0; b < 256; ++b)
    {
        t.resize(1);
        t += static_cast<char>(b);
        all8(t);
        if (index < 0xC0)
            continue;
        for (unsigned char d : cls)
        {
            t.resize(2);
            t += static_cast<char>(d);
            all8(t);
            if (index < 0xE0 || b < 0x80 || b > 0xC0)
                continue;
            for (unsigned char e : cls)
            {
                t.resize(3);
                t += static_cast<char>(e);
                all8(t);
                c.inner();
            }
        }
    }
    c.inner(257);
    c.nontrivial(index);
}

PROP_ENUM(utf16_sequences, 14 * 14, 14 * 14)
{
    static const char16_t cls[] = { u'a', 0x22, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0x122, 0x7F };
    std::u16string        t(1, cls[index % 14]);
    t += cls[index / 14];
    c.note("UTF-16 sequences starting with " + hex(t));
    auto one = [&](const std::u16string& x) {
        U    want;
        bool good = from16(x, want);
        if (!good)
            for (size_t n = x.size(); n-- > 0;)
                if (from16(x.substr(0, n), want))
                    break;
        sequence<cf::utf16<char16_t>>(x, good, want, "utf16<char16_t>", 0);
        sequence<cf::utf16<wchar_t>>(std::wstring(x.begin(), x.end()), good, want, "utf16<wchar_t>", 0);
        c.inner(2);
    };
    one(t.substr(0, 1));
    one(t);
    for (char16_t a : cls)
    {
        one(t + a);
        for (char16_t b : cls)
            one(t + a + b);
    }
    c.nontrivial(index);
}

PROP_ENUM(utf32_sequences, 14, 14)
{
    static const uint32_t cls[] = { 'a', 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0x10000 };
    c.note(fmt("UTF-32 sequences starting with %X", cls[index]));
    for (uint32_t a : cls)
        for (uint32_t b : cls)
        {
            std::u32string t;
            t += static_cast<char32_t>(cls[index]);
            t += static_cast<char32_t>(a);
            t += static_cast<char32_t>(b);
            U want;
            for (uint32_t x : t)
            {
                if (!is_scalar(x))
                    break;
                want += static_cast<char32_t>(x);
            }
            bool good = want.size() == 3;
            sequence<cf::utf32<char32_t>>(t, good, want, "utf32<char32_t>", 0);
            sequence<cf::utf32<wchar_t>>(std::wstring(t.begin(), t.end()), good, want, "utf32<wchar_t>", 0);
            if (!good)
                dump_refuses<wjson>(std::wstring(t.begin(), t.end()));
            c.inner(2);
        }
    c.nontrivial(index);
}

// every scalar through documents: raw in every width, as an escape, and out again
PROP_ENUM(documents, 0x110000 / 128, 0x110000 / 128)
{
    uint32_t base = static_cast<uint32_t>(index) * 128;
    M        m    = M::arr();
    U        raw, escd, all;
    raw += U'[';
    escd += U'[';
    for (uint32_t cp = base; cp < base + 128; ++cp)
    {
        if (!is_scalar(cp))
        {
            std::string t = fmt(cp % 2 ? "\"\\u%04X\"" : "\"x\\u%04xy\"", cp);
            if (reading([&] { return json::parse(t); }).ok || reading([&] { return wjson::parse(wide(ascii(t))); }).ok)
                fail("a lone surrogate escape was accepted: " + t);
            c.inner(2);
            continue;
        }
        m.a.push_back(M::str(U(1, static_cast<char32_t>(cp))));
        all += static_cast<char32_t>(cp);
        if (raw.size() > 1)
        {
            raw += U',';
            escd += U',';
        }
        raw += U'"';
        if (cp < 0x20 || cp == '"' || cp == '\\' || cp == 0xFFFF)
            raw += ascii(fmt("\\u%04x", cp));
        else
            raw += static_cast<char32_t>(cp);
        raw += U'"';
        if (cp < 0x10000)
            escd += ascii(fmt(cp % 3 ? "\"\\u%04X\"" : "\"\\u%04x\"", cp));
        else
            escd += ascii(fmt(cp % 3 ? "\"\\u%04X\\u%04X\"" : "\"\\u%04x\\u%04x\"", 0xD800 + (cp - 0x10000) / 1024, 0xDC00 + (cp - 0x10000) % 1024));
    }
    if (m.a.empty())
    {
        c.nontrivial(index);
        return;
    }
    m.a.push_back(M::str(all));
    M member     = M::obj();
    member.o[all] = M::null();
    m.a.push_back(member);
    raw += U",\"\",{}]";
    escd += U",\"\",{}]";
    M flat = m;
    flat.a[flat.a.size() - 2] = M::str(U());
    flat.a.back()             = M::obj();
    std::string shown = fmt("U+%X..U+%X", base, base + 127);
    c.note(shown + " in documents");
    for (int e = 0; e < 2; ++e)
    {
        const U& t = e ? escd : raw;
        std::string w = e ? "escaped" : "raw";
        expect_read(reading([&] { return json::parse(utf8(t)); }), flat, w + " UTF-8", shown);
        expect_read(reading([&] { return wjson::parse(wide(t)); }), flat, w + " wide text, wide value", shown);
        expect_read(reading([&] { return json::parse(utf16(t)); }), flat, w + " UTF-16", shown);
        expect_read(reading([&] { return wjson::parse(std::u32string(t)); }), flat, w + " UTF-32, wide value", shown);
    }
    auto back = [&](const U& t, const std::string& what) {
        auto r = Reader::read(t, true);
        if (r.v != Reader::Accept)
            fail(what + ": not a document: " + r.why + "\n  " + shown);
        std::string d = diff(m, r.m);
        if (!d.empty())
            fail(what + ": " + d + "\n  " + shown);
    };
    json::value  v  = build<json::value>(m);
    wjson::value wv = build<wjson::value>(m);
    for (int e = 0; e < 2; ++e)
    {
        U d;
        DOpt o;
        o.escaping = e != 0;
        REQUIRE(from8(dump_with<json, char>(v, o), d));
        back(d, e ? "escaped narrow dump" : "narrow dump");
        REQUIRE(fromwide(dump_with<wjson, wchar_t>(wv, o), d));
        back(d, e ? "escaped wide dump" : "wide dump");
        REQUIRE(fromwide(dump_with<json, wchar_t>(v, o), d));
        back(d, e ? "escaped narrow to wide dump" : "narrow to wide dump");
        REQUIRE(from8(dump_with<wjson, char>(wv, o), d));
        back(d, e ? "escaped wide to narrow dump" : "wide to narrow dump");
    }
    c.inner(16 * 128);
    c.nontrivial(index);
}

// mixtures of good and bad sequences in strings, keys and documents
PROP(mixtures, 60000, 600000)
{
    std::string t;
    size_t      n = 0;
    do
    {
        if (s.flip())
            t += bad_bytes(s);
        else
        {
            uint32_t cp = gen_cp(s);
            put8(t, cp);
        }
        ++n;
    } while (s.more(n, 6, 3));
    // characters with a meaning of their own in documents would only blur the question
    for (auto& ch : t)
        if (static_cast<unsigned char>(ch) < 0x20 || ch == '"' || ch == '\\')
            ch = 'q';
    c.note(hex(t));
    U    want;
    bool good = from8(t, want);
    all8(t);
    auto check = [&](const Read& r, const M& m, const char* what) {
        if (!good && r.ok)
            fail(std::string(what) + ": ill-formed text was accepted: " + hex(t));
        if (good)
            expect_read(r, m, what, hex(t));
    };
    M str = M::str(want), key = M::obj(), arr = M::arr();
    key.o[want] = M::boolean(true);
    arr.a       = { M::integer(1), str };
    check(reading([&] { return json::parse("\"" + t + "\""); }), str, "string");
    check(reading([&] { return wjson::parse("\"" + t + "\""); }), str, "string, wide value");
    check(reading([&] { return json::parse("{\"" + t + "\":true}"); }), key, "key");
    check(reading([&] { return json::parse("[1,\"" + t + "\"]"); }), arr, "element");
    std::istringstream is("[1,\"" + t + "\"]");
    check(reading([&] { return json::parse(is); }), arr, "element from a stream");
    // ill-formed text is an error in comments and at the end of strings as well
    if (!good)
    {
        check(reading([&] { return json::parse("/*" + t + "*/1"); }), str, "comment");
        check(reading([&] { return json::parse("1//" + t + "\n"); }), str, "comment");
        check(reading([&] { return json::parse("1 " + t); }), str, "after the document");
        dump_refuses<json>(t);
    }
    else
    {
        REQUIRE(dumps<json>(json::value(t), false));
        REQUIRE(dumps<json>(json::value(t), true));
    }
    c.inner(7);
    c.label(good ? "well-formed" : "ill-formed");
    c.nontrivial(eng::hash_str(t));
}

// escapes of surrogates: a pair is one scalar, anything else an error
PROP(surrogate_escapes, 30000, 300000)
{
    std::string t = "\"";
    size_t      n = 0;
    U           want;
    bool        good = true;
    static const unsigned edge[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000, 0xD83D, 0xDE00, 0x41, 0xFFFF };
    unsigned    lead = 0;
    do
    {
        bool     plain = s.chance(1, 5);
        unsigned u     = s.flip() ? s.pick(edge) : static_cast<unsigned>(0xD800 + s.draw(0x800));
        if (plain)
        {
            static const char* const p[] = { "a", "\\n", "\xC3\xA9", "\\\\", " " };
            static const char32_t    q[] = { U'a', U'\n', 0xE9, U'\\', U' ' };
            size_t                   i   = static_cast<size_t>(s.draw(5));
            t += p[i];
            if (lead)
                good = false;
            want += q[i];
        }
        else
        {
            t += fmt(s.flip() ? "\\u%04X" : "\\u%04x", u);
            if (u >= 0xDC00 && u <= 0xDFFF)
            {
                if (!lead)
                    good = false;
                else
                    want += static_cast<char32_t>(0x10000 + (lead - 0xD800) * 1024 + (u - 0xDC00));
                lead = 0;
            }
            else
            {
                if (lead)
                    good = false;
                lead = u >= 0xD800 && u <= 0xDBFF ? u : 0;
                if (!lead)
                    want += static_cast<char32_t>(u);
            }
        }
        ++n;
    } while (s.more(n, 5, 3));
    if (lead)
        good = false;
    t += "\"";
    c.note(t);
    Read r  = reading([&] { return json::parse(t); });
    Read rw;
    if (good)
        expect_read(r, M::str(want), "parse", printable(t));
    else if (r.ok)
        fail("unpaired surrogates were accepted: " + t + " as " + show(r.m));
    // wide text must be the decoded one for the raw character
    U d;
    if (from8(t, d))
    {
        rw = reading([&] { return wjson::parse(wide(d)); });
        if (good)
            expect_read(rw, M::str(want), "wide parse", printable(t));
        else if (rw.ok)
            fail("unpaired surrogates were accepted by wjson: " + t);
    }
    c.inner(2);
    c.label(good ? "paired" : "unpaired");
    c.nontrivial(eng::hash_str(t));
}
