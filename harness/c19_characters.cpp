// C19: other character types and default encodings
#define ENGINE_NO_MAIN
#ifdef OMITTED
#include "engine.hpp"
namespace c19
{
void characters(eng::Src&, eng::Ctx&)
{
    throw eng::Discard();
}
}  // namespace c19
#else
#include "c19.hpp"

namespace c19
{
namespace
{
template <class C>
struct Char : configor::value_tplargs
{
    using char_type = C;
};
using configor::value_tplargs;
using configor::wvalue_tplargs;
namespace enc_ = configor::encoding;

// a format whose default encoding is `ignore`: the units of strings are written and read as they are, whatever they are
template <class C>
std::basic_string<C> literal(const std::basic_string<C>& x)
{
    std::basic_string<C> r(1, C('"'));
    for (C u : x)
    {
        const char* short_ = u == C('"') ? "\\\"" : u == C('\\') ? "\\\\" : u == C('\b') ? "\\b" : u == C('\f') ? "\\f" : u == C('\n') ? "\\n" : u == C('\r') ? "\\r" : u == C('\t') ? "\\t" : nullptr;
        std::string e = short_ ? short_ : u >= C(0) && u < C(0x20) ? fmt("\\u%04X", static_cast<unsigned>(u)) : "";
        if (e.empty())
            r += u;
        for (char y : e)
            r += static_cast<C>(y);
    }
    return r + C('"');
}
template <class C>
std::basic_string<C> raw_units(Src& s)
{
    std::basic_string<C> r;
    for (size_t i = 0; s.more(i, 12, 8); ++i)
    {
        uint32_t x = static_cast<uint32_t>(s.draw(256));
        if (sizeof(C) > 1 && s.chance(1, 2))
            x = s.chance(1, 3) ? 0xD800 + static_cast<uint32_t>(s.draw(0x800)) : static_cast<uint32_t>(s.draw(0x110000));
        r += static_cast<C>(x);
    }
    return r;
}
template <class J>
void as_is(Src& s, Ctx& c)
{
    using V = typename J::value;
    using C = typename V::char_type;
    using T = std::basic_string<C>;
    const T x = raw_units<C>(s), k = raw_units<C>(s);
    V       v;
    T       want;
    switch (s.draw(3))
    {
    case 0:
        v    = V(x);
        want = literal(x);
        break;
    case 1:
        v[size_t(0)] = V(x);
        v[size_t(1)] = V(k);
        want         = C('[') + literal(x) + C(',') + literal(k) + C(']');
        break;
    default:
        v[k] = V(x);
        want = C('{') + literal(k) + C(':') + literal(x) + C('}');
    }
    const std::string what = std::string(sizeof(C) == 1 ? "" : "wide: ") + "units as they are: " + printable(want);
    c.note(what);
    auto text = [&](const char* how, const T& got) {
        c.inner();
        if (got != want)
            fail(what + "\n  " + how + " gives " + printable(got));
    };
    auto value = [&](const char* how, std::function<V()> f) {
        c.inner();
        V got;
        try
        {
            got = f();
        }
        catch (const configor::configor_exception& e)
        {
            fail(what + "\n  " + how + " is rejected: " + e.what());
        }
        if (!(got == v))
            fail(what + "\n  " + how + " gives another value: " + printable(J::dump(got)));
    };
    text("dump", J::dump(v));
    T appended(1, C('>'));
    J::dump(appended, v);
    text("dump appending", appended.substr(1));
    std::basic_ostringstream<C> os, os2;
    J::dump(os, v);
    text("dump to a stream", os.str());
    os2 << J::wrap(v);
    text("a wrapped value inserted", os2.str());
    text("dump with an option", J::dump(v, { J::template serializer_type<C>::with_unicode_escaping(false) }));
    value("parse", [&] { return V(J::parse(want)); });
    value("parse into a used value", [&] { V u(k); J::parse(u, want); return u; });
    value("parse of a stream", [&] { std::basic_istringstream<C> is(want); return V(J::parse(is)); });
    value("a wrapped value extracted", [&] { std::basic_istringstream<C> is(want); V u; auto w = J::wrap(u); is >> std::noskipws >> w; return u; });
    if (want.find(C(0)) == want.npos)
        value("parse of a C string", [&] { return V(J::parse(want.c_str())); });
    if (x.size() + k.size() >= 3)
        c.nontrivial(eng::hash_bytes(want.data(), want.size() * sizeof(C)) + sizeof(C));
}
}  // namespace

void characters(Src& s, Ctx& c)
{
    if (s.chance(1, 8))
    {
        if (s.flip())
            return as_is<configor::basic_json<value_tplargs, enc_::ignore>>(s, c);
        return as_is<configor::basic_json<wvalue_tplargs, enc_::ignore>>(s, c);
    }
#ifdef REDUCED
    return suite<configor::basic_json<value_tplargs, enc_::utf8>, char>(s, c, "UTF-8 by name", Sorted, true);
#else
    switch (s.draw(5))
    {
    case 0:
        return suite<configor::basic_json<value_tplargs, enc_::utf8>, char>(s, c, "UTF-8 by name", Sorted, true);
    case 1:
        return suite<configor::basic_json<wvalue_tplargs, enc_::utf32>, wchar_t>(s, c, "UTF-32 by name", Sorted, true);
    case 2:
        return suite<configor::basic_json<Char<char16_t>>, char>(s, c, "char16_t", Sorted, false);
    case 3:
        return suite<configor::basic_json<Char<char32_t>>, char>(s, c, "char32_t", Sorted, false);
    default:
        return suite<configor::basic_json<Char<char16_t>>, wchar_t>(s, c, "char16_t with wide text", Sorted, false);
    }
#endif
}
}  // namespace c19
#endif
