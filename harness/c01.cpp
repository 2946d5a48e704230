// C01: what is dumped is read back as the same value.
#include "lib.hpp"
using namespace lib;

PROPERTY_INFO("C01", "a case is non-trivial if the value has at least two nodes or is a float, a long string, or a string or an integer "
                     "of at least 3 characters; cases are distinct by the structural hash of the value and the dump options");

namespace
{
// floats that are integers below 2^63 must be exact whatever the precision
void integral_exact(const M& want, const M& got, const std::string& text)
{
    if (want.k == M::Flt && std::floor(want.f) == want.f && std::fabs(want.f) < 9.2e18 && !flt_close(want.f, got.f, Tol(1e-12)))
        fail("an integral float is not exact: " + show(want) + " came back as " + show(got) + "\n  text: " + text);
    for (size_t i = 0; i < want.a.size(); ++i)
        integral_exact(want.a[i], got.a[i], text);
    for (auto& x : want.o)
        integral_exact(x.second, got.o.at(x.first), text);
}

template <class J>
void roundtrip(Src& s, Ctx& c, bool scalars, bool large = false)
{
    using V  = typename J::value;
    using C  = typename V::char_type;
    M m;
    if (large)
        m = gen_long(s);
    else if (scalars)
        m = gen_scalar(s);
    else
        m = gen_tree(s);
    DOpt o = gen_dopt(s, m);
    if (c.verbose())
        c.note((sizeof(C) == 1 ? "json " : "wjson ") + o.show() + " value=" + show(m));
    V                       v    = build<V>(m);
    typename V::string_type text = o.key() == DOpt().key() ? J::dump(v) : dump_with<J, C>(v, o);
    Read r = reading([&] { return J::parse(text); });
    expect_read(r, m, "parse(dump(v))", printable(text), o.tol());
    integral_exact(m, r.m, printable(text));
    c.inner();

    // the value is unchanged by dumping it, and equal by the library's own comparison if there are no floats to round
    std::string d = diff(m, extract(v), Tol(0));
    if (!d.empty())
        fail("dump changed the value: " + d);
    if (!has_kind(m, M::Flt))
    {
        V back = J::parse(text);
        REQUIRE(back == v);
        REQUIRE(!(back != v));
        // once read, the text is a fixed point
        REQUIRE((dump_with<J, C>(back, o) == text));
        c.inner(2);
    }
    c.label(kind_name(m.k));
    bool nt = nodes(m) >= 2 || m.k == M::Flt || m.s.size() >= 3 || m.i > 99 || m.i < -99;
    if (nt)
        c.nontrivial(hash(m) * 31 + o.key() * 8 + sizeof(C));
    if (has_kind(m, M::Flt))
        c.label("has float");
    if (needs_escape(m))
        c.label("needs escapes or non-ASCII");
    if (nodes(m) >= 100)
        c.label("100 nodes or more");
}
}  // namespace

PROP(narrow_trees, 120000, 400000)
{
    roundtrip<json>(s, c, false);
}
PROP(narrow_scalars, 150000, 500000)
{
    roundtrip<json>(s, c, true);
}
PROP(wide_trees, 50000, 200000)
{
    roundtrip<wjson>(s, c, false);
}
PROP(wide_scalars, 50000, 200000)
{
    roundtrip<wjson>(s, c, true);
}

PROP(large, 240, 6000)
{
    if (s.chance(1, 4))
        roundtrip<wjson>(s, c, false, true);
    else
        roundtrip<json>(s, c, false, true);
}

// the inputs of the defects found here and repaired
PROP_ENUM(regressions, 14, 14)
{
    M m;
    switch (index)
    {
    case 0:
        m = M::str(U{ 1 });
        break;
    case 1:
        m = M::str(U{ 0xE9 });
        break;
    case 2:
        m = M::integer(INT64_MIN);
        break;
    case 3:
        m = M::integer(INT64_MAX);
        break;
    case 4:
        m = M::flt(1e300);
        break;
    case 5:
        m = M::flt(9223372036854775808.0);
        break;
    case 6:
        m = M::flt(123456.7);
        break;
    case 7:
        m = M::flt(999999.5);
        break;
    case 8:
        m = M::flt(-9223372036854775808.0);
        break;
    case 9:
        m = M::str(U{ 0 });
        break;
    case 10:
        m = M::flt(1e19);
        break;
    case 11:
        m = M::str(U{ 0x1F, 0x7F, 0x80, 0xFFF, 0x1000 });
        break;
    case 12:
        m = M::obj();
        m.o[U{ 1, 0xE9 }] = M::flt(-1e19);
        break;
    default:
        m = M::flt(9007199254740993.0);
        break;
    }
    for (int e = 0; e < 2; ++e)
    {
        auto text = json::dump(build<json::value>(m), { json::serializer::with_unicode_escaping(e == 1) });
        c.note(show(m) + " -> " + printable(text));
        Read r = reading([&] { return json::parse(text); });
        expect_read(r, m, "parse(dump(v))", printable(text), Tol(1e-5));
    }
    c.nontrivial(index);
}
