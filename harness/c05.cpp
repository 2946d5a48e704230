// C05: numbers are read and written with the right value and kind.
#include "lib.hpp"

#include <sstream>
using namespace lib;

PROPERTY_INFO("C05", "a case is non-trivial if the literal has at least two characters (reading) or the number is not a single digit (writing); "
                     "cases are distinct by the literal, or by the number with notation and precision");

namespace
{
struct Place
{
    const char *pre, *post;
    int         kind;  // 0 bare, 1 element number n, 2 member "a"
    size_t      n;
};
const Place places[] = { { "", "", 0, 0 },         { " ", "\n", 0, 0 },      { "[", "]", 1, 0 },         { "[1,", "]", 1, 1 },           { "[", ",-2.5e1]", 1, 0 }, { "[-0.5,", " , 3]", 1, 1 },
                         { "{\"a\":", "}", 2, 0 }, { "{\"b\":1e2,\"a\":", ",\"c\":-1}", 2, 0 }, { "/**/", "//", 0, 0 },  { "[-7,9.25,12,", "/**/]", 1, 3 } };

// the number's place in the value, read through the public accessors
template <class J>
M number_of(const typename J::value& v, const Place& p)
{
    if (p.kind == 1)
        return extract(v[static_cast<size_t>(p.n)]);
    if (p.kind == 2)
        return extract(v[enc<typename J::value>(U"a")]);
    return extract(v);
}

template <class J>
M read_number(const std::string& lit, const Place& p)
{
    std::string t    = p.pre + lit + p.post;
    auto        text = chars<typename J::value::char_type>::enc(ascii(t));
    try
    {
        return number_of<J>(J::parse(text), p);
    }
    catch (const configor::configor_deserialization_error& e)
    {
        fail("a number was rejected: " + t + "\n  with: " + e.what());
    }
}

bool int_fits(bool neg, const std::string& d)
{
    return d.size() < 19 || (d.size() == 19 && d <= (neg ? "9223372036854775808" : "9223372036854775807"));
}

void check_int(const M& got, bool neg, const std::string& d, const std::string& shown)
{
    if (int_fits(neg, d))
    {
        uint64_t v = 0;
        for (char ch : d)
            v = v * 10 + static_cast<uint64_t>(ch - '0');
        int64_t want = static_cast<int64_t>(neg ? 0 - v : v);
        if (got.k != M::Int || got.i != want)
            fail("literal " + shown + ": expected the integer " + std::to_string(want) + ", got " + kind_name(got.k) + " " + show(got));
        return;
    }
    double want = std::strtod(((neg ? "-" : "") + d).c_str(), nullptr);
    if (got.k != M::Flt || !(std::fabs(got.f - want) <= std::fabs(want) * 1e-12))
        fail("literal " + shown + fmt(": expected the float %.17g, got ", want) + kind_name(got.k) + " " + show(got));
}

void check_float(const M& got, const std::string& lit, size_t mant_digits)
{
    if (got.k != M::Flt)
        fail("literal " + lit + ": expected a float, got " + kind_name(got.k) + " " + show(got));
    double want = std::strtod(lit.c_str(), nullptr);
    if (std::isnan(got.f))
        fail("literal " + lit + ": got NaN");
    size_t e    = lit.find_first_of("eE");
    double mant = std::fabs(std::strtod(lit.substr(0, e).c_str(), nullptr));
    if (mant_digits > 300)
        return;
    if (mant == 0)
    {
        if (got.f != 0)
            fail("literal " + lit + ": zero was read as " + show(got));
        return;
    }
    if (mant < 1e-250)
        return;
    // beyond 1e+-280 the power itself leaves the range, which only ordinary mantissas are claimed to survive
    long ex = e == std::string::npos ? 0 : std::strtol(lit.c_str() + e + 1, nullptr, 10);
    if ((ex > 280 || ex < -280) && ex < 600 && ex > -600 && !(mant >= 1e-10 && mant <= 1e15))
        return;
    if (std::fabs(want) > 1e290)
    {
        if (!(std::fabs(got.f) > 0.999e290) || (got.f < 0) != (want < 0))
            fail("literal " + lit + fmt(": expected about %g, got ", want) + show(got));
    }
    else if (std::fabs(want) < 1e-290)
    {
        if (!(std::fabs(got.f) < 1.001e-290))
            fail("literal " + lit + fmt(": expected about %g, got ", want) + show(got));
    }
    else if (!(std::fabs(got.f - want) <= std::fabs(want) * 1e-12))
        fail("literal " + lit + fmt(": expected the float %.17g, got ", want) + show(got));
}

std::string digits(Src& s, size_t n)
{
    std::string d;
    for (size_t i = 0; i < n; ++i)
        d += s.chance(1, 3) ? (s.flip() ? '0' : '9') : static_cast<char>('0' + s.draw(10));
    return d;
}

std::string int_text(double f)
{
    return fmt("%.0f", f);
}

// what the notation and precision ask for
void check_text(const std::string& got, double f, const DOpt& o)
{
    std::string want;
    if (f == std::floor(f) && std::fabs(f) < 9223372036854775808.0)
    {
        want = int_text(f) + ".0";
        if (f == 0 && (got == "0.0" || got == "-0.0"))
            return;
    }
    else
    {
        want = fmt(o.mode == 1 ? "%.*f" : o.mode == 2 ? "%.*e" : "%.*g", o.mode ? o.prec : 6, f);
        if (want.find_first_of(".e") == std::string::npos)
            want += ".0";
    }
    if (got != want)
        fail(fmt("%.17g was written as \"", f) + printable(got) + "\", expected \"" + want + "\"");
}

DOpt notation(Src& s)
{
    DOpt o;
    o.mode = static_cast<int>(s.draw(4));
    if (o.mode)
        o.prec = static_cast<int>(s.chance(1, 30) ? 22 + s.draw(400) : s.draw(22));
    return o;
}

template <class J>
std::string narrow(const std::basic_string<typename J::value::char_type>& t)
{
    U u;
    if (!chars<typename J::value::char_type>::dec(t, u))
        fail("the text of a number is not unicode");
    return utf8(u);
}

// the notation given by the state of the stream
template <class J, class T>
std::string through_stream(const typename J::value& v, const DOpt& o, bool hex, bool wrapped)
{
    std::basic_ostringstream<T> os;
    if (o.mode)
    {
        os.precision(o.prec);
        os.setf(hex ? std::ios_base::fixed | std::ios_base::scientific : o.flags(), std::ios_base::floatfield);
    }
    if (wrapped)
        os << J::wrap(v);
    else
        J::dump(os, v);
    return narrow<J>(os.str());
}
}  // namespace

PROP(integer_literals, 360000, 1500000)
{
    static const char* const edge[] = { "9223372036854775807", "9223372036854775808", "18446744073709551615", "4294967296", "999999999999999999", "922337203685477580", "10000000000000000000", "2147483648" };
    bool        neg = s.flip();
    std::string d;
    if (s.chance(1, 3))
    {
        d = s.pick(edge);
        // change some digits
        size_t n = 0;
        while (s.more(n, 3, 1))
        {
            d[static_cast<size_t>(s.draw(d.size()))] = static_cast<char>('0' + s.draw(10));
            ++n;
        }
        if (s.chance(1, 6))
            d += static_cast<char>('0' + s.draw(10));
    }
    else
        d = digits(s, static_cast<size_t>(s.range(1, s.chance(1, 20) ? 280 : 26)));
    d.erase(0, std::min(d.find_first_not_of('0'), d.size() - 1));
    const Place& p    = s.pick(places);
    bool         w    = s.chance(1, 4);
    std::string  shown = (neg ? "-" : "") + d;
    c.note((w ? "wjson: " : "json: ") + (p.pre + shown + p.post));
    check_int(w ? read_number<wjson>(shown, p) : read_number<json>(shown, p), neg, d, shown);
    c.inner();
    c.label(int_fits(neg, d) ? "fits int64" : "beyond int64");
    if (shown.size() > 1)
        c.nontrivial(eng::hash_str(shown));
}

PROP(float_literals, 360000, 1500000)
{
    std::string lit = s.flip() ? "-" : "";
    std::string d;
    size_t      n = static_cast<size_t>(s.range(1, s.chance(1, 12) ? 300 : 24));
    d             = s.chance(1, 5) ? "0" : digits(s, n);
    d.erase(0, std::min(d.find_first_not_of('0'), d.size() - 1));
    lit += d;
    size_t count = d.size();
    bool   frac  = s.flip() || d == "0";
    if (frac)
    {
        size_t      z = s.chance(1, 3) ? static_cast<size_t>(s.draw(s.chance(1, 8) ? 240 : 12)) : 0;
        std::string x = std::string(z, '0') + digits(s, static_cast<size_t>(s.range(1, s.chance(1, 12) ? 200 : 24)));
        lit += "." + x;
    }
    if (!frac || s.flip())
    {
        static const unsigned edge[] = { 0, 1, 9, 10, 15, 16, 17, 22, 23, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 290, 307, 308, 309, 323, 324, 325, 400, 999, 1023, 1024, 4096 };
        static const char* const big[] = { "65536", "65537", "2147483648", "4294967295", "4294967296", "4294967297", "4294967306", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "100000000", "1000000000" };
        std::string x = s.chance(1, 4) ? std::to_string(s.pick(edge)) : s.chance(1, 8) ? std::string(s.pick(big)) : std::to_string(s.draw(s.chance(1, 3) ? 320 : 30));
        unsigned sign = static_cast<unsigned>(s.draw(3));
        if (x[0] == '0' && sign == 0)
            sign = 1;
        if (sign && s.chance(1, 6))
            x = std::string(static_cast<size_t>(s.range(1, 4)), '0') + x;
        lit += (s.flip() ? "e" : "E") + std::string(sign == 1 ? "+" : sign == 2 ? "-" : "") + x;
        if (d == "0" && !frac)
            throw eng::Discard();
    }
    const Place& p = s.pick(places);
    bool         w = s.chance(1, 4);
    c.note((w ? "wjson: " : "json: ") + (p.pre + lit + p.post));
    check_float(w ? read_number<wjson>(lit, p) : read_number<json>(lit, p), lit, count);
    c.inner();
    double want = std::fabs(std::strtod(lit.c_str(), nullptr));
    c.label(want == 0 ? "zero or underflow" : want > 1e290 ? "huge" : want < 1e-290 ? "tiny" : "in the accuracy domain");
    c.nontrivial(eng::hash_str(lit));
}

// all integers around the powers of two and ten
PROP_ENUM(boundaries, 2 * 128 * 9, 2 * 128 * 9)
{
    bool     neg = index & 1;
    unsigned k   = static_cast<unsigned>(index / 2 % 128);
    int      dt  = static_cast<int>(index / 256) - 4;
    // decimal text of 2^k + dt or 10^(k-64) + dt
    __float128 v;
    if (k < 64)
    {
        v = 1;
        for (unsigned i = 0; i < k; ++i)
            v *= 2;
    }
    else
    {
        if (k - 64 > 27)
            return;
        v = 1;
        for (unsigned i = 64; i < k; ++i)
            v *= 10;
    }
    v += dt;
    if (v < 0)
        return;
    std::string d;
    do
    {
        __float128 q = v / 10;
        // floor
        unsigned __int128 qi = static_cast<unsigned __int128>(q);
        unsigned __int128 vi = static_cast<unsigned __int128>(v);
        d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(vi - qi * 10)));
        v = static_cast<__float128>(qi);
    } while (v > 0);
    std::string shown = (neg ? "-" : "") + d;
    c.note(shown);
    for (auto& p : places)
    {
        check_int(read_number<json>(shown, p), neg, d, shown);
        check_int(read_number<wjson>(shown, p), neg, d, shown);
        // and as a float
        check_float(read_number<json>(shown + ".0", p), shown + ".0", d.size());
        check_float(read_number<json>(shown + ".5e-1", p), shown + ".5e-1", d.size());
        c.inner(4);
    }
    if (int_fits(neg, d))
    {
        int64_t i = static_cast<int64_t>(std::strtoll(shown.c_str(), nullptr, 10));
        REQUIRE(json::dump(json::value(i)) == std::to_string(i));
        REQUIRE(narrow<wjson>(wjson::dump(wjson::value(i))) == std::to_string(i));
    }
    c.nontrivial(eng::hash_str(shown));
}

PROP(write_integers, 60000, 800000)
{
    int64_t i = gen_int(s);
    DOpt    o = notation(s);
    bool    w = s.chance(1, 4);
    c.note(std::to_string(i) + " " + o.show());
    std::string want = std::to_string(i);
    std::string got  = w ? narrow<wjson>(dump_with<wjson, wchar_t>(wjson::value(i), o)) : dump_with<json, char>(json::value(i), o);
    if (got != want)
        fail(want + " was written as \"" + printable(got) + "\"");
    got = w ? through_stream<wjson, wchar_t>(wjson::value(i), o, s.flip(), s.flip()) : through_stream<json, char>(json::value(i), o, s.flip(), s.flip());
    if (got != want)
        fail(want + " was written to a stream as \"" + printable(got) + "\"");
    c.inner(2);
    if (want.size() > 1)
        c.nontrivial(eng::hash_str(want));
}

PROP(write_floats, 360000, 1500000)
{
    double f = gen_flt(s);
    DOpt   o = notation(s);
    bool   w = s.chance(1, 4);
    c.note(fmt("%.17g ", f) + o.show() + (w ? " wide" : ""));
    check_text(w ? narrow<wjson>(dump_with<wjson, wchar_t>(wjson::value(f), o)) : dump_with<json, char>(json::value(f), o), f, o);
    bool wrapped = s.flip();
    if (o.mode)
        c.label("asked notation");
    check_text(w ? through_stream<wjson, wchar_t>(wjson::value(f), o, false, wrapped) : through_stream<json, char>(json::value(f), o, false, wrapped), f, o);
    // in company: one float's notation does not depend on its neighbours
    json::value a = json::array{ 7, f, "x", f, -2.5, json::object{ { "k", f } } };
    std::string t = dump_with<json, char>(a, o);
    size_t      b = t.find(','), e = t.find(",\"x\",");
    REQUIRE(e != std::string::npos && b < e);
    check_text(t.substr(b + 1, e - b - 1), f, o);
    size_t b2 = e + 5, e2 = t.find(',', b2);
    check_text(t.substr(b2, e2 - b2), f, o);
    size_t b3 = t.find("{\"k\":") + 5;
    check_text(t.substr(b3, t.size() - 2 - b3), f, o);
    c.inner(5);
    c.nontrivial(eng::hash_bytes(&f, sizeof f) * 31 + o.key());
}

// hexfloat is a notation JSON does not have
PROP(never_hexadecimal, 20000, 200000)
{
    double f = gen_flt(s);
    DOpt   o;
    o.mode = 3;
    o.prec = static_cast<int>(s.draw(18));
    c.note(fmt("%.17g hexfloat precision %d", f, o.prec));
    const auto hexf = std::ios_base::fixed | std::ios_base::scientific;
    unsigned   how  = static_cast<unsigned>(s.draw(3));
    std::string t   = how == 0 ? json::dump(json::value(f), { json::serializer_type<char>::with_precision(o.prec, hexf) }) :
                      how == 1 ? through_stream<json, char>(json::value(f), o, true, true) :
                                 through_stream<json, char>(json::value(f), o, true, false);
    if (t.find_first_not_of("0123456789+-.e") != std::string::npos)
        fail(fmt("%.17g was written as \"", f) + printable(t) + "\"");
    double g = std::strtod(t.c_str(), nullptr);
    Tol    tol = o.tol();
    if (!(std::fabs(g - f) <= std::fabs(f) * tol.rel + tol.abs))
        fail(fmt("%.17g was written as \"", f) + printable(t) + "\"");
    c.inner();
    c.nontrivial(eng::hash_bytes(&f, sizeof f) * 31 + static_cast<unsigned>(o.prec));
}

static const char* const NUMBERS[] = { "9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999", "-99999999999999999999", "10000000000000000000", "92233720368547758070",
                                       "1e4294967296", "1e4294967297", "-1e4294967306", "1e18446744073709551617", "1e-4294967296", "1.5e-4294967297", "0.0e999", "-0.0e4294967296", "0.0e-999", "1e999",
                                       "-1e999", "1e-999", "1.7e308", "2.5e-3", "1e22", "1e23", "123456789012345678901234567890", "9223372036854775807.0", "9223372036854775808.5", "0.1", "0.3", "1E+2", "1e-0", "1e+00" };
PROP_ENUM(pinned, sizeof(NUMBERS) / sizeof(NUMBERS[0]), sizeof(NUMBERS) / sizeof(NUMBERS[0]))
{
    std::string t = NUMBERS[index];
    c.note(t);
    for (auto& p : places)
    {
        M m = read_number<json>(t, p);
        if (t.find_first_of(".eE") == std::string::npos)
            check_int(m, t[0] == '-', t.substr(t[0] == '-'), t);
        else
            check_float(m, t, 30);
        c.inner();
    }
    c.nontrivial(eng::hash_str(t));
}
