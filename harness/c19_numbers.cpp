// C19: other number types
#define ENGINE_NO_MAIN
#ifdef OMITTED
#include "engine.hpp"
namespace c19
{
void numbers(eng::Src&, eng::Ctx&)
{
    throw eng::Discard();
}
void floats(eng::Src&, eng::Ctx&)
{
    throw eng::Discard();
}
}  // namespace c19
#else
#include "c19.hpp"

namespace c19
{
namespace
{
template <class I, class R, class Base = configor::value_tplargs>
struct Num : Base
{
    using integer_type = I;
    using float_type   = R;
};
template <class I, class R>
using J = configor::basic_json<Num<I, R>>;
using W = configor::basic_json<Num<int32_t, float, configor::wvalue_tplargs>>;

// a float of any type is kept as it is
template <class J, class F>
void float_type(Src& s, Ctx& c, const char* name)
{
    using V = typename J::value;
    using C = typename V::char_type;
    using Z = typename J::template serializer_type<C>;
    std::vector<F> x;
    do
    {
        F      f = static_cast<F>(1);
        size_t n = 0;
        switch (s.draw(5))
        {
        case 4:  // integral, with all the digits the type has
            f = static_cast<F>(static_cast<int64_t>(s.draw(uint64_t(1) << 62) >> s.draw(62)));
            break;
        case 0:  // any mantissa
            f = std::ldexp(static_cast<F>(s.draw(uint64_t(1) << 63)), static_cast<int>(s.draw(120)) - 100);
            break;
        case 1:  // next to a number
            f = static_cast<F>(static_cast<long>(s.draw(2000)) - 1000) / static_cast<F>(1 + s.draw(16));
            for (size_t k = static_cast<size_t>(s.draw(4)); n < k; ++n)
                f = std::nextafter(f, std::numeric_limits<F>::infinity());
            break;
        case 2:
            f = static_cast<F>(1) / static_cast<F>(1 + s.draw(1000000));
            break;
        default:
            f = std::ldexp(static_cast<F>(1) / static_cast<F>(3), static_cast<int>(s.draw(100)) - 50);
        }
        if (s.flip())
            f = -f;
        x.push_back(f);
    } while (s.more(x.size(), 5, 2));
    const auto& what = name;
    for (F f : x)
    {
        c.note(fmt("%s: %.25Lg", name, static_cast<long double>(f)));
        const F g = std::nextafter(f, std::numeric_limits<F>::infinity());
        V       v(f), w, u;
        w           = f;
        u[enc<V>(U"a")] = f;
        const V cp(v);
        REQUIRE_MSG(v.is_floating() && w.is_floating() && cp.is_floating(), what);
        REQUIRE_MSG(v.template get<F>() == f && w.template get<F>() == f && cp.template get<F>() == f && u[enc<V>(U"a")].template get<F>() == f, what);
        REQUIRE_MSG(v.template get<const F&>() == f && *v.template get_ptr<F*>() == f && static_cast<F>(v) == f, what);
        F got = F(0);
        REQUIRE_MSG(v.get(got) && got == f, what);
        REQUIRE_MSG(v == w && v == cp && v == f && !(v != f) && v < V(g) && V(g) > v && v <= V(g) && !(v >= V(g)) && v != V(g) && !(v < cp), what);
        // and written as the C library would
        if (std::floor(f) != f)
        {
            const int p = static_cast<int>(s.range(1, 22));
            char      e[64];
            std::snprintf(e, sizeof e, "%.*Le", p, static_cast<long double>(f));
            auto        t = J::dump(v, { Z::with_precision(p, std::ios_base::scientific) });
            std::string n(t.begin(), t.end());
            REQUIRE_MSG(n == e, n + " instead of " + e);
        }
        else if (std::fabs(f) < static_cast<F>(4e18))
        {
            const int p = static_cast<int>(s.draw(12));
            auto        t = J::dump(v, { Z::with_precision(p, s.flip() ? std::ios_base::scientific : std::ios_base::fixed) });
            std::string n(t.begin(), t.end());
            const auto  e = std::to_string(static_cast<int64_t>(f)) + ".0";
            REQUIRE_MSG(n == e, n + " instead of " + e);
            const F back = J::parse(t).template get<F>();
            REQUIRE_MSG(back == f || std::fabs(back - f) <= std::fabs(f) * 32 * std::numeric_limits<F>::epsilon() * (sizeof(F) < 16), n + fmt(" read as %.25Lg", static_cast<long double>(back)));
        }
        c.inner();
    }
    V              v(x);
    std::vector<F> y = v.template get<std::vector<F>>();
    REQUIRE_MSG(x == y, what);
    uint64_t h = eng::hash_str(name);
    for (F f : x)
        h = h * 31 + std::hash<F>()(f);
    c.nontrivial(h);
}
}  // namespace

void floats(Src& s, Ctx& c)
{
    switch (s.draw(3))
    {
    case 0:
        return float_type<J<int64_t, long double>, long double>(s, c, "int64_t/long double");
    case 1:
        return float_type<J<int32_t, float>, float>(s, c, "int32_t/float");
    default:
        return float_type<W, float>(s, c, "wide int32_t/float");
    }
}

void numbers(Src& s, Ctx& c)
{
#ifdef REDUCED
    return suite<J<int32_t, double>, char>(s, c, "int32_t/double", Sorted, true);
#else
    switch (s.draw(8))
    {
    case 0:
        return suite<J<int32_t, double>, char>(s, c, "int32_t/double", Sorted, true);
    case 1:
        return suite<J<int32_t, float>, char>(s, c, "int32_t/float", Sorted, false);
    case 2:
        return suite<J<int16_t, double>, char>(s, c, "int16_t/double", Sorted, true);
    case 3:
        return suite<J<uint64_t, double>, char>(s, c, "uint64_t/double", Sorted, false);
    case 4:
        return suite<J<int64_t, long double>, char>(s, c, "int64_t/long double", Sorted, true);
    case 5:
        return suite<W, wchar_t>(s, c, "wide int32_t/float", Sorted, false);
    case 6:
        return suite<J<int8_t, double>, char>(s, c, "int8_t/double", Sorted, true);
    default:
        return suite<J<uint32_t, float>, char>(s, c, "uint32_t/float", Sorted, false);
    }
#endif
}
}  // namespace c19
#endif
