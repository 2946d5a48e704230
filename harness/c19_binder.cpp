// C19: another binder, deciding how C++ types are converted
#define ENGINE_NO_MAIN
#ifdef OMITTED
#include "engine.hpp"
namespace c19
{
void binders(eng::Src&, eng::Ctx&)
{
    throw eng::Discard();
}
}  // namespace c19
#else
#include "c19.hpp"

#include <forward_list>
#include <map>
#include <set>
#include <sstream>
#include <vector>

namespace c19
{
namespace
{
// a type that cannot be made without a value
struct Temp
{
    int t;
    explicit Temp(int x)
        : t(x)
    {
    }
    bool operator==(const Temp& o) const
    {
        return t == o.t;
    }
    bool operator<(const Temp& o) const
    {
        return t < o.t;
    }
};

// int as a string "#n", float as an object { "f": x }, Temp as an array of one; the others as usual
template <class T>
struct Binder : configor::value_binder<T>
{
};
template <>
struct Binder<int>
{
    template <class V>
    static void to_value(V& c, int n)
    {
        c = enc<V>(ascii("#" + std::to_string(n)));
    }
    template <class V>
    static void from_value(const V& c, int& n)
    {
        const std::string t = utf8(extract(c).s);
        if (!c.is_string() || t.size() < 2 || t[0] != '#')
            throw configor::configor_type_error("not a tagged integer");
        n = static_cast<int>(std::stol(t.substr(1)));
    }
};
template <>
struct Binder<float>
{
    template <class V>
    static void to_value(V& c, float x)
    {
        V in;
        configor::value_binder<float>::to_value(in, float(x));
        c                  = configor::value_constant::object;
        c[enc<V>(U"f")] = in;
    }
    template <class V>
    static void from_value(const V& c, float& x)
    {
        configor::value_binder<float>::from_value(c.at(enc<V>(U"f")), x);
    }
};
template <>
struct Binder<Temp>
{
    template <class V>
    static void to_value(V& c, const Temp& x)
    {
        c = std::vector<int>{ x.t };
    }
    template <class V>
    static Temp from_value(const V& c)
    {
        return Temp(c[static_cast<size_t>(0)].template get<int>());
    }
};

template <class Base>
struct Bound : Base
{
    template <class T>
    using binder_type = Binder<T>;
};
using J = configor::basic_json<Bound<configor::value_tplargs>>;
using W = configor::basic_json<Bound<configor::wvalue_tplargs>>;

struct Fields
{
    int                        a = 0;
    float                      b = 0;
    std::vector<int>           c;
    std::map<std::string, int> d;
    CONFIGOR_BIND(J::value, Fields, REQUIRED(a), REQUIRED(b, "bee"), OPTIONAL(c), OPTIONAL(d))
};

M tag(int n)
{
    return M::str(ascii("#" + std::to_string(n)));
}
M tagf(float x)
{
    M m        = M::obj();
    m.o[U"f"] = M::flt(static_cast<double>(x));
    return m;
}
M tagt(const Temp& x)
{
    M m = M::arr();
    m.a.push_back(tag(x.t));
    return m;
}
template <class It>
M list_of(It b, It e)
{
    M m = M::arr();
    for (; b != e; ++b)
        m.a.push_back(tag(*b));
    return m;
}

void same(const M& want, const M& got, const char* what)
{
    const std::string d = diff(want, got, Tol(0));
    if (!d.empty())
        fail(std::string(what) + ": " + show(got) + ", expected " + show(want) + "\n  " + d);
}

// to the value, back, and by every other way
template <class K, class T>
void through(Ctx& c, const T& x, const M& m, const T& other, const char* what)
{
    using V = typename K::value;
    using C = typename V::char_type;
    V v(x), w, o, a;
    w                  = x;
    o[enc<V>(U"k")] = x;
    a.push_back(x);
    a.emplace_back(x);
    const V& cv = v;
    same(m, extract(v), what);
    same(m, extract(w), what);
    same(m, extract(o[enc<V>(U"k")]), what);
    same(m, extract(a[static_cast<size_t>(1)]), what);
    REQUIRE_MSG(cv.template get<T>() == x, std::string(what) + " got");
    T y = other;
    REQUIRE_MSG(cv.get(y) && y == x, std::string(what) + " got by reference argument");
    T z = cv;
    REQUIRE_MSG(z == x, std::string(what) + " converted implicitly");
    // nested
    V n(std::list<T>{ x, other });
    REQUIRE_MSG(n.size() == 2 && n.template get<std::list<T>>() == (std::list<T>{ x, other }), std::string(what) + " in a list");
    same(m, extract(n[static_cast<size_t>(0)]), what);
    V p(std::make_shared<T>(x));
    same(m, extract(p), what);
    REQUIRE_MSG(*p.template get<std::unique_ptr<T>>() == x, std::string(what) + " by pointer");
    std::map<typename V::string_type, T> mp;
    mp.emplace(enc<V>(U"k"), x);
    V q(mp);
    same(m, extract(q[enc<V>(U"k")]), what);
    REQUIRE_MSG((q.template get<std::map<typename V::string_type, T>>() == mp), std::string(what) + " in a map");
    // streams
    std::basic_ostringstream<C> os;
    os << K::wrap(x);
    REQUIRE_MSG(os.str() == K::template dump<C>(v), std::string(what) + " inserted");
    std::basic_istringstream<C> is(os.str());
    T                           e   = other;
    auto                        wr = K::wrap(e);
    is >> wr;
    REQUIRE_MSG(e == x, std::string(what) + " extracted");
    c.inner(14);
}

template <class K>
void binder(Src& s, Ctx& c)
{
    using V = typename K::value;
    const int n = static_cast<int>(gen_int(s)), k = static_cast<int>(gen_int(s));
    uint64_t  key = eng::hash_str("binder", sizeof(typename V::char_type));
    key           = key * 31 + static_cast<uint64_t>(n);
    switch (s.draw(6))
    {
    case 0:
    {
        c.note(fmt("int %d", n));
        through<K>(c, n, tag(n), k, "int");
        V v(n);
        REQUIRE(v == n && n == v && !(v != n) && !(v < n) && v <= n && n >= v && (v == k) == (n == k));
        V w = typename K::array{ n, k };
        same(list_of(&n, &n + 1), extract(V(typename K::array{ n })), "array literal");
        REQUIRE(w.size() == 2 && w[static_cast<size_t>(1)] == k);
        V o = typename K::object{ { enc<V>(U"a"), n }, { enc<V>(U"b"), V(k) } };
        same(tag(n), extract(o[enc<V>(U"a")]), "object literal");
        break;
    }
    case 1:
    {
        const float x = static_cast<float>(s.draw(1000)) / 8;
        c.note(fmt("float %g", static_cast<double>(x)));
        through<K>(c, x, tagf(x), 2.5f, "float");
        key = key * 31 + static_cast<uint64_t>(x * 8);
        break;
    }
    case 2:
        c.note(fmt("Temp %d", n));
        through<K>(c, Temp(n), tagt(Temp(n)), Temp(k), "a type without default constructor");
        break;
    case 3:
    {
        std::vector<int> v;
        do
            v.push_back(static_cast<int>(gen_int(s)));
        while (s.more(v.size(), 9, 3));
        c.note(fmt("%zu integers", v.size()));
        const M m = list_of(v.begin(), v.end());
        through<K>(c, v, m, std::vector<int>{ k }, "vector");
        through<K>(c, std::deque<int>(v.begin(), v.end()), m, std::deque<int>{ k, 2 }, "deque");
        through<K>(c, std::forward_list<int>(v.begin(), v.end()), m, std::forward_list<int>{ k, 3 }, "forward list");
        const std::set<int> st(v.begin(), v.end());
        through<K>(c, st, list_of(st.begin(), st.end()), std::set<int>{ k }, "set");
        for (int x : v)
            key = key * 31 + static_cast<uint64_t>(x);
        break;
    }
    case 4:
    {
        // what is no tagged integer
        M m = s.flip() ? gen_scalar(s) : M::integer(n);
        if (m.k == M::Str && m.s.size() > 1 && m.s[0] == U'#')
            m.s[0] = U'x';
        c.note("not an integer: " + show(m));
        const V v     = build<V>(m);
        bool    threw = false;
        try
        {
            v.template get<int>();
        }
        catch (const configor::configor_type_error&)
        {
            threw = true;
        }
        REQUIRE_MSG(threw, "get<int>() of " + show(m));
        int i = 5;
        REQUIRE_MSG(!v.get(i) && i == 5, "get(int) of " + show(m));
        same(m, extract(v), "the source");
        key = hash(m, key);
        break;
    }
    default:
    {
        Fields f;
        f.a = n;
        f.b = static_cast<float>(s.draw(1000)) / 8;
        for (auto q = s.draw(4); q; --q)
        {
            f.c.push_back(static_cast<int>(gen_int(s)));
            f.d[std::to_string(q)] = static_cast<int>(gen_int(s));
        }
        c.note(fmt("a bound struct with %d", n));
        M m         = M::obj();
        m.o[U"a"]   = tag(f.a);
        m.o[U"bee"] = tagf(f.b);
        if (!f.c.empty())  // empty optional fields are left out
            m.o[U"c"] = list_of(f.c.begin(), f.c.end());
        if (!f.d.empty())
            m.o[U"d"] = M::obj();
        for (auto& x : f.d)
            m.o[U"d"].o[ascii(x.first)] = tag(x.second);
        J::value v = f;
        same(m, extract(v), "a bound struct");
        Fields g = J::parse(J::dump(v));
        REQUIRE(g.a == f.a && g.b == f.b && g.c == f.c && g.d == f.d);
        c.inner(2);
        key = hash(m, key);
    }
    }
    c.nontrivial(key);
}
}  // namespace

void binders(Src& s, Ctx& c)
{
    if (s.chance(1, 3))
        return binder<W>(s, c);
    binder<J>(s, c);
}
}  // namespace c19
#endif
