// C13: typed conversions keep content and refuse wrong kinds.  Scalars, references, C arrays, user types.
#include "c13.hpp"
using namespace c13;

PROPERTY_INFO("C13", "every case whose outcome is specified is non-trivial; cases are distinct by the C++ type, the direction and the content");

namespace
{
// ---------------------------------------------------------------- references and pointers to the content

template <class V, class T>
void one_reference(V& v, M::Kind have, M::Kind want, const std::string& what)
{
    const V& cv = v;
    if (have == want)
    {
        T* p = v.template get_ptr<T*>();
        REQUIRE_MSG(p != nullptr, what);
        REQUIRE_MSG(v.template get<T*>() == p, what);
        REQUIRE_MSG(v.template get<const T*>() == p, what);
        REQUIRE_MSG(cv.template get<const T*>() == p, what);
        REQUIRE_MSG(cv.template get_ptr<const T*>() == p, what);
        REQUIRE_MSG(&v.template get<T&>() == p, what);
        REQUIRE_MSG(&v.template get<const T&>() == p, what);
        REQUIRE_MSG(&cv.template get<const T&>() == p, what);
    }
    else
    {
        REQUIRE_MSG(v.template get_ptr<T*>() == nullptr, what);
        REQUIRE_MSG(v.template get<T*>() == nullptr, what);
        REQUIRE_MSG(v.template get<const T*>() == nullptr, what);
        REQUIRE_MSG(cv.template get<const T*>() == nullptr, what);
        REQUIRE_MSG(cv.template get_ptr<const T*>() == nullptr, what);
        expect(Out::Type, outcome([&] { (void)v.template get<T&>(); }), what + " as a reference");
        expect(Out::Type, outcome([&] { (void)v.template get<const T&>(); }), what + " as a const reference");
        expect(Out::Type, outcome([&] { (void)cv.template get<const T&>(); }), what + " as a const reference of a const value");
    }
}

template <class V>
void references(Src& s, Ctx& c)
{
    M m = s.flip() ? gen_scalar(s) : small_tree(s);
    V v = build<V>(m);
    c.note(show(m));
    one_reference<V, bool>(v, m.k, M::Bool, "bool of " + show(m));
    one_reference<V, typename V::integer_type>(v, m.k, M::Int, "integer of " + show(m));
    one_reference<V, typename V::float_type>(v, m.k, M::Flt, "float of " + show(m));
    one_reference<V, typename V::string_type>(v, m.k, M::Str, "string of " + show(m));
    one_reference<V, typename V::array_type>(v, m.k, M::Arr, "array of " + show(m));
    one_reference<V, typename V::object_type>(v, m.k, M::Obj, "object of " + show(m));
    expect_same(v, m, "after asking for references");
    c.inner(6);
    c.nontrivial(hash(m, sizeof(typename V::char_type)));
}

// ---------------------------------------------------------------- C arrays and C strings

template <class V, class E, size_t N>
uint64_t c_array(Src& s, Ctx& c)
{
    E x[N], y[N];
    M m = M::arr();
    for (E& q : x)
    {
        q = Kind<V, E>::gen(s);
        m.a.push_back(Kind<V, E>::model(q));
    }
    const std::string what = fmt("C array of %zu ", N);
    c.note(what + show(m));
    V v(x);
    expect_same(v, m, what);
    V w = build<V>(small_tree(s, 4));
    w   = x;
    expect_same(w, m, what + "assigned");
    REQUIRE(v.get(y));
    REQUIRE_MSG(std::equal(x, x + N, y), what + "read back");
    return hash(m, N);
}

template <class V>
void c_arrays(Src& s, Ctx& c)
{
    uint64_t key = sizeof(typename V::char_type);
    switch (s.draw(6))
    {
    case 5:
        switch (s.draw(6))
        {
        case 0: key += c_array<V, int64_t, 17>(s, c); break;
        case 1: key += c_array<V, int, 70>(s, c); break;
        case 2: key += c_array<V, bool, 33>(s, c); break;
        case 3: key += c_array<V, typename V::string_type, 20>(s, c); break;
        case 4: key += c_array<V, double, 40>(s, c); break;
        default: key += c_array<V, int, 300>(s, c); break;
        }
        break;
    case 0:
    {
        int x[4], y[4] = { 9, 9, 9, 9 };
        M   m = M::arr();
        for (int& q : x)
        {
            q = Kind<V, int>::gen(s);
            m.a.push_back(M::integer(q));
        }
        c.note("int[4] " + show(m));
        V v(x);
        expect_same(v, m, "int[4]");
        V w = build<V>(small_tree(s, 4));
        w   = x;
        expect_same(w, m, "int[4] assigned");
        REQUIRE(v.get(y));
        REQUIRE(std::equal(x, x + 4, y));
        key = hash(m, key);
        break;
    }
    case 1:
    {
        typename V::string_type x[3], y[3];
        M                       m = M::arr();
        for (auto& q : x)
        {
            U u = gen_str(s);
            q   = enc<V>(u);
            m.a.push_back(M::str(u));
        }
        for (auto& q : y)
            q = enc<V>(U"used");
        c.note("string[3] " + show(m));
        V v(x);
        expect_same(v, m, "string[3]");
        REQUIRE(v.get(y));
        REQUIRE(std::equal(x, x + 3, y));
        key = hash(m, key + 1);
        break;
    }
    case 2:
    {
        double x[1], y[1] = { 9 };
        x[0] = gen_flt(s);
        M m  = M::arr();
        m.a.push_back(M::flt(x[0]));
        c.note("double[1] " + show(m));
        V v(x);
        expect_same(v, m, "double[1]");
        REQUIRE(v.get(y));
        REQUIRE(x[0] == y[0]);
        key = hash(m, key + 2);
        break;
    }
    case 3:
    {
        int x[2][3];
        M   m = M::arr();
        for (auto& r : x)
        {
            M a = M::arr();
            for (int& q : r)
            {
                q = Kind<V, int>::gen(s);
                a.a.push_back(M::integer(q));
            }
            m.a.push_back(a);
        }
        c.note("int[2][3] " + show(m));
        V v(x);
        expect_same(v, m, "int[2][3]");
        key = hash(m, key + 3);
        break;
    }
    default:
    {
        U u = gen_str(s);
        u.erase(std::remove(u.begin(), u.end(), U'\0'), u.end());
        auto                         t = enc<V>(u);
        const typename V::char_type* p = t.c_str();
        c.note("C string " + show(u));
        V v(p);
        expect_same(v, M::str(u), "C string");
        V w = build<V>(small_tree(s, 4));
        w   = p;
        expect_same(w, M::str(u), "C string assigned");
        typename V::char_type lit[6] = { 'h', 'e', 'l', 'l', 'o', 0 };
        V                     l(lit);
        expect_same(l, M::str(U"hello"), "literal");
        V n(nullptr);
        expect_same(n, M::null(), "nullptr");
        w = nullptr;
        expect_same(w, M::null(), "nullptr assigned");
        key = hash(M::str(u), key + 4);
    }
    }
    c.inner(3);
    c.nontrivial(key);
}

// ---------------------------------------------------------------- types of the user

// by functions found beside the type
struct Point
{
    int         x = 0;
    double      y = 0;
    std::string name;

    friend void to_value(json::value& c, const Point& p)
    {
        c["x"]    = p.x;
        c["y"]    = p.y;
        c["name"] = p.name;
    }
    friend void from_value(const json::value& c, Point& p)
    {
        p.x    = c["x"].get<int>();
        p.y    = c["y"].get<double>();
        p.name = c["name"].get<std::string>();
    }
};
}  // namespace
// by a binder, without a default constructor
class Badge
{
public:
    explicit Badge(int64_t n)
        : n_(n)
    {
    }
    int64_t number() const
    {
        return n_;
    }

private:
    int64_t n_;
};
namespace configor
{
template <>
struct value_binder<Badge>
{
    static void to_value(value& c, const Badge& b)
    {
        c = b.number();
    }
    static Badge from_value(const value& c)
    {
        return Badge(c.get<int64_t>());
    }
};
}  // namespace configor
namespace c13
{
template <>
struct Kind<json::value, Point>
{
    enum { scalar = 0 };
    static Point gen(Src& s)
    {
        Point p;
        p.x    = Kind<json::value, int>::gen(s);
        p.y    = Kind<json::value, double>::gen(s);
        p.name = Kind<json::value, std::string>::gen(s);
        return p;
    }
    static M model(const Point& p)
    {
        M m        = M::obj();
        m.o[U"x"]  = M::integer(p.x);
        m.o[U"y"]  = M::flt(p.y);
        m.o[U"name"] = Kind<json::value, std::string>::model(p.name);
        return m;
    }
    static Fit fit(const M& m)
    {
        if (m.k != M::Obj)
            return No;
        if (m.o.size() != 3)
            return Any;
        auto x = m.o.find(U"x"), y = m.o.find(U"y"), n = m.o.find(U"name");
        if (x == m.o.end() || y == m.o.end() || n == m.o.end())
            return Any;
        return both(Kind<json::value, int>::fit(x->second), both(Kind<json::value, double>::fit(y->second), Kind<json::value, std::string>::fit(n->second)));
    }
};
template <>
struct Kind<json::value, Badge>
{
    enum { scalar = 1 };
    static Badge gen(Src& s)
    {
        return Badge(gen_int(s));
    }
    static M model(const Badge& b)
    {
        return M::integer(b.number());
    }
    static Fit fit(const M& m)
    {
        return m.k == M::Int ? Yes : No;
    }
};
}  // namespace c13
namespace
{
using N = json::value;
// assigning a user's type to a used value is up to the user's function, so only fresh values here
template <class T>
void user_type(Src& s, Ctx& c, const char* name)
{
    using K      = Kind<N, T>;
    uint64_t key = eng::hash_str(name);
    if (s.chance(1, 3))
    {
        refusals<N, T>(s, c, name, key);
        c.nontrivial(key);
        return;
    }
    T       x = K::gen(s);
    const M m = K::model(x);
    c.note(std::string(name) + " " + show(m));
    N v(x);
    expect_content(m, extract(v), name);
    const T& cx = x;
    N        w  = cx;
    expect_content(m, extract(w), name);
    expect_content(m, K::model(v.template get<T>()), name);
    T u = K::gen(s);
    REQUIRE(v.get(u));
    expect_content(m, K::model(u), name);
    c.inner(4);
    c.nontrivial(hash(m, key));
}
}  // namespace

PROP(scalars, 40000, 150000)
{
    static const Case<N> cases[] = {
        TYPE(N, bool),           TYPE(N, int),          TYPE(N, unsigned),       TYPE(N, short),         TYPE(N, unsigned short), TYPE(N, signed char), TYPE(N, unsigned char),
        TYPE(N, char),           TYPE(N, long),         TYPE(N, unsigned long),  TYPE(N, long long),     TYPE(N, unsigned long long), TYPE(N, float),    TYPE(N, double),
        TYPE(N, long double),    TYPE(N, std::string),  TYPE(N, wchar_t),        TYPE(N, char16_t),      TYPE(N, char32_t),
    };
    auto& k = cases[s.draw(sizeof cases / sizeof *cases)];
    k.fn(s, c, k.name, true);
}
PROP(references_narrow, 8000, 80000)
{
    references<json::value>(s, c);
}
PROP(references_wide, 4000, 40000)
{
    references<wjson::value>(s, c);
}
PROP(c_arrays_narrow, 4000, 40000)
{
    c_arrays<json::value>(s, c);
}
PROP(c_arrays_wide, 2000, 20000)
{
    c_arrays<wjson::value>(s, c);
}
PROP(user_types, 16000, 80000)
{
#ifdef REDUCED
    const unsigned kinds = 5;  // without the types that a changed tree might not take any more
#else
    const unsigned kinds = 8;
#endif
    switch (s.draw(kinds))
    {
    case 0:
        user_type<Point>(s, c, "Point");
        break;
    case 1:
        user_type<Badge>(s, c, "Badge");
        break;
    case 2:
        user_type<std::vector<Point>>(s, c, "std::vector<Point>");
        break;
    case 3:
        user_type<std::map<std::string, Point>>(s, c, "std::map<std::string, Point>");
        break;
    case 4:
        user_type<std::shared_ptr<Point>>(s, c, "std::shared_ptr<Point>");
        break;
#ifndef REDUCED
    case 5:
        user_type<std::unique_ptr<Badge>>(s, c, "std::unique_ptr<Badge>");
        break;
    case 6:
        user_type<std::list<Badge>>(s, c, "std::list<Badge>");
        break;
    default:
        user_type<std::vector<std::shared_ptr<Badge>>>(s, c, "std::vector<std::shared_ptr<Badge>>");
#endif
    }
}
