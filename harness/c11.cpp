// C11: comparison is a lawful equality and order on values.
#include "nodes.hpp"
#include "order.hpp"
using namespace lib;
using namespace ord;

PROPERTY_INFO("C11", "a case is non-trivial if among its values there are two that are equal without being copies of each other, or two unequal ones of "
                     "the same kind; cases are distinct by the values (and the scalar) compared");

namespace
{
// ---------------------------------------------------------------- related values

void leaves(M& m, std::vector<M*>& out)
{
    out.push_back(&m);
    for (auto& x : m.a)
        leaves(x, out);
    for (auto& x : m.o)
        leaves(x.second, out);
}

// a value that is nearly the same: one place is a little different, or the same in another spelling
M relative(Src& s, const M& of)
{
    M               m = of;
    std::vector<M*> l;
    leaves(m, l);
    M& x = *l[static_cast<size_t>(s.draw(l.size()))];
    switch (x.k)
    {
    case M::Null:
        x = s.flip() ? M::boolean(false) : M::integer(0);
        break;
    case M::Bool:
        x = s.flip() ? M::boolean(!x.b) : M::integer(x.b);
        break;
    case M::Int:
        switch (s.draw(5))
        {
        case 0:
            x = M::flt(static_cast<double>(x.i));
            break;
        case 1:
            x.i = static_cast<int64_t>(0 - static_cast<uint64_t>(x.i));
            break;
        case 2:
            x.i = static_cast<int64_t>(static_cast<uint64_t>(x.i) + 1);
            break;
        case 3:
            x = M::flt(static_cast<double>(x.i) + 0.5);
            break;
        default:
            x = M::integer(x.i ^ (int64_t(1) << s.draw(53)));
        }
        break;
    case M::Flt:
        switch (s.draw(5))
        {
        case 0:
            if (std::fabs(x.f) < 9007199254740992.0 && x.f == std::floor(x.f))
                x = M::integer(static_cast<int64_t>(x.f));
            break;
        case 1:
            x.f = -x.f;
            break;
        case 2:
            x.f = std::nextafter(x.f, 1e308);
            break;
        case 3:
            if (std::fabs(x.f) < 9007199254740992.0)
                x = M::integer(static_cast<int64_t>(x.f));
            break;
        default:
            x.f = x.f / 2 + 1;
        }
        break;
    case M::Str:
        switch (s.draw(5))
        {
        case 0:
            x.s += static_cast<char32_t>(gen_cp(s));
            break;
        case 1:
            if (!x.s.empty())
                x.s.pop_back();
            break;
        case 2:
            if (!x.s.empty())
                x.s[static_cast<size_t>(s.draw(x.s.size()))] = static_cast<char32_t>(gen_cp(s));
            break;
        case 3:
            x.s += U'\0';
            break;
        default:
            x.s = gen_str(s);
        }
        break;
    case M::Arr:
        if (!x.a.empty() && s.flip())
        {
            if (s.flip())
                x.a.pop_back();
            else
                std::swap(x.a.front(), x.a.back());
        }
        else
            x.a.push_back(gen_scalar(s));
        break;
    default:
        if (!x.o.empty() && s.flip())
        {
            auto it = x.o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(s.draw(x.o.size())));
            M t = it->second;
            x.o.erase(it);
            if (s.flip())
                x.o[gen_key(s)] = t;
        }
        else
            x.o[gen_key(s)] = gen_scalar(s);
    }
    tame(m);
    return m;
}

// the same content by another history
template <class V>
V build_otherwise(Src& s, const M& m)
{
    switch (m.k)
    {
    case M::Arr:
    {
        V v;
        v.push_back(V(1));
        for (size_t i = m.a.size(); i-- > 0;)
            v[i] = build_otherwise<V>(s, m.a[i]);
        if (m.a.empty())
            v.clear();
        else if (s.flip())
        {
            v.push_back(V(enc<V>(U"too much")));
            v.erase(m.a.size());
        }
        return v;
    }
    case M::Obj:
    {
        V v;
        v[enc<V>(U"something else")] = V(1);
        if (s.flip())
            for (auto it = m.o.rbegin(); it != m.o.rend(); ++it)
                v[enc<V>(it->first)] = build_otherwise<V>(s, it->second);
        else
            for (auto& x : m.o)
            {
                v[enc<V>(x.first)] = V(false);
                v[enc<V>(x.first)] = build_otherwise<V>(s, x.second);
            }
        if (!m.o.count(U"something else"))
            v.erase(enc<V>(U"something else"));
        return v;
    }
    case M::Null:
    {
        V v(value_constant::array);
        v = nullptr;
        return v;
    }
    case M::Str:
    {
        V    v(value_constant::string);
        auto t = enc<V>(m.s);
        auto& r = v.template get<typename V::string_type&>();
        r.reserve(t.size() + 100);
        for (auto c : t)
            r.push_back(c);
        return v;
    }
    default:
    {
        V v = build<V>(m);
        V w(value_constant::object);
        w.swap(v);
        return w;
    }
    }
}

template <class A, class B>
unsigned relations(const A& a, const B& b)
{
    return static_cast<unsigned>(a == b) | static_cast<unsigned>(a != b) << 1 | static_cast<unsigned>(a < b) << 2 | static_cast<unsigned>(a <= b) << 3
           | static_cast<unsigned>(a > b) << 4 | static_cast<unsigned>(a >= b) << 5;
}
std::string rel_names(unsigned r)
{
    static const char* const n[] = { "==", "!=", "<", "<=", ">", ">=" };
    std::string              t;
    for (unsigned i = 0; i < 6; ++i)
        if (r >> i & 1)
            t += std::string(t.empty() ? "" : " ") + n[i];
    return t;
}

// what the six operators answer against what they have to
void check_relations(unsigned r, const M& a, const M& b, const std::string& how)
{
    const bool e = r & 1, ne = r & 2, lt = r & 4, le = r & 8, gt = r & 16, ge = r & 32;
    auto       bad = [&](const std::string& why) { fail(how + ": " + why + "; the operators that hold: " + rel_names(r) + "\n  " + show(a) + "\n  " + show(b)); };
    if (e != eq(a, b))
        bad(eq(a, b) ? "equal content compares unequal" : "different content compares equal");
    if (e == ne)
        bad("== and != do not disagree");
    if (gt == le || lt == ge)
        bad("one of < and >=, > and <= has to hold");
    if (lt && gt)
        bad("less and greater");
    if (e && (lt || gt || !le || !ge))
        bad("equal but not <= and >= only");
    Order o = order(a, b);
    if (o != Unknown && (lt != (o == Less) || gt != (o == More)))
        bad(std::string("the first is ") + order_names[o] + " the second");
}

template <class V>
void laws(Src& s, Ctx& c)
{
    enum
    {
        N = 4
    };
    M        m[N];
    TreeOpts to;
    to.budget = 12;
    to.depth  = 3;
    to.big    = s.chance(1, 20);
    for (int i = 0; i < N; ++i)
    {
        if (i && s.chance(4, 5))
            m[i] = relative(s, m[s.draw(static_cast<uint64_t>(i))]);
        else
            m[i] = s.flip() ? gen_tree(s, to) : s.chance(1, 60) ? gen_long(s, 600) : gen_scalar(s);
        tame(m[i]);
        c.note(show(m[i]));
    }
    V v[N];
    for (int i = 0; i < N; ++i)
        v[i] = build<V>(m[i]);
    uint64_t key = sizeof(typename V::char_type);
    bool     nt  = false;
    unsigned r[N][N];
    for (int i = 0; i < N; ++i)
    {
        key = hash(m[i], key);
        check_relations(relations(v[i], v[i]), m[i], m[i], "a value with itself");
        const V copy = v[i];
        check_relations(relations(v[i], copy), m[i], m[i], "a value with its copy");
        V other = build_otherwise<V>(s, m[i]);
        expect_same(other, m[i], "harness");
        check_relations(relations(v[i], other), m[i], m[i], "a value with one of the same content and another history");
        check_relations(relations(other, v[i]), m[i], m[i], "a value with one of the same content and another history");
        for (int j = 0; j < N; ++j)
        {
            r[i][j] = relations(v[i], v[j]);
            check_relations(r[i][j], m[i], m[j], "two values");
            check_relations(relations(other, v[j]), m[i], m[j], "two values");
            c.inner(2);
            if (i != j && m[i].k == m[j].k)
                nt = true;
        }
    }
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
        {
            const std::string two = "\n  " + show(m[i]) + "\n  " + show(m[j]);
            REQUIRE_MSG((r[i][j] & 1) == (r[j][i] & 1), "symmetry" + two);
            REQUIRE_MSG((r[i][j] >> 2 & 1) == (r[j][i] >> 4 & 1), "a < b and b > a" + two);
            REQUIRE_MSG((r[i][j] >> 3 & 1) == (r[j][i] >> 5 & 1), "a <= b and b >= a" + two);
            for (int k = 0; k < N; ++k)
            {
                if ((r[i][j] & 1) && (r[j][k] & 1))
                    REQUIRE_MSG(r[i][k] & 1, "transitivity of ==" + two + "\n  " + show(m[k]));
            }
        }
    // containers of the values compare as the values do
    int  i = static_cast<int>(s.draw(N)), j = static_cast<int>(s.draw(N));
    V    x = typename std::conditional<std::is_same<typename V::char_type, char>::value, json, wjson>::type::array{ v[i], v[j] };
    V    y = typename std::conditional<std::is_same<typename V::char_type, char>::value, json, wjson>::type::array{ v[j], v[i] };
    M    mx = M::arr(), my = M::arr();
    mx.a = { m[i], m[j] };
    my.a = { m[j], m[i] };
    check_relations(relations(x, y), mx, my, "arrays of two of the values");
    if (nt)
        c.nontrivial(key);
}

// sorting values of one kind
template <class V>
void sorting(Src& s, Ctx& c)
{
    size_t         n = static_cast<size_t>(s.range(2, 12));
    M              m;
    std::vector<M> ms;
    std::vector<V> vs;
    m.k = static_cast<M::Kind>(s.range(1, 6));
    uint64_t key = 0;
    for (size_t i = 0; i < n; ++i)
    {
        M x;
        switch (m.k)
        {
        case M::Bool:
            x = M::boolean(s.flip());
            break;
        case M::Int:
            x = M::integer(gen_int(s));  // exact among themselves, whatever their size
            break;
        case M::Flt:
            x = M::flt(gen_flt(s));
            break;
        case M::Str:
            x = M::str(gen_str(s, 4));
            break;
        case M::Arr:
            x = M::arr();
            while (s.more(x.a.size(), 4, 2))
                x.a.push_back(s.flip() ? M::integer(s.range(-2, 2)) : M::flt(static_cast<double>(s.range(-4, 4)) / 2));
            break;
        default:
            x = M::obj();
            while (s.more(x.o.size(), 4, 2))
                x.o[small_key(s)] = M::integer(s.range(-2, 2));
        }
        if (!ms.empty() && s.chance(1, 3))
        {
            x = relative(s, ms[static_cast<size_t>(s.draw(ms.size()))]);
            if (x.k != m.k || order(x, x) != Same)
                x = ms[0];
        }
        for (auto& o : ms)
            if (order(o, x) == Unknown)
                x = ms[0];
        ms.push_back(x);
        vs.push_back(build<V>(x));
        key = hash(x, key);
        c.note(show(x));
    }
    auto less = [](const M& a, const M& b) { return order(a, b) == Less; };
    std::stable_sort(ms.begin(), ms.end(), less);
    std::stable_sort(vs.begin(), vs.end());
    for (size_t i = 0; i < n; ++i)
        expect_same(vs[i], ms[i], fmt("number %zu of the sorted values", i));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            check_relations(relations(vs[i], vs[j]), ms[i], ms[j], "two values");
    if (less(ms.front(), ms.back()))
        c.nontrivial(key);
}

template <class V, class T>
void with_scalar(const V& v, const M& m, T x, const M& mx, const std::string& type)
{
    check_relations(relations(v, x), m, mx, "a value with a " + type);
    check_relations(relations(x, v), mx, m, "a " + type + " with a value");
}

template <class V>
void scalars(Src& s, Ctx& c)
{
    M mx;
    size_t how = static_cast<size_t>(s.draw(17));
    U      u   = gen_str(s, 6);
    u.erase(std::remove(u.begin(), u.end(), U'\0'), u.end());
    switch (how)
    {
    case 0:
        mx = M::boolean(s.flip());
        break;
    case 1:
    case 2:
    case 3:
        mx = M::integer(s.range(-70000, 70000));
        break;
    case 4:
    case 5:
        mx = M::integer(gen_int(s));
        tame(mx);
        break;
    case 6:
        mx = M::integer(static_cast<int64_t>(s.draw(1u << 31)));
        break;
    case 7:
        mx = M::flt(static_cast<float>(gen_flt(s)));
        if (!std::isfinite(mx.f))
            mx.f = 0.5;
        break;
    case 8:
        mx = M::flt(gen_flt(s));
        break;
    case 9:
        mx = M::str(u);
        break;
    case 10:
        break;
    case 12:
    case 13:
        mx = M::integer(s.range(0, 127));
        break;
    case 14:
        mx = M::str(u);
        break;
    case 15:
        switch (s.draw(7))
        {
        case 0:
            mx = M::arr();
            break;
        case 1:
            mx = M::obj();
            break;
        case 2:
            mx = M::str(U());
            break;
        case 3:
            mx = M::integer(0);
            break;
        case 4:
            mx = M::flt(0);
            break;
        case 5:
            mx = M::boolean(false);
            break;
        default:
            break;
        }
        break;
    case 16:
        mx = M::arr();
        for (size_t n = static_cast<size_t>(s.draw(4)); n; --n)
            mx.a.push_back(M::integer(s.range(-9, 9)));
        break;
    default:
        mx = M::integer(s.range(0, 127));
    }
    M m = s.flip() ? mx : s.chance(3, 4) ? relative(s, mx) : small_tree(s);
    tame(m);
    V v = build<V>(m);
    c.note(show(m) + " with " + show(mx));
    switch (how)
    {
    case 0:
        with_scalar(v, m, mx.b, mx, "bool");
        break;
    case 1:
        with_scalar(v, m, static_cast<int>(mx.i), mx, "int");
        break;
    case 2:
        mx.i = static_cast<short>(mx.i);
        with_scalar(v, m, static_cast<short>(mx.i), mx, "short");
        break;
    case 3:
        mx.i = static_cast<unsigned short>(mx.i);
        with_scalar(v, m, static_cast<unsigned short>(mx.i), mx, "unsigned short");
        break;
    case 4:
        with_scalar(v, m, static_cast<long>(mx.i), mx, "long");
        break;
    case 5:
        with_scalar(v, m, static_cast<long long>(mx.i), mx, "long long");
        break;
    case 6:
        with_scalar(v, m, static_cast<unsigned>(mx.i), mx, "unsigned");
        break;
    case 7:
        with_scalar(v, m, static_cast<float>(mx.f), mx, "float");
        break;
    case 8:
        with_scalar(v, m, mx.f, mx, "double");
        break;
    case 9:
    {
        auto                          t = enc<V>(u);
        const typename V::char_type*  p = t.c_str();
        with_scalar(v, m, p, mx, "C string");
        break;
    }
    case 10:
        with_scalar(v, m, nullptr, mx, "nullptr");
        break;
    case 12:
        with_scalar(v, m, static_cast<char>(mx.i), mx, "char");
        break;
    case 13:
        with_scalar(v, m, static_cast<signed char>(mx.i), mx, "signed char");
        break;
    case 14:
        with_scalar(v, m, enc<V>(u), mx, "string");
        break;
    case 15:
    {
        const value_constant::type t = mx.k == M::Arr ? value_constant::array : mx.k == M::Obj ? value_constant::object : mx.k == M::Str ? value_constant::string : mx.k == M::Int ? value_constant::integer : mx.k == M::Flt ? value_constant::floating : mx.k == M::Bool ? value_constant::boolean : value_constant::null;
        with_scalar(v, m, t, mx, "type constant");
        break;
    }
    case 16:
    {
        std::vector<int> x;
        for (auto& e : mx.a)
            x.push_back(static_cast<int>(e.i));
        with_scalar(v, m, x, mx, "vector");
        break;
    }
    default:
        with_scalar(v, m, static_cast<unsigned long long>(mx.i), mx, "unsigned long long");
    }
    c.nontrivial(hash(m, hash(mx, how)));
}
}  // namespace

PROP(narrow, 30000, 600000)
{
    laws<json::value>(s, c);
}
PROP(wide, 10000, 200000)
{
    laws<wjson::value>(s, c);
}
PROP(sorted_narrow, 8000, 150000)
{
    sorting<json::value>(s, c);
}
PROP(sorted_wide, 4000, 60000)
{
    sorting<wjson::value>(s, c);
}
PROP(scalars_narrow, 30000, 300000)
{
    scalars<json::value>(s, c);
}
PROP(scalars_wide, 10000, 100000)
{
    scalars<wjson::value>(s, c);
}
