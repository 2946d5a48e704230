// C13: typed conversions, the checks shared by its translation units
#pragma once
#include "nodes.hpp"

#include <array>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace c13
{
using namespace lib;

// does reading a value of this content into the type succeed?
enum Fit
{
    Yes,
    No,
    Any  // not specified
};
inline Fit both(Fit a, Fit b)
{
    return a == No || b == No ? No : a == Any || b == Any ? Any : Yes;
}

// now and then containers of many elements: as many at least
template <class K>
size_t at_least(Src& s)
{
    return K::scalar && s.chance(1, 60) ? s.range(9, s.chance(1, 8) ? 5000 : 400) : 0;
}

// what a C++ type is on the other side; generated, modelled, recognised
template <class V, class T, class = void>
struct Kind;

template <class V>
struct Kind<V, bool>
{
    enum { scalar = 1 };
    static bool gen(Src& s)
    {
        return s.flip();
    }
    static M model(bool x)
    {
        return M::boolean(x);
    }
    static Fit fit(const M& m)
    {
        return m.k == M::Bool ? Yes : No;
    }
};

template <class V, class T>
struct Kind<V, T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{
    enum { scalar = 1 };
    static T gen(Src& s)
    {
        switch (s.draw(4))
        {
        case 0:
            return static_cast<T>(s.draw(100));
        case 1:
            return std::numeric_limits<T>::max();
        case 2:
            return std::numeric_limits<T>::min();
        default:
            return static_cast<T>(gen_int(s));
        }
    }
    static M model(T x)
    {
        return M::integer(static_cast<int64_t>(x));
    }
    static Fit fit(const M& m)
    {
        if (m.k != M::Int)
            return No;
        return static_cast<int64_t>(static_cast<T>(m.i)) == m.i ? Yes : Any;
    }
};

template <class V, class T>
struct Kind<V, T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    enum { scalar = 1 };
    static T gen(Src& s)
    {
        double d = gen_flt(s);
        T      t = static_cast<T>(d);
        return std::isfinite(t) ? t : T(0.5);
    }
    static M model(T x)
    {
        return M::flt(static_cast<double>(x));
    }
    static Fit fit(const M& m)
    {
        if (m.k != M::Flt)
            return No;
        if (std::is_same<T, float>::value && std::fabs(m.f) > 1e38)
            return Any;
        return static_cast<double>(static_cast<T>(m.f)) == m.f ? Yes : Any;
    }
};

template <class V>
struct Kind<V, typename V::string_type>
{
    enum { scalar = 1 };
    using T = typename V::string_type;
    static T gen(Src& s)
    {
        return enc<V>(gen_str(s));
    }
    static M model(const T& x)
    {
        U u;
        REQUIRE(chars<typename V::char_type>::dec(x, u));
        return M::str(u);
    }
    static Fit fit(const M& m)
    {
        return m.k == M::Str ? Yes : No;
    }
};

// a value itself
template <class V>
struct Kind<V, V>
{
    enum { scalar = 0 };
    static V gen(Src& s)
    {
        return build<V>(small_tree(s, 3));
    }
    static M model(const V& x)
    {
        return extract(x);
    }
    static Fit fit(const M&)
    {
        return Yes;
    }
};

// sequences and sets
template <class V, class C, class E>
struct Seq
{
    enum { scalar = 0 };
    static C gen(Src& s)
    {
        C      c;
        size_t n    = 0;
        size_t many = at_least<Kind<V, E>>(s);
        while (n < many || s.more(n, 8, 3))
        {
            c.insert(c.end(), Kind<V, E>::gen(s));
            ++n;
        }
        return c;
    }
    static M model(const C& c)
    {
        M m = M::arr();
        for (auto it = c.begin(); it != c.end(); ++it)
            m.a.push_back(Kind<V, E>::model(*it));
        return m;
    }
    static Fit fit(const M& m)
    {
        if (m.k == M::Null || (m.k == M::Obj && m.o.empty()))
            return Any;
        if (m.k != M::Arr)
            return No;
        Fit f = Yes;
        for (auto& x : m.a)
            f = both(f, Kind<V, E>::fit(x));
        return f;
    }
};
template <class V, class E>
struct Kind<V, std::vector<E>> : Seq<V, std::vector<E>, E>
{
};
template <class V, class E>
struct Kind<V, std::deque<E>> : Seq<V, std::deque<E>, E>
{
};
template <class V, class E>
struct Kind<V, std::list<E>> : Seq<V, std::list<E>, E>
{
};
template <class V, class E>
struct Kind<V, std::forward_list<E>> : Seq<V, std::forward_list<E>, E>
{
    static std::forward_list<E> gen(Src& s)
    {
        std::forward_list<E> c;
        size_t               n    = 0;
        size_t               many = at_least<Kind<V, E>>(s);
        while (n++ < many || s.more(n - 1, 8, 3))
            c.push_front(Kind<V, E>::gen(s));
        return c;
    }
};
template <class V, class C, class E>
struct Set : Seq<V, C, E>
{
    static M model(const C& c)
    {
        M m     = Seq<V, C, E>::model(c);
        m.loose = true;  // in any order
        return m;
    }
};
template <class V, class E>
struct Kind<V, std::set<E>> : Set<V, std::set<E>, E>
{
    static M model(const std::set<E>& c)
    {
        M m     = Set<V, std::set<E>, E>::model(c);
        m.loose = true;
        return m;
    }
};
template <class V, class E>
struct Kind<V, std::unordered_set<E>> : Set<V, std::unordered_set<E>, E>
{
};

template <class V, class E, size_t N>
struct Kind<V, std::array<E, N>>
{
    enum { scalar = 0 };
    using T = std::array<E, N>;
    static T gen(Src& s)
    {
        T t;
        for (auto& x : t)
            x = Kind<V, E>::gen(s);
        return t;
    }
    static M model(const T& t)
    {
        M m = M::arr();
        for (auto& x : t)
            m.a.push_back(Kind<V, E>::model(x));
        return m;
    }
    static Fit fit(const M& m)
    {
        if (m.k == M::Null || (m.k == M::Obj && m.o.empty()))
            return Any;
        if (m.k != M::Arr)
            return No;
        Fit f = m.a.size() == N ? Yes : Any;
        for (size_t i = 0; i < N && i < m.a.size(); ++i)
            f = both(f, Kind<V, E>::fit(m.a[i]));
        return f;
    }
};

template <class V, class C, class E>
struct Assoc
{
    enum { scalar = 0 };
    static C gen(Src& s)
    {
        C      c;
        size_t n    = 0;
        size_t many = at_least<Kind<V, E>>(s);
        while (n++ < many || s.more(n - 1, 8, 3))
            c.emplace(enc<V>(!many && s.flip() ? small_key(s) : gen_key(s)), Kind<V, E>::gen(s));
        return c;
    }
    static M model(const C& c)
    {
        M m = M::obj();
        for (auto& x : c)
        {
            U u;
            REQUIRE(chars<typename V::char_type>::dec(x.first, u));
            m.o[u] = Kind<V, E>::model(x.second);
        }
        return m;
    }
    static Fit fit(const M& m)
    {
        if (m.k == M::Null || (m.k == M::Arr && m.a.empty()))
            return Any;
        if (m.k != M::Obj)
            return No;
        Fit f = Yes;
        for (auto& x : m.o)
            f = both(f, Kind<V, E>::fit(x.second));
        return f;
    }
};
template <class V, class E>
struct Kind<V, std::map<typename V::string_type, E>> : Assoc<V, std::map<typename V::string_type, E>, E>
{
};
template <class V, class E>
struct Kind<V, std::unordered_map<typename V::string_type, E>> : Assoc<V, std::unordered_map<typename V::string_type, E>, E>
{
};

template <class V, class P, class E>
struct Ptr
{
    enum { scalar = 0 };
    static P gen(Src& s)
    {
        P p;
        if (s.chance(3, 4))
            p = P(new E(Kind<V, E>::gen(s)));
        return p;
    }
    static M model(const P& p)
    {
        return p ? Kind<V, E>::model(*p) : M::null();
    }
    static Fit fit(const M& m)
    {
        return m.k == M::Null ? Yes : Kind<V, E>::fit(m);
    }
};
template <class V, class E>
struct Kind<V, std::unique_ptr<E>> : Ptr<V, std::unique_ptr<E>, E>
{
};
template <class V, class E>
struct Kind<V, std::shared_ptr<E>> : Ptr<V, std::shared_ptr<E>, E>
{
};

// ---------------------------------------------------------------- comparison with the stored content

// like lib::diff, with the sets in any order and without repetitions
inline std::string corresponds(const M& want, const M& got, const std::string& at = "$")
{
    if (want.k != got.k)
        return at + ": " + show(got) + ", expected " + show(want);
    if (want.k == M::Arr && want.loose)
    {
        std::set<std::string> a, b;
        for (auto& x : want.a)
            a.insert(show(x, 100000));
        for (auto& x : got.a)
            b.insert(show(x, 100000));
        return a == b ? "" : at + ": " + show(got) + ", expected in any order " + show(want);
    }
    if (want.k == M::Arr)
    {
        if (want.a.size() != got.a.size())
            return at + fmt(": %zu elements, expected %zu: ", got.a.size(), want.a.size()) + show(got) + ", expected " + show(want);
        for (size_t i = 0; i < want.a.size(); ++i)
        {
            std::string d = corresponds(want.a[i], got.a[i], at + fmt("[%zu]", i));
            if (!d.empty())
                return d;
        }
        return "";
    }
    if (want.k == M::Obj)
    {
        if (want.o.size() != got.o.size())
            return at + ": " + show(got) + ", expected " + show(want);
        for (auto& x : want.o)
        {
            auto it = got.o.find(x.first);
            if (it == got.o.end())
                return at + ": no member " + show(x.first);
            std::string d = corresponds(x.second, it->second, at + "." + show(x.first));
            if (!d.empty())
                return d;
        }
        return "";
    }
    return diff(want, got, Tol(0), at);
}
inline void expect_content(const M& want, const M& got, const std::string& what)
{
    std::string d = corresponds(want, got);
    if (!d.empty())
        fail(what + ": " + d);
}

template <class V>
using json_of = typename std::conditional<std::is_same<typename V::char_type, char>::value, json, wjson>::type;

// ---------------------------------------------------------------- a type there and back

template <class V, class T>
void refusals(Src& s, Ctx& c, const std::string& name, uint64_t& key)
{
    using K = Kind<V, T>;
    // a value, near the type or far from it
    M m = s.flip() ? K::model(K::gen(s)) : s.flip() ? gen_scalar(s) : small_tree(s, 6);
    if (s.flip() && (m.k == M::Arr || m.k == M::Obj))
    {
        if (m.k == M::Arr && !m.a.empty())
            m.a[static_cast<size_t>(s.draw(m.a.size()))] = gen_scalar(s);
        if (m.k == M::Obj && !m.o.empty())
            m.o.begin()->second = gen_scalar(s);
    }
    m.loose   = false;
    const V v = build<V>(m);
    Fit     f = K::fit(m);
    c.note(name + " from " + show(m) + (f == Yes ? " (fits)" : f == No ? " (does not fit)" : " (unspecified)"));
    if (f == Any)
        return;
    key = hash(m, key);
    std::string what = "get<" + name + ">() of " + show(m);
    if (f == Yes)
    {
        T t = v.template get<T>();
        expect_content(K::model(t), m, what);
        T u = K::gen(s);
        REQUIRE_MSG(v.get(u), what + " by reference argument");
        expect_content(K::model(u), m, what + " by reference argument");
        return;
    }
    try
    {
        T t = v.template get<T>();
        fail(what + " gives " + show(K::model(t)) + " instead of throwing");
    }
    catch (const configor::configor_type_error&)
    {
    }
    catch (const std::exception& e)
    {
        if (K::scalar)
            fail(what + " throws \"" + e.what() + "\" instead of a type error");
    }
    T u = K::gen(s);
    REQUIRE_MSG(!v.get(u), what + " by reference argument");
    expect_same(v, m, what + ": the source");
}

// types without copies: those with a unique_ptr somewhere
template <class T>
struct Unique : std::false_type
{
};
template <class... A>
struct AnyUnique : std::false_type
{
};
template <class A, class... R>
struct AnyUnique<A, R...> : std::integral_constant<bool, Unique<A>::value || AnyUnique<R...>::value>
{
};
template <template <class...> class C, class... A>
struct Unique<C<A...>> : AnyUnique<A...>
{
};
template <class E, class D>
struct Unique<std::unique_ptr<E, D>> : std::true_type
{
};

// a copy made before reading into the variable; what they share must not change
template <class V, class T, bool = Unique<T>::value>
struct Witness
{
    T copy;
    M before;
    explicit Witness(const T& t)
        : copy(t), before(Kind<V, T>::model(copy))
    {
    }
    void check(const std::string& what) const
    {
        expect_content(before, Kind<V, T>::model(copy), what + ": an earlier copy of the variable");
    }
};
template <class V, class T>
struct Witness<V, T, true>
{
    explicit Witness(const T&) {}
    void check(const std::string&) const {}
};

template <class V, class T>
void convert(Src& s, Ctx& c, const char* name, bool implicit_bits)
{
    using K      = Kind<V, T>;
    uint64_t key = eng::hash_str(name, sizeof(typename V::char_type));
    if (s.chance(1, 3))
    {
        refusals<V, T>(s, c, name, key);
        c.nontrivial(key);
        return;
    }
    T       x = K::gen(s);
    const M m = K::model(x);
    key       = hash(m, key);
    c.note(std::string(name) + " " + show(m));
    const std::string what = std::string(name) + " " + show(m);
    V v(x);
    expect_content(m, extract(v), what + " constructed");
    expect_content(m, K::model(x), what + ": the source after constructing");
    const T& cx = x;
    V        w(cx);
    expect_content(m, extract(w), what + " constructed from a const one");
    // assignment replaces what was there
    V used = build<V>(small_tree(s, 4));
    used   = x;
    expect_content(m, extract(used), what + " assigned");
    V used2 = build<V>(small_tree(s, 4));
    used2   = cx;
    expect_content(m, extract(used2), what + " assigned from a const one");
    V obj;
    obj[enc<V>(U"k")] = x;
    obj[enc<V>(U"k")] = x;
    expect_content(m, extract(obj[enc<V>(U"k")]), what + " assigned to a member");
    V arr;
    arr.push_back(x);
    arr.emplace_back(x);
    expect_content(m, extract(arr[1]), what + " appended");
    // and back
    const V& cv = v;
    expect_content(m, K::model(cv.template get<T>()), "get<" + what + ">()");
    expect_content(m, K::model(v.template get<T>()), "get<" + what + ">() of a non-const value");
    T             u = K::gen(s);
    Witness<V, T> witness(u);
    REQUIRE_MSG(cv.get(u), "get(" + what + ") failed");
    expect_content(m, K::model(u), "get(" + what + ") into a used variable");
    witness.check("get(" + what + ") into a used variable");
    T i = cv;
    expect_content(m, K::model(i), what + " converted implicitly");
    expect_content(m, extract(v), what + ": the value after reading it");
    // a moved source
    V mv(std::move(i));
    expect_content(m, extract(mv), what + " moved in");
    // through text, where that is exact
    if (!has_kind(m, M::Flt))
    {
        auto text = json_of<V>::dump(v);
        expect_content(m, K::model(json_of<V>::parse(text).template get<T>()), what + " through text");
    }
    (void)implicit_bits;
    c.inner(10);
    c.nontrivial(key);
}

template <class V>
struct Case
{
    void (*fn)(Src&, Ctx&, const char*, bool);
    const char* name;
};
#define TYPE(V, ...) Case<V>{ &convert<V, __VA_ARGS__>, #__VA_ARGS__ }

}  // namespace c13
