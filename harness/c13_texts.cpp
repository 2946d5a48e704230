// C13: types that are made from strings and give strings, also as names
#define ENGINE_NO_MAIN
#include "c13.hpp"

namespace c13
{
template <class C>
struct Text
{
    std::basic_string<C> s;
    Text() {}
    Text(const std::basic_string<C>& x)
        : s(x)
    {
    }
    operator std::basic_string<C>() const
    {
        return s;
    }
    bool operator<(const Text& o) const
    {
        return s < o.s;
    }
};
// conversions by request only, one way by assignment
template <class C>
struct Name
{
    std::basic_string<C> s;
    Name() {}
    explicit Name(const std::basic_string<C>& x)
        : s(x)
    {
    }
    Name& operator=(const std::basic_string<C>& x)
    {
        s = x;
        return *this;
    }
    explicit operator std::basic_string<C>() const
    {
        return s;
    }
};

template <class V, class T>
struct StringLike
{
    enum { scalar = 1 };
    static T gen(Src& s)
    {
        return T(enc<V>(gen_str(s)));
    }
    static M model(const T& x)
    {
        U u;
        REQUIRE(chars<typename V::char_type>::dec(x.s, u));
        return M::str(u);
    }
    static Fit fit(const M& m)
    {
        return m.k == M::Str ? Yes : No;
    }
};
template <class V>
struct Kind<V, Text<typename V::char_type>> : StringLike<V, Text<typename V::char_type>>
{
};
template <class V>
struct Kind<V, Name<typename V::char_type>> : StringLike<V, Name<typename V::char_type>>
{
};

// maps by such names
template <class V, class T, class E>
struct Kind<V, std::map<Text<T>, E>>
{
    enum { scalar = 0 };
    using X = std::map<Text<T>, E>;
    static X gen(Src& s)
    {
        X x;
        while (s.more(x.size(), 6, 3))
            x[Text<T>(enc<V>(gen_key(s)))] = Kind<V, E>::gen(s);
        return x;
    }
    static M model(const X& x)
    {
        M m = M::obj();
        for (auto& e : x)
        {
            U u;
            REQUIRE(chars<T>::dec(e.first.s, u));
            m.o[u] = Kind<V, E>::model(e.second);
        }
        return m;
    }
    static Fit fit(const M& m)
    {
        return Kind<V, std::map<std::basic_string<T>, E>>::fit(m);
    }
};

namespace
{
using N = json::value;
using W = wjson::value;

// strings by pointer, array and view
template <class V>
void plain(Src& s, Ctx& c)
{
    using C  = typename V::char_type;
    using S  = std::basic_string<C>;
    U u      = gen_str(s);
    for (auto& x : u)
        if (!x)
            x = U'0';
    const S  t = enc<V>(u);
    const M  m = M::str(u);
    const C* p = t.c_str();
    C*       q = const_cast<C*>(p);
    c.note(show(m));
    V a(p), b, d(q), e;
    b = p;
    e[enc<V>(U"k")] = p;
    e[p]            = q;
    expect_content(m, extract(a), "from a pointer to characters");
    expect_content(m, extract(b), "assigned from a pointer to characters");
    expect_content(m, extract(d), "from a pointer to modifiable characters");
    expect_content(m, extract(e[p]), "a member named by a pointer");
    const V& ce = e;
    REQUIRE(&ce[p] == &ce.at(t) && &ce.at(p) == &e[t] && e.size() == (u == U"k" ? 1u : 2u));
    REQUIRE(a == p && p == a && !(a != p) && !(a < p) && a >= p);
    V v(std::vector<const C*>{ p, p });
    expect_content(m, extract(v[static_cast<size_t>(1)]), "in a vector of pointers");
    std::map<const C*, int> mp;
    mp[p] = 3;
    V w(mp);
    REQUIRE(w.is_object() && w.size() == 1 && w[t] == 3);
    static const C fixed[] = { 'a', 'b', 0 };
    V              f(fixed), g;
    g = fixed;
    expect_content(M::str(U"ab"), extract(f), "from an array of characters");
    expect_content(M::str(U"ab"), extract(g), "assigned from an array of characters");
    c.inner(10);
#if __cplusplus >= 201703L
    const S                          t0 = enc<V>(gen_str(s));
    const std::basic_string_view<C>  view(t0);
    U                                u0;
    REQUIRE(chars<C>::dec(t0, u0));
    V h(view), i;
    i = view;
    expect_content(M::str(u0), extract(h), "from a view");
    expect_content(M::str(u0), extract(i), "assigned from a view");
    REQUIRE(h.template get<std::basic_string_view<C>>() == view);
    std::basic_string_view<C> r;
    REQUIRE(i.get(r) && r == view && !V(1).get(r));
    c.inner(4);
#endif
    c.nontrivial(hash(m, sizeof(C)));
}
}  // namespace
}  // namespace c13

using namespace c13;

PROP(texts, 16000, 160000)
{
    static const Case<N> cases[] = {
        TYPE(N, Text<char>),
        TYPE(N, Name<char>),
        TYPE(N, std::vector<Name<char>>),
        TYPE(N, std::vector<Text<char>>),
        TYPE(N, std::set<Text<char>>),
        TYPE(N, std::map<Text<char>, int>),
        TYPE(N, std::map<Text<char>, Text<char>>),
        TYPE(N, std::shared_ptr<Text<char>>),
    };
    static const Case<W> wide[] = {
        TYPE(W, Text<wchar_t>),
        TYPE(W, Name<wchar_t>),
        TYPE(W, std::list<Text<wchar_t>>),
        TYPE(W, std::map<Text<wchar_t>, std::wstring>),
    };
    switch (s.draw(4))
    {
    case 0:
    {
        auto& k = wide[s.draw(sizeof wide / sizeof *wide)];
        return k.fn(s, c, k.name, false);
    }
    case 1: return plain<N>(s, c);
    case 2:
        if (s.flip())
            return plain<W>(s, c);
    }
    auto& k = cases[s.draw(sizeof cases / sizeof *cases)];
    k.fn(s, c, k.name, false);
}
