// C14: bound structs, the checks shared by its translation units
#pragma once
#include "c13.hpp"
#include <sstream>

namespace c14
{
using namespace c13;

struct Inner
{
    int         a{};
    std::string b{};
    bool        operator==(const Inner& o) const
    {
        return a == o.a && b == o.b;
    }
    bool operator!=(const Inner& o) const
    {
        return !(*this == o);
    }
    bool operator<(const Inner& o) const
    {
        return a < o.a || (a == o.a && b < o.b);
    }
    bool operator>(const Inner& o) const
    {
        return o < *this;
    }
    bool operator<=(const Inner& o) const
    {
        return !(o < *this);
    }
    bool operator>=(const Inner& o) const
    {
        return !(*this < o);
    }
    template <class F>
    void each(F& f)
    {
        f(a, "a", true);
        f(b, "second", false);
    }
    CONFIGOR_BIND(json::value, Inner, REQUIRED(a), OPTIONAL(b, "second"))
};
struct WInner
{
    int          a{};
    std::wstring b{};
    bool         operator==(const WInner& o) const
    {
        return a == o.a && b == o.b;
    }
    bool operator!=(const WInner& o) const
    {
        return !(*this == o);
    }
    bool operator<(const WInner& o) const
    {
        return a < o.a || (a == o.a && b < o.b);
    }
    bool operator>(const WInner& o) const
    {
        return o < *this;
    }
    bool operator<=(const WInner& o) const
    {
        return !(o < *this);
    }
    bool operator>=(const WInner& o) const
    {
        return !(*this < o);
    }
    template <class F>
    void each(F& f)
    {
        f(a, L"a", true);
        f(b, L"second", false);
    }
    CONFIGOR_BIND(wjson::value, WInner, REQUIRED(a, L"a"), OPTIONAL(b, L"second"))
};

// ---------------------------------------------------------------- visitors

inline U name_of(const char* n)
{
    U u;
    REQUIRE(from8(n, u));
    return u;
}
inline U name_of(const wchar_t* n)
{
    U u;
    REQUIRE(fromwide(n, u));
    return u;
}

template <class V>
struct Fill
{
    Src& s;
    template <class T, class C>
    void operator()(T& x, const C*, bool)
    {
        x = s.chance(1, 3) ? T{} : Kind<V, T>::gen(s);
        exact(x);
    }
    // floats that are written exactly
    void exact(double& x)
    {
        x = static_cast<double>(s.range(-4000, 4000));
    }
    template <class T>
    void exact(T&)
    {
    }
};
struct FieldInfo
{
    U    name;
    bool required;
    bool standard;  // has its default value
    bool pointer;
    M    m;
    std::vector<FieldInfo> sub;  // of a field that is itself a bound struct
};
template <class V, class S>
std::vector<FieldInfo> list(const S& x);
// does the type list its fields?
template <class T>
struct is_bound
{
    struct Any
    {
        template <class A, class B>
        void operator()(A&, const B*, bool)
        {
        }
    };
    template <class Q>
    static char (&test(decltype(std::declval<Q&>().each(std::declval<Any&>()))*))[2];
    template <class Q>
    static char test(...);
    static const bool value = sizeof(test<T>(nullptr)) == 2;
};
template <class V, class T>
typename std::enable_if<is_bound<T>::value, std::vector<FieldInfo>>::type sub_fields(const T& x)
{
    return list<V>(x);
}
template <class V, class T>
typename std::enable_if<!is_bound<T>::value, std::vector<FieldInfo>>::type sub_fields(const T&)
{
    return {};
}
template <class T>
struct is_pointer : std::false_type
{
};
template <class T>
struct is_pointer<std::shared_ptr<T>> : std::true_type
{
};
template <class T>
struct is_pointer<std::unique_ptr<T>> : std::true_type
{
};
template <class V>
struct List
{
    std::vector<FieldInfo> fields;
    template <class T, class C>
    void operator()(T& x, const C* n, bool required)
    {
        FieldInfo f;
        f.name     = name_of(n);
        f.required = required;
        f.standard = !(x != T{});
        f.pointer  = is_pointer<T>::value;
        f.m        = Kind<V, T>::model(x);
        f.sub      = sub_fields<V>(x);
        fields.push_back(f);
    }
};

template <class V, class S>
std::vector<FieldInfo> list(const S& x)
{
    List<V> l;
    const_cast<S&>(x).each(l);
    return l.fields;
}
// what a struct holds after reading what another one wrote, without the i-th field
inline std::vector<FieldInfo> overlay(const std::vector<FieldInfo>& from, const std::vector<FieldInfo>& onto, size_t without)
{
    auto r = from;
    for (size_t k = 0; k < from.size(); ++k)
    {
        if (k == without || (!from[k].required && from[k].standard))
            r[k] = onto[k];
        else if (!from[k].sub.empty())
            r[k].sub = overlay(from[k].sub, onto[k].sub, static_cast<size_t>(-1));
    }
    return r;
}

inline M written(const std::vector<FieldInfo>& l)
{
    M m = M::obj();
    for (auto& f : l)
        if (f.required || !f.standard)
            m.o[f.name] = f.m;
    return m;
}

}  // namespace c14

namespace c13
{
template <class V, class S>
struct BoundKind
{
    enum { scalar = 0 };
    static S gen(Src& s)
    {
        S            x;
        c14::Fill<V> f{ s };
        x.each(f);
        return x;
    }
    static M model(const S& x)
    {
        return c14::written(c14::list<V>(x));
    }
};
template <>
struct Kind<json::value, c14::Inner> : BoundKind<json::value, c14::Inner>
{
};
template <>
struct Kind<wjson::value, c14::WInner> : BoundKind<wjson::value, c14::WInner>
{
};
}  // namespace c13

namespace c14
{
template <class S>
std::string error_of(const std::function<void()>& f, bool& threw)
{
    threw = true;
    try
    {
        f();
    }
    catch (const std::bad_alloc&)
    {
        throw;
    }
    catch (const std::exception& e)
    {
        return e.what();
    }
    threw = false;
    return "";
}

inline void same_fields(const std::vector<FieldInfo>& want, const std::vector<FieldInfo>& got, const std::string& what)
{
    REQUIRE(want.size() == got.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (!want[i].sub.empty())
            same_fields(want[i].sub, got[i].sub, what + ": in " + show(want[i].name));
        else
            expect_content(want[i].m, got[i].m, what + ": field " + show(want[i].name));
}

template <class V, class S>
void bound(Src& s, Ctx& c)
{
    using J  = json_of<V>;
    using CT = typename V::char_type;
    using K  = BoundKind<V, S>;
    S          x    = K::gen(s);
    const auto info = list<V>(x);
    const M    want = written(info);
    const auto what = fmt("struct of %zu fields ", info.size()) + show(want);
    uint64_t   key  = hash(want, info.size());
    c.note(what);

    // written
    V v(x);
    expect_content(want, extract(v), what + " converted");
    V used = build<V>(small_tree(s, 4));
    used   = x;
    expect_content(want, extract(used), what + " assigned");
    const S cx = x;
    V       w  = cx;
    expect_content(want, extract(w), what + " converted from a const one");
    same_fields(info, list<V>(x), what + ": the struct itself");

    // read back
    same_fields(info, list<V>(v.template get<S>()), what + " read back");
    S fresh;
    REQUIRE_MSG(v.get(fresh), what + ": get(struct)");
    same_fields(info, list<V>(fresh), what + " read back into a fresh one");
    S implicit = v;
    same_fields(info, list<V>(implicit), what + " converted back implicitly");

    // from text and through streams
    auto text = J::dump(v);
    same_fields(info, list<V>(J::parse(text).template get<S>()), what + " through text");
    std::basic_stringstream<CT> ss;
    ss << J::wrap(x);
    if (ss.str() != text)
        fail(what + ": wrapped it is written as " + printable(ss.str()) + " instead of " + printable(text));
    S    in;
    auto wrapped = J::wrap(in);
    ss >> wrapped;
    same_fields(info, list<V>(in), what + " through a stream");

    // in containers
    {
        std::vector<S> many(static_cast<size_t>(s.range(1, 3)), x);
        V              a(many);
        REQUIRE_MSG(a.is_array() && a.size() == many.size(), what);
        expect_content(want, extract(a[many.size() - 1]), what + " in a vector");
        auto back = a.template get<std::vector<S>>();
        REQUIRE(back.size() == many.size());
        same_fields(info, list<V>(back.back()), what + " out of a vector");
        std::map<typename V::string_type, std::shared_ptr<S>> named;
        named[enc<V>(U"it")]   = std::make_shared<S>(x);
        named[enc<V>(U"none")] = nullptr;
        V o(named);
        expect_content(want, extract(o.at(enc<V>(U"it"))), what + " in a map of pointers");
        REQUIRE_MSG(o.at(enc<V>(U"none")).is_null(), what);
        auto m2 = o.template get<std::map<typename V::string_type, std::shared_ptr<S>>>();
        REQUIRE(m2.size() == 2 && m2[enc<V>(U"it")] && !m2[enc<V>(U"none")]);
        same_fields(info, list<V>(*m2[enc<V>(U"it")]), what + " out of a map of pointers");
    }

    // unknown members change nothing
    {
        V more = v;
        more[enc<V>(U"something unknown")] = build<V>(small_tree(s, 3));
        more[enc<V>(U"F0")]                = V(1);
        more[enc<V>(U"f0 ")]               = V(1);
        same_fields(info, list<V>(more.template get<S>()), what + " with unknown members");
    }

    // absent members
    S          other      = K::gen(s);
    const auto other_info = list<V>(other);
    for (int round = 0; round < 3; ++round)
    {
        const size_t i    = static_cast<size_t>(s.draw(info.size()));
        V            less = v;
        less.erase(enc<V>(info[i].name));
        const std::string absent = what + " without " + show(info[i].name);
        if (info[i].required)
        {
            bool threw;
            error_of<S>([&] { (void)less.template get<S>(); }, threw);
            REQUIRE_MSG(threw, absent + " is accepted by get<T>()");
            S t = other;
            REQUIRE_MSG(!less.get(t), absent + " is accepted by get(T&)");
            std::basic_stringstream<CT> st;
            st << J::wrap(less);
            auto wt = J::wrap(t);
            error_of<S>([&] { st >> wt; }, threw);
            REQUIRE_MSG(threw, absent + " is accepted from a stream");
        }
        else
        {
            S t = other;
            REQUIRE_MSG(less.get(t), absent + ": get(T&)");
            // what is present is read, what is absent stays
            auto expected = overlay(info, other_info, i);
            // a pointer or container that is present replaces the old one
            same_fields(expected, list<V>(t), absent + " read into a used struct");
        }
    }
    // a null member for a pointer: the pointer becomes null, whatever it was
    {
        V    nulls = v;
        auto expected = overlay(info, other_info, static_cast<size_t>(-1));
        bool any      = false;
        for (size_t i = 0; i < info.size(); ++i)
            if (info[i].pointer)
            {
                nulls[enc<V>(info[i].name)] = nullptr;
                expected[i].m               = M();
                any                         = true;
            }
        if (any)
        {
            S t = other;
            REQUIRE_MSG(nulls.get(t), what + " with null for the pointers: get(T&)");
            same_fields(expected, list<V>(t), what + " with null for the pointers read into a used struct");
            c.inner(1);
        }
    }
    // something else than an object
    for (auto& f : info)
        if (f.required)
        {
            M    no = s.chance(1, 2) ? gen_scalar(s) : M::arr();
            V    q  = build<V>(no);
            bool threw;
            error_of<S>([&] { (void)q.template get<S>(); }, threw);
            REQUIRE_MSG(threw, "a struct with required fields is read from " + show(no));
            break;
        }
    expect_content(want, extract(v), what + ": the value in the end");
    c.inner(12);
    bool some = false, none = false;
    for (auto& f : info)
    {
        some = some || !f.standard;
        none = none || f.standard;
    }
    if (some)
        c.nontrivial(key);
    (void)none;
}
}  // namespace c14
