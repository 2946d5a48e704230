// C09: values behave as the containers they represent, over any history.
#include "nodes.hpp"
using namespace lib;

PROPERTY_INFO("C09", "a case is non-trivial if its history has at least three operations and at least one of them changed a container; cases are "
                     "distinct by the start value and the operations with their arguments");

namespace
{
const char* kind_text(value_constant::type t)
{
    return configor::to_string(t);
}

value_constant::type kind_of(const M& m)
{
    static const value_constant::type k[] = { value_constant::null, value_constant::boolean, value_constant::integer, value_constant::floating, value_constant::string, value_constant::array, value_constant::object };
    return k[m.k];
}

// everything that can be asked about a node without changing it
template <class V>
void observe(Src& s, const V& v, const M& m, const std::string& what)
{
    const std::string w = what + ", then asking " + show(m, 200);
    if (v.type() != kind_of(m))
        fail(w + ": type() is " + kind_text(v.type()));
    REQUIRE_MSG(v.is_null() == (m.k == M::Null), w + ": is_null()");
    REQUIRE_MSG(v.is_bool() == (m.k == M::Bool), w + ": is_bool()");
    REQUIRE_MSG(v.is_integer() == (m.k == M::Int), w + ": is_integer()");
    REQUIRE_MSG(v.is_floating() == (m.k == M::Flt), w + ": is_floating()");
    REQUIRE_MSG(v.is_number() == (m.k == M::Int || m.k == M::Flt), w + ": is_number()");
    REQUIRE_MSG(v.is_string() == (m.k == M::Str), w + ": is_string()");
    REQUIRE_MSG(v.is_array() == (m.k == M::Arr), w + ": is_array()");
    REQUIRE_MSG(v.is_object() == (m.k == M::Obj), w + ": is_object()");
    size_t size = m.k == M::Null ? 0 : m.k == M::Arr ? m.a.size() : m.k == M::Obj ? m.o.size() : 1;
    if (v.size() != size)
        fail(w + fmt(": size() is %zu, expected %zu", v.size(), size));
    bool empty = m.k == M::Null || ((m.k == M::Arr || m.k == M::Obj) && size == 0);
    if (v.empty() != empty)
        fail(w + ": empty() is " + (empty ? "false" : "true"));
    // lookups by key
    U    u = small_key(s);
    if (m.k == M::Obj && !m.o.empty() && s.flip())
    {
        auto it = m.o.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(s.draw(m.o.size())));
        u = it->first;
    }
    auto k    = enc<V>(u);
    auto hit  = m.o.find(u);
    bool have = m.k == M::Obj && hit != m.o.end();
    REQUIRE_MSG(v.count(k) == (have ? 1u : 0u), w + ": count(\"" + show(u) + "\")");
    Out  kout = m.k != M::Obj ? Out::Key : have ? Out::Ok : Out::Range;
    auto check_hit = [&](const V& x) {
        if (!have)
            return;
        expect_same(x, hit->second, w + ": the member \"" + show(u) + "\"");
    };
    expect(kout, outcome([&] { check_hit(v.at(k)); }), w + ": at(\"" + show(u) + "\")");
    expect(kout, outcome([&] { check_hit(v[k]); }), w + ": const [\"" + show(u) + "\"]");
    if (u.find(U'\0') == U::npos)
    {
        expect(kout, outcome([&] { check_hit(v.at(k.c_str())); }), w + ": at(C string \"" + show(u) + "\")");
        expect(kout, outcome([&] { check_hit(v[k.c_str()]); }), w + ": const [C string \"" + show(u) + "\"]");
    }
    auto f = v.find(k);
    if (have)
    {
        REQUIRE_MSG(f != v.end(), w + ": find(\"" + show(u) + "\") is end()");
        REQUIRE_MSG(f.key() == k, w + ": key() of find()");
        check_hit(*f);
    }
    else
        REQUIRE_MSG(f == v.end(), w + ": find(\"" + show(u) + "\") is not end()");
    // by index
    size_t i    = static_cast<size_t>(s.draw(size + 3));
    if (s.chance(1, 12))
    {
        // far beyond, also where only the low bits would be an index
        static const size_t far[] = { 64, 256, 65536, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, ~size_t(0) };
        const size_t        f     = s.pick(far);
        i                         = f == ~size_t(0) ? f - i : f + i;
    }
    Out    iout = m.k != M::Arr ? Out::Key : i < m.a.size() ? Out::Ok : Out::Range;
    auto   check_elem = [&](const V& x) {
        if (i < m.a.size())
            expect_same(x, m.a[i], w + fmt(": element %zu", i));
    };
    expect(iout, outcome([&] { check_elem(v.at(i)); }), w + fmt(": at(%zu)", i));
    expect(iout, outcome([&] { check_elem(v[i]); }), w + fmt(": const [%zu]", i));
}

template <class V>
V scalar_value(const M& m)
{
    return build<V>(m);
}

template <class V>
void history(Src& s, Ctx& c)
{
    using SS   = typename V::string_type;
    M    model = s.chance(1, 100) ? gen_long(s, 2100) : s.chance(1, 5) ? M::null() : small_tree(s);
    V    value = build<V>(model);
    auto start = show(model);
    c.note("start: " + start);
    std::string log;
    size_t      n       = 0;
    bool        changed = false;
    do
    {
        std::vector<const M*> path;
        Node<V>               x = descend(s, value, model, &path);
        V&                    v = *x.v;
        M&                    m = *x.m;
        std::string           at  = fmt(" at depth %zu ", path.size() - 1) + "on " + show(m, 120);
        std::string           op;
        const M               before = model;
        bool                  must_stay = false;
        switch (s.draw(16))
        {
        case 0:  // member = value
        {
            U    u = small_key(s);
            M    t = small_tree(s, 4);
            auto k = enc<V>(u);
            op     = "[\"" + show(u) + "\"] = " + show(t) + at;
            bool ok = m.k == M::Null || m.k == M::Obj;
            bool cs = s.flip() && u.find(U'\0') == U::npos;
            Out  o  = outcome([&] {
                if (cs)
                    v[k.c_str()] = build<V>(t);
                else
                    v[k] = build<V>(t);
            });
            expect(ok ? Out::Ok : Out::Key, o, op);
            if (ok)
            {
                m.k    = M::Obj;
                m.o[u] = t;
            }
            must_stay = !ok;
            break;
        }
        case 1:  // member, only named
        {
            U    u = small_key(s);
            auto k = enc<V>(u);
            op     = "[\"" + show(u) + "\"]" + at;
            bool ok = m.k == M::Null || m.k == M::Obj;
            expect(ok ? Out::Ok : Out::Key, outcome([&] { v[k]; }), op);
            if (ok)
            {
                m.k = M::Obj;
                m.o[u];
            }
            must_stay = !ok;
            break;
        }
        case 2:  // element = value, also beyond the end
        {
            size_t i = static_cast<size_t>(s.draw((m.k == M::Arr ? m.a.size() : 0) + (nodes(model) < 400 && s.chance(1, 10) ? 150 : 4)));
            M      t = small_tree(s, 4);
            op       = fmt("[%zu] = ", i) + show(t) + at;
            bool ok  = m.k == M::Null || m.k == M::Arr;
            expect(ok ? Out::Ok : Out::Key, outcome([&] { v[i] = build<V>(t); }), op);
            if (ok)
            {
                m.k = M::Arr;
                if (i >= m.a.size())
                    m.a.resize(i + 1);
                m.a[i] = t;
            }
            must_stay = !ok;
            break;
        }
        case 3:  // element, only named
        {
            size_t i = static_cast<size_t>(s.draw((m.k == M::Arr ? m.a.size() : 0) + (nodes(model) < 400 && s.chance(1, 10) ? 150 : 4)));
            op       = fmt("[%zu]", i) + at;
            bool ok  = m.k == M::Null || m.k == M::Arr;
            expect(ok ? Out::Ok : Out::Key, outcome([&] { v[i]; }), op);
            if (ok)
            {
                m.k = M::Arr;
                if (i >= m.a.size())
                    m.a.resize(i + 1);
            }
            must_stay = !ok;
            break;
        }
        case 4:
        case 5:
        {
            M        t = small_tree(s, 4);
            bool     ok = m.k == M::Null || m.k == M::Arr;
            unsigned how = static_cast<unsigned>(s.draw(5));
            Out      o;
            op = "push_back " + show(t) + at;
            if (how == 0)
            {
                const V e = build<V>(t);
                o         = outcome([&] { v.push_back(e); });
            }
            else if (how == 1)
                o = outcome([&] { v.push_back(build<V>(t)); });
            else if (how == 2)
            {
                V e = build<V>(t);
                o   = outcome([&] { v.emplace_back(e); });
            }
            else if (how == 3)
            {
                int64_t i = gen_int(s);
                t         = M::integer(i);
                op        = "emplace_back(integer) " + show(t) + at;
                o         = outcome([&] { v.emplace_back(i); });
            }
            else
            {
                U u = gen_str(s, 6);
                t   = M::str(u);
                op  = "emplace_back(string) " + show(t) + at;
                o   = outcome([&] { v.emplace_back(enc<V>(u)); });
            }
            expect(ok ? Out::Ok : Out::Type, o, op);
            if (ok)
            {
                m.k = M::Arr;
                m.a.push_back(t);
            }
            must_stay = !ok;
            break;
        }
        case 6:
        {
            U u = m.k == M::Obj && !m.o.empty() && s.flip() ? std::next(m.o.begin(), static_cast<std::ptrdiff_t>(s.draw(m.o.size())))->first : small_key(s);
            op  = "erase(\"" + show(u) + "\")" + at;
            size_t r = 99;
            Out    o = outcome([&] { r = v.erase(enc<V>(u)); });
            expect(m.k == M::Obj ? Out::Ok : Out::Key, o, op);
            if (m.k == M::Obj)
            {
                size_t e = m.o.erase(u);
                REQUIRE_MSG(r == e, op + fmt(": returned %zu, expected %zu", r, e));
            }
            else
                must_stay = true;
            break;
        }
        case 7:
        {
            if (m.k == M::Arr && m.a.empty())
                break;  // there is no valid index
            size_t i = m.k == M::Arr ? static_cast<size_t>(s.draw(m.a.size())) : static_cast<size_t>(s.draw(2));
            op       = fmt("erase(%zu)", i) + at;
            expect(m.k == M::Arr ? Out::Ok : Out::Key, outcome([&] { v.erase(i); }), op);
            if (m.k == M::Arr)
                m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(i));
            else
                must_stay = true;
            break;
        }
        case 8:  // erase at an iterator or a range
        {
            size_t cnt = m.k == M::Arr ? m.a.size() : m.k == M::Obj ? m.o.size() : 0;
            size_t i   = static_cast<size_t>(s.draw(cnt + 1));
            size_t j   = i + static_cast<size_t>(s.draw(cnt - i + 1));
            bool   one = s.flip();
            if ((m.k == M::Arr || m.k == M::Obj) && one && i == cnt)
                break;
            auto a = v.begin(), b = v.begin();
            if (m.k == M::Arr || m.k == M::Obj)
            {
                for (size_t q = 0; q < i; ++q)
                    ++a;
                for (size_t q = 0; q < j; ++q)
                    ++b;
            }
            op = (one ? fmt("erase(begin+%zu)", i) : fmt("erase(begin+%zu, begin+%zu)", i, j)) + at;
            auto r = v.end();
            Out  o = outcome([&] { r = one ? v.erase(a) : v.erase(a, b); });
            bool ok = m.k == M::Arr || m.k == M::Obj;
            expect(ok ? Out::Ok : Out::Iter, o, op);
            if (one)
                j = i + 1;
            if (m.k == M::Arr)
                m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(i), m.a.begin() + static_cast<std::ptrdiff_t>(j));
            else if (m.k == M::Obj)
                m.o.erase(std::next(m.o.begin(), static_cast<std::ptrdiff_t>(i)), std::next(m.o.begin(), static_cast<std::ptrdiff_t>(j)));
            if (ok)
            {
                auto e = v.begin();
                for (size_t q = 0; q < i; ++q)
                    ++e;
                REQUIRE_MSG(r == e, op + ": the returned iterator is not the successor");
            }
            must_stay = !ok;
            break;
        }
        case 9:
        {
            op = "clear()" + at;
            v.clear();
            switch (m.k)
            {
            case M::Null:
                break;
            case M::Bool:
                m.b = false;
                break;
            case M::Int:
                m.i = 0;
                break;
            case M::Flt:
                m.f = 0;
                break;
            case M::Str:
                m.s.clear();
                break;
            default:
                m.a.clear();
                m.o.clear();
            }
            break;
        }
        case 10:  // assign something else
        {
            M t = s.flip() ? gen_scalar(s) : small_tree(s, 5);
            op  = "= " + show(t) + at;
            switch (t.k)
            {
            case M::Null:
                v = nullptr;
                break;
            case M::Bool:
                v = t.b;
                break;
            case M::Int:
                v = t.i;
                break;
            case M::Flt:
                v = t.f;
                break;
            case M::Str:
                v = enc<V>(t.s);
                break;
            default:
                v = build<V>(t);
            }
            m = t;
            break;
        }
        case 11:  // become empty of some kind
        {
            static const value_constant::type kinds[] = { value_constant::null, value_constant::boolean, value_constant::integer, value_constant::floating, value_constant::string, value_constant::array, value_constant::object };
            size_t k = static_cast<size_t>(s.draw(7));
            op       = std::string("= ") + kind_text(kinds[k]) + at;
            if (s.flip())
                v = kinds[k];
            else
            {
                V e(kinds[k]);
                v = std::move(e);
            }
            m   = M();
            m.k = static_cast<M::Kind>(k);
            break;
        }
        case 12:  // the content by reference
        {
            switch (m.k)
            {
            case M::Bool:
                op                        = "get<bool&> = " + at;
                v.template get<bool&>()   = !m.b;
                m.b                       = !m.b;
                break;
            case M::Int:
                op = "get_ptr<integer> = " + at;
                *v.template get_ptr<typename V::integer_type*>() = 42;
                m.i = 42;
                break;
            case M::Flt:
                op                                      = "get<float&> = " + at;
                v.template get<typename V::float_type&>() = 0.125;
                m.f                                     = 0.125;
                break;
            case M::Str:
                op = "get<string&> += " + at;
                v.template get<SS&>() += typename V::char_type('!');
                m.s += U'!';
                break;
            case M::Arr:
                op = "get<array&>.push_back " + at;
                v.template get<typename V::array_type&>().push_back(V(7));
                m.a.push_back(M::integer(7));
                break;
            case M::Obj:
                op = "get_ptr<object*>[\"z\"] = " + at;
                (*v.template get_ptr<typename V::object_type*>())[enc<V>(U"z")] = V(7);
                m.o[U"z"] = M::integer(7);
                break;
            default:
                op = "get_ptr of null" + at;
                REQUIRE(v.template get_ptr<typename V::object_type*>() == nullptr);
                REQUIRE(v.template get_ptr<typename V::array_type*>() == nullptr);
            }
            break;
        }
        case 13:  // through iterators
        {
            op = "*iterator = " + at;
            if (m.k == M::Arr && !m.a.empty())
            {
                size_t i = static_cast<size_t>(s.draw(m.a.size()));
                auto   it = v.begin();
                it += static_cast<std::ptrdiff_t>(i);
                *it    = V(static_cast<int64_t>(n));
                m.a[i] = M::integer(static_cast<int64_t>(n));
            }
            else if (m.k == M::Obj && !m.o.empty())
            {
                size_t i  = static_cast<size_t>(s.draw(m.o.size()));
                auto   it = v.begin();
                auto   im = m.o.begin();
                for (size_t q = 0; q < i; ++q)
                {
                    ++it;
                    ++im;
                }
                it.value()  = V(true);
                im->second = M::boolean(true);
            }
            break;
        }
        case 14:  // at() gives a reference to the stored one
        {
            op = "at() = " + at;
            if (m.k == M::Arr && !m.a.empty())
            {
                size_t i = static_cast<size_t>(s.draw(m.a.size()));
                v.at(i)  = V(enc<V>(U"at"));
                m.a[i]   = M::str(U"at");
            }
            else if (m.k == M::Obj && !m.o.empty())
            {
                U u               = m.o.rbegin()->first;
                v.at(enc<V>(u))   = V(2.5);
                m.o[u]            = M::flt(2.5);
            }
            else
            {
                expect(m.k == M::Arr ? Out::Range : Out::Key, outcome([&] { v.at(static_cast<size_t>(0)) = V(1); }), op);
                must_stay = true;
            }
            break;
        }
        default:  // many elements, so that the storage grows
        {
            if (m.k == M::Arr && nodes(model) < 300)
            {
                size_t k = static_cast<size_t>(s.range(1, 40));
                op       = fmt("%zu x push_back", k) + at;
                for (size_t i = 0; i < k; ++i)
                {
                    v.push_back(V(static_cast<int64_t>(i)));
                    m.a.push_back(M::integer(static_cast<int64_t>(i)));
                }
            }
            else if (m.k == M::Obj && nodes(model) < 300)
            {
                size_t k = static_cast<size_t>(s.range(1, 40));
                op       = fmt("%zu x [key]", k) + at;
                for (size_t i = 0; i < k; ++i)
                {
                    U u              = ascii(fmt("k%zu", (i * 7) % 41));
                    v[enc<V>(u)]     = V(static_cast<int64_t>(i));
                    m.o[u]           = M::integer(static_cast<int64_t>(i));
                }
            }
        }
        }
        if (op.empty())
        {
            ++n;
            continue;
        }
        log += op + "; ";
        c.note("\n" + op);
        expect_same(value, model, op);
        if (must_stay)
        {
            std::string d = diff(before, model, Tol(0));
            if (!d.empty())
                fail("harness: " + d);
        }
        else if (!diff(before, model, Tol(0)).empty())
            changed = true;
        observe<V>(s, value, model, op);
        Node<V> y = descend(s, value, model);
        observe<V>(s, *y.v, *y.m, op);
        expect_same(value, model, op + " and lookups");
        c.inner(2);
        ++n;
    } while (s.more(n, 30, 10));
    if (n >= 3 && changed)
        c.nontrivial(eng::hash_str(log, eng::hash_str(start) + sizeof(typename V::char_type)));
}
}  // namespace

PROP(narrow, 40000, 600000)
{
    history<json::value>(s, c);
}
PROP(wide, 15000, 200000)
{
    history<wjson::value>(s, c);
}

// arrays and objects of many elements, and members of long names
namespace
{
template <class V>
void large(Src& s, Ctx& c)
{
    using Str = typename V::string_type;
    std::vector<int64_t>            a;
    std::map<U, int64_t>            o;
    V                               va(value_constant::array), vo(value_constant::object);
    const size_t                    most = s.chance(1, 4) ? 5000 : 700;
    int64_t                         next = 1;
    uint64_t                        key  = sizeof(typename V::char_type);
    const size_t                    len  = s.chance(1, 3) ? 1 + static_cast<size_t>(s.draw(1200)) : 1;
    std::string                     log;
    auto name = [&](size_t i) {
        U u = ascii(std::to_string(i));
        return u + U(i % 3 ? 0 : len, U'n') + (i % 2 ? ascii("x") : U());
    };
    auto plain     = [](const Str& k) {
        U u;
        REQUIRE_MSG(chars<typename V::char_type>::dec(k, u), "a name is not the text it was given as");
        return u;
    };
    auto some_name = [&] { return o.empty() || s.chance(1, 4) ? name(static_cast<size_t>(s.draw(most))) : s.chance(1, 3) ? o.rbegin()->first : name(static_cast<size_t>(s.draw(o.size() + 1))); };
    auto place     = [&] { return a.empty() ? size_t(0) : s.chance(1, 4) ? a.size() - 1 : static_cast<size_t>(s.draw(a.size())); };
    auto check     = [&](const std::string& op) {
        const V& ca = va;
        const V& co = vo;
        if (va.size() != a.size() || vo.size() != o.size() || va.empty() != a.empty() || vo.empty() != o.empty())
            fail(op + fmt(": sizes are %zu and %zu, should be %zu and %zu", va.size(), vo.size(), a.size(), o.size()));
        size_t i = 0;
        for (const auto& e : ca)
        {
            if (i >= a.size() || e.template get<int64_t>() != a[i])
                fail(op + fmt(": visiting the array, element %zu of %zu is wrong", i, a.size()));
            ++i;
        }
        REQUIRE_MSG(i == a.size(), op + ": fewer elements are visited than there are");
        for (i = 0; i < a.size(); ++i)
            if (va[i].template get<int64_t>() != a[i] || va.at(i).template get<int64_t>() != a[i] || ca[i].template get<int64_t>() != a[i] || ca.at(i).template get<int64_t>() != a[i])
                fail(op + fmt(": element %zu of %zu looked up by index is wrong", i, a.size()));
        i = 0;
        for (auto it = co.begin(); it != co.end(); ++it, ++i)
        {
            auto found = o.find(plain(it.key()));
            if (found == o.end() || found->second != it.value().template get<int64_t>())
                fail(op + fmt(": visiting the object, member %zu of %zu is wrong", i, o.size()));
        }
        REQUIRE_MSG(i == o.size(), op + ": fewer members are visited than there are");
        for (const auto& x : o)
        {
            const Str k = enc<V>(x.first);
            auto      f = vo.find(k);
            if (vo.count(k) != 1 || f == vo.end() || f.key() != k || f.value().template get<int64_t>() != x.second || vo.at(k).template get<int64_t>() != x.second
                || co[k].template get<int64_t>() != x.second || co.find(k) == co.end() || co.at(k.c_str()).template get<int64_t>() != x.second)
                fail(op + ": member " + printable(utf8(x.first), 60) + fmt(" (of %zu) looked up by name is wrong", o.size()));
        }
        U absent = name(most + 1);
        REQUIRE_MSG(vo.count(enc<V>(absent)) == 0 && vo.find(enc<V>(absent)) == vo.end(), op + ": a member that is not there is found");
        expect(Out::Range, outcome([&] { va.at(a.size()); }), op + ", at(size)");
        expect(Out::Range, outcome([&] { vo.at(enc<V>(absent)); }), op + ", at(absent)");
    };
    size_t n = 0;
    do
    {
        std::string op;
        switch (s.draw(9))
        {
        case 0:
        case 1:
        {
            const size_t k = static_cast<size_t>(s.draw(most / 2));
            if (a.size() + k > most)
                break;
            op = fmt("%zu x push_back", k);
            for (size_t i = 0; i < k; ++i, ++next)
            {
                if (i % 2)
                    va.push_back(V(next));
                else
                    va.emplace_back(next);
                a.push_back(next);
            }
            break;
        }
        case 2:
        {
            const size_t k = static_cast<size_t>(s.draw(most / 2)), from = static_cast<size_t>(s.draw(most / 2)), step = 1 + static_cast<size_t>(s.draw(6));
            op = fmt("%zu x [name] from %zu by %zu", k, from, step);
            for (size_t i = 0; i < k; ++i, ++next)
            {
                const U u = name((from + i * step) % most);
                if (i % 2)
                    vo[enc<V>(u)] = next;
                else
                    vo[enc<V>(u).c_str()] = V(next);
                o[u] = next;
            }
            break;
        }
        case 3:  // write over elements
            for (size_t k = static_cast<size_t>(s.draw(8)); k && !a.empty(); --k, ++next)
            {
                const size_t i = place();
                op += fmt("[%zu] = ", i);
                if (k % 2)
                    va[i] = next;
                else
                    va.at(i) = V(next);
                a[i] = next;
            }
            break;
        case 4:
            if (!a.empty())
            {
                const size_t i = place();
                op = fmt("erase(%zu)", i);
                if (s.flip())
                    va.erase(i);
                else
                {
                    auto r = va.erase(va.begin() + static_cast<std::ptrdiff_t>(i));
                    REQUIRE(r - va.begin() == static_cast<std::ptrdiff_t>(i));
                }
                a.erase(a.begin() + static_cast<std::ptrdiff_t>(i));
            }
            break;
        case 5:
            if (!a.empty())
            {
                size_t i = place(), j = place();
                if (i > j)
                    std::swap(i, j);
                if (s.chance(1, 6))
                    j = a.size();
                op     = fmt("erase [%zu, %zu)", i, j);
                auto r = va.erase(va.begin() + static_cast<std::ptrdiff_t>(i), va.begin() + static_cast<std::ptrdiff_t>(j));
                REQUIRE(r - va.begin() == static_cast<std::ptrdiff_t>(i));
                a.erase(a.begin() + static_cast<std::ptrdiff_t>(i), a.begin() + static_cast<std::ptrdiff_t>(j));
            }
            break;
        case 6:
            for (size_t k = 1 + static_cast<size_t>(s.draw(40)); k; --k)
            {
                const U u = some_name();
                op += "erase " + printable(utf8(u), 20) + " ";
                const size_t had = o.erase(u);
                REQUIRE_MSG(vo.erase(enc<V>(u)) == had, op + ": erase() returned something else");
            }
            break;
        case 7:
            if (!o.empty())
            {
                // a range of members, in the order they are visited
                size_t i = static_cast<size_t>(s.draw(o.size())), j = i + static_cast<size_t>(s.draw(o.size() - i + 1));
                auto   first = vo.begin(), last = first;
                for (size_t k = 0; k < j; ++k)
                {
                    if (k < i)
                        ++first;
                    ++last;
                }
                op = fmt("erase members [%zu, %zu)", i, j);
                for (auto it = first; it != last; ++it)
                    o.erase(plain(it.key()));
                vo.erase(first, last);
            }
            break;
        default:
            if (s.chance(1, 3))
            {
                op = "clear";
                if (s.flip())
                {
                    va.clear();
                    a.clear();
                }
                else
                {
                    vo.clear();
                    o.clear();
                }
            }
            else
            {
                op = "resize by []";
                if (a.size() < most)
                {
                    va[a.size()] = next;
                    a.push_back(next++);
                }
            }
        }
        ++n;
        if (op.empty())
            continue;
        c.note(op + "; ");
        key = eng::hash_str(op, key);
        check(op);
        c.inner();
    } while (s.more(n, 14, 6));
    c.label(a.size() > 1000 || o.size() > 1000 ? "over 1000" : a.size() > 300 || o.size() > 300 ? "over 300" : "smaller");
    if (n >= 3)
        c.nontrivial(key);
}
}  // namespace

PROP(large_narrow, 500, 8000)
{
    large<json::value>(s, c);
}
PROP(large_wide, 200, 3000)
{
    large<wjson::value>(s, c);
}
