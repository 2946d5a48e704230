// C22: the way a value was built never shows.
#include "lib.hpp"

#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <vector>
using namespace lib;

PROPERTY_INFO("C22", "a case is non-trivial if the value has at least two nodes and the two ways of building it differ (a literal always is); cases are distinct by value and by the "
                     "ways taken");

namespace
{
template <class J>
struct Maker
{
    using V   = typename J::value;
    using Str = typename V::string_type;
    using C   = typename V::char_type;

    Src&        s;
    std::string how;  // what was done, for the report
    uint64_t    key = 17;

    explicit Maker(Src& src)
        : s(src)
    {
    }

    void did(const char* t)
    {
        if (how.size() < 1500)
            how += std::string(how.empty() ? "" : ", ") + t;
        key = eng::hash_str(t) ^ (key * 1099511628211ull);
    }

    // something a value held before
    V used()
    {
        switch (s.draw(8))
        {
        case 0: return V();
        case 1: return V(7);
        case 2: return V(2.5);
        case 3: return V(true);
        case 4: return V(Str(40, C('u')));
        case 5: return V(std::vector<int>{ 1, 2, 3, 4, 5, 6, 7, 8, 9 });
        case 6: return V(std::map<Str, int>{ { Str(1, C('a')), 1 }, { Str(1, C('b')), 2 } });
        default: return V(value_constant::object);
        }
    }

    V made(const M& m)
    {
        return altered(m, raw(m));
    }

    V altered(const M& m, V r)
    {
        for (unsigned n = static_cast<unsigned>(s.draw(3)); n; --n)
            switch (s.draw(14))
            {
            case 0: { did("copied"); V t(r); r = t; break; }
            case 1: { did("moved"); V t(std::move(r)); r = std::move(t); break; }
            case 2: { did("assigned over another"); V t = used(); t = r; r = std::move(t); break; }
            case 3: { did("moved over another"); V t = used(); t = std::move(r); r = t; break; }
            case 4: { did("swapped with another"); V t = used(); t.swap(r); std::swap(t, r); t.swap(r); r = t; break; }
            case 5: { did("put in an array and taken"); V t; t.push_back(r); t.push_back(used()); r = t[static_cast<size_t>(0)]; break; }
            case 6: { did("moved into an array and out"); V t = std::vector<V>{ used() }; t.emplace_back(std::move(r)); r = std::move(t[1]); break; }
            case 7: { did("member of an object"); V t; t[Str(2, C('m'))] = std::move(r); t[Str()] = used(); r = t.at(Str(2, C('m'))); break; }
            case 8: { did("replaced by its own element"); V t; t.push_back(std::move(r)); r = std::move(t); V in = r[static_cast<size_t>(0)]; r = in; break; }
            case 9: { did("assigned its own element"); V t; t.push_back(std::move(r)); t = t[static_cast<size_t>(0)]; r = std::move(t); break; }
            case 10: { did("assigned to itself"); V& t = r; r = t; break; }
            case 11: { did("wrapped into a pointer"); r = V(std::make_shared<V>(r)); break; }
            case 12:
                if (!has_kind(m, M::Flt))
                {
                    did("dumped and parsed");
                    const Str text = J::template dump<C>(r, { J::template serializer_type<C>::with_indent(static_cast<uint8_t>(s.draw(3)), C(' ')),
                                                              J::template serializer_type<C>::with_unicode_escaping(s.flip()) });
                    V         t    = used();
                    switch (s.draw(4))
                    {
                    case 0: r = J::parse(text); break;
                    case 1: J::parse(r, text); break;  // over what it was
                    case 2:
                        did("over another");
                        J::parse(t, text);
                        r = std::move(t);
                        break;
                    default:
                    {
                        did("extracted over another");
                        std::basic_istringstream<C> is(text);
                        auto                        w = J::wrap(t);
                        is >> w;
                        r = t;
                    }
                    }
                }
                break;
            default: { did("got"); V t = r.template get<V>(); r = t; }
            }
        return r;
    }

    V raw(const M& m)
    {
        switch (m.k)
        {
        case M::Null:
            switch (s.draw(8))
            {
            case 0: did("null: default"); return V();
            case 1: did("null: nullptr"); return V(nullptr);
            case 2: did("null: constant"); return V(value_constant::null);
            case 3: { did("null: assigned"); V v = used(); v = nullptr; return v; }
            case 4: { did("null: constant assigned"); V v = used(); v = value_constant::null; return v; }
            case 5: { did("null: left by indexing"); V v; v[static_cast<size_t>(2)] = 1; return v[static_cast<size_t>(1)]; }
            case 6: { did("null: left by name"); V v; v[Str(1, C('n'))]; return v[Str(1, C('n'))]; }
            default: did("null: pointer"); return V(std::shared_ptr<V>());
            }
        case M::Bool:
            switch (s.draw(7))
            {
            case 0: did("bool: value"); return V(m.b);
            case 1: { did("bool: assigned"); V v = used(); v = m.b; return v; }
            case 2: { did("bool: of a vector"); V v = std::vector<bool>{ !m.b, m.b }; return v[static_cast<size_t>(1)]; }
            case 3: { did("bool: by reference"); V v = !m.b; v.template get<bool&>() = m.b; return v; }
            case 4: { did("bool: by pointer"); V v(value_constant::boolean); *v.template get_ptr<bool*>() = m.b; return v; }
            case 5: { did("bool: cleared"); V v = true; v.clear(); if (m.b) v = true; return v; }
            default: { did("bool: parsed"); return J::parse(enc<V>(ascii(m.b ? " true" : "false "))); }
            }
        case M::Int:
            switch (s.draw(12))
            {
            case 0: did("int: value"); return V(m.i);
            case 1: { did("int: assigned"); V v = used(); v = m.i; return v; }
            case 2: { did("int: by reference"); V v = 1; v.template get<int64_t&>() = m.i; return v; }
            case 3: { did("int: by pointer"); V v(value_constant::integer); *v.template get_ptr<int64_t*>() = m.i; return v; }
            case 4: { did("int: cleared and added"); V v = 5; v.clear(); v.template get<int64_t&>() += m.i; return v; }
            case 5: { did("int: parsed"); return J::parse(enc<V>(ascii(std::to_string(m.i)))); }
            case 6: if (m.i >= INT32_MIN && m.i <= INT32_MAX) { did("int: as int"); return V(static_cast<int>(m.i)); } break;
            case 7: if (m.i >= -128 && m.i <= 127) { did("int: as signed char"); return V(static_cast<signed char>(m.i)); } break;
            case 8: if (m.i >= 0 && m.i <= 65535) { did("int: as unsigned short"); return V(static_cast<unsigned short>(m.i)); } break;
            case 9: if (m.i >= 0) { did("int: as unsigned long long"); return V(static_cast<unsigned long long>(m.i)); } break;
            case 10: if (m.i >= 0 && m.i <= UINT32_MAX) { did("int: as unsigned"); return V(static_cast<unsigned>(m.i)); } break;
            default: { did("int: of an array"); V v = std::array<long long, 3>{ { 1, m.i, 2 } }; return v[static_cast<size_t>(1)]; }
            }
            did("int: as long long");
            return V(static_cast<long long>(m.i));
        case M::Flt:
            switch (s.draw(8))
            {
            case 0: did("float: value"); return V(m.f);
            case 1: { did("float: assigned"); V v = used(); v = m.f; return v; }
            case 2: { did("float: by reference"); V v = 0.5; v.template get<double&>() = m.f; return v; }
            case 3: { did("float: by pointer"); V v(value_constant::floating); *v.template get_ptr<double*>() = m.f; return v; }
            case 4: { did("float: cleared"); V v = 5.5; v.clear(); v.template get<double&>() = m.f; return v; }
            case 5: if (static_cast<double>(static_cast<float>(m.f)) == m.f) { did("float: as float"); return V(static_cast<float>(m.f)); } break;
            case 6: { did("float: of a list"); V v = std::list<double>{ m.f, 1.0 }; return v[static_cast<size_t>(0)]; }
            default: { did("float: of a float"); const double f = m.f; V v = f; return v; }
            }
            did("float: plain");
            return V(m.f);
        case M::Str:
        {
            const Str t = enc<V>(m.s);
            switch (s.draw(11))
            {
            case 0: did("string: value"); return V(t);
            case 1: { did("string: moved"); Str u = t; return V(std::move(u)); }
            case 2: if (t.find(C(0)) == t.npos) { did("string: C string"); return V(t.c_str()); } break;
            case 3: { did("string: assigned"); V v = used(); v = t; return v; }
            case 4: if (t.find(C(0)) == t.npos) { did("string: C string assigned"); V v = used(); v = t.c_str(); return v; } break;
            case 5: { did("string: grown by reference"); V v(value_constant::string); for (C c : t) v.template get<Str&>() += c; return v; }
            case 6: { did("string: by pointer"); V v = Str(60, C('x')); v.template get_ptr<Str*>()->assign(t.begin(), t.end()); return v; }
            case 7: { did("string: cleared"); V v = Str(60, C('x')); v.clear(); v.template get<Str&>() = t; return v; }
            case 8: { did("string: of a vector"); V v = std::vector<Str>{ Str(), t }; return v[static_cast<size_t>(1)]; }
            case 9: { did("string: parsed"); return J::parse(J::template dump<C>(V(t))); }
            default: break;
            }
            did("string: plain");
            return V(t);
        }
        case M::Arr:
            return array(m);
        case M::Obj:
            return object(m);
        }
        return V();
    }

    V array(const M& m)
    {
        std::vector<V> e;
        for (auto& x : m.a)
            e.push_back(made(x));
        const size_t n = e.size();
        switch (s.draw(16))
        {
        case 0:
        case 1:
            switch (n)
            {
            case 0: did("array: literal"); return typename J::array{};
            case 1: did("array: literal"); return typename J::array{ e[0] };
            case 2: did("array: literal"); return typename J::array{ e[0], e[1] };
            case 3: did("array: literal"); return typename J::array{ e[0], e[1], e[2] };
            case 4: did("array: literal"); return typename J::array{ e[0], e[1], e[2], e[3] };
            default: break;
            }
            break;
        case 2:
            switch (n)
            {
            case 0: did("array: made"); return configor::make_array<V>({});
            case 1: did("array: made"); return configor::make_array<V>({ e[0] });
            case 2: did("array: made"); return configor::make_array<V>({ e[0], e[1] });
            case 3: did("array: made"); return configor::make_array<V>({ e[0], e[1], e[2] });
            default: break;
            }
            break;
        case 3: { did("array: pushed"); V v(value_constant::array); for (auto& x : e) v.push_back(x); return v; }
        case 4: if (n) { did("array: moved in"); V v; for (auto& x : e) v.push_back(std::move(x)); return v; } break;
        case 5: if (n) { did("array: emplaced"); V v; for (auto& x : e) v.emplace_back(std::move(x)); return v; } break;
        case 6: if (n) { did("array: indexed from the end"); V v; for (size_t i = n; i-- > 0;) v[i] = e[i]; return v; } break;
        case 7: if (n) { did("array: indexed"); V v; for (size_t i = 0; i < n; ++i) v[i] = std::move(e[i]); return v; } break;
        case 8: did("array: of a list"); return V(std::list<V>(e.begin(), e.end()));
        case 9: did("array: of a deque"); return V(std::deque<V>(e.begin(), e.end()));
        case 10: did("array: of a forward list"); return V(std::forward_list<V>(e.begin(), e.end()));
        case 11:
        {
            did("array: too long at first");
            V v(e);
            for (uint64_t k = 1 + s.draw(4); k; --k)
                v.push_back(used());
            if (s.flip())
                v.erase(v.begin() + static_cast<std::ptrdiff_t>(n), v.end());
            else
                while (v.size() > n)
                    v.erase(v.size() - 1);
            return v;
        }
        case 12:
        {
            did("array: with one more in front");
            V v;
            v.push_back(used());
            for (auto& x : e)
                v.push_back(x);
            if (s.flip())
                v.erase(static_cast<size_t>(0));
            else
                v.erase(v.begin());
            return v;
        }
        case 13: { did("array: cleared first"); V v = std::vector<int>{ 1, 2, 3 }; v.clear(); for (auto& x : e) v.push_back(x); return v; }
        case 14: { did("array: inserted by pointer"); V v(value_constant::array); auto& a = v.template get<typename V::array_type&>(); a.insert(a.begin(), e.begin(), e.end()); return v; }
        default: { did("array: reversed and back"); V v(std::vector<V>(e.rbegin(), e.rend())); V w(value_constant::array); for (auto it = v.rbegin(); it != v.rend(); ++it) w.push_back(*it); return w; }
        }
        // of one kind
        if (n && std::all_of(m.a.begin(), m.a.end(), [](const M& x) { return x.k == M::Int; }))
        {
            did("array: of integers");
            std::vector<int64_t> t;
            for (auto& x : m.a)
                t.push_back(x.i);
            return V(t);
        }
        if (n && std::all_of(m.a.begin(), m.a.end(), [](const M& x) { return x.k == M::Str; }))
        {
            did("array: of strings");
            std::deque<Str> t;
            for (auto& x : m.a)
                t.push_back(enc<V>(x.s));
            return V(t);
        }
        did("array: of a vector");
        return V(e);
    }

    V object(const M& m)
    {
        std::vector<std::pair<Str, V>> e;
        for (auto& x : m.o)
            e.emplace_back(enc<V>(x.first), made(x.second));
        for (size_t i = e.size(); i > 1; --i)
            std::swap(e[i - 1], e[s.draw(i)]);
        const size_t n = e.size();
        switch (s.draw(14))
        {
        case 0:
        case 1:
            switch (n)
            {
            case 0: did("object: literal"); return typename J::object{};
            case 1: did("object: literal"); return typename J::object{ { e[0].first, e[0].second } };
            case 2: did("object: literal"); return typename J::object{ { e[0].first, e[0].second }, { e[1].first, e[1].second } };
            case 3: did("object: literal"); return typename J::object{ { e[0].first, e[0].second }, { e[1].first, e[1].second }, e[2] };
            default: break;
            }
            break;
        case 2:
            switch (n)
            {
            case 0: did("object: made"); return configor::make_object<V>({});
            case 1: did("object: made"); return configor::make_object<V>({ { e[0].first, e[0].second } });
            case 2: did("object: made"); return configor::make_object<V>({ e[0], { e[1].first, e[1].second } });
            default: break;
            }
            break;
        case 3: if (n) { did("object: by name"); V v; for (auto& x : e) v[x.first] = x.second; return v; } break;
        case 4: if (n) { did("object: moved in by name"); V v; for (auto& x : e) v[x.first] = std::move(x.second); return v; } break;
        case 5:
            if (n && std::all_of(e.begin(), e.end(), [](const std::pair<Str, V>& x) { return x.first.find(C(0)) == x.first.npos; }))
            {
                did("object: by C string");
                V v;
                for (auto& x : e)
                    v[x.first.c_str()] = x.second;
                return v;
            }
            break;
        case 6: did("object: of an unordered map"); return V(std::unordered_map<Str, V>(e.begin(), e.end()));
        case 7:
        {
            did("object: with members erased");
            V v(std::map<Str, V>(e.begin(), e.end()));
            for (uint64_t k = 1 + s.draw(3); k; --k)
            {
                Str name = enc<V>(gen_key(s));
                if (v.count(name))
                    continue;
                v[name] = used();
                if (s.flip())
                {
                    if (v.erase(name) != 1)
                        fail("erase() of a member that is there gives something else than 1");
                }
                else
                    v.erase(v.find(name));
            }
            return v;
        }
        case 8:
        {
            did("object: members replaced");
            V v(value_constant::object);
            for (auto& x : e)
                v[x.first] = used();
            for (auto& x : e)
                v.at(x.first) = x.second;
            return v;
        }
        case 9:
        {
            did("object: members erased and added again");
            V v(std::map<Str, V>(e.begin(), e.end()));
            for (auto& x : e)
                if (s.flip())
                {
                    v.erase(x.first);
                    v[x.first] = x.second;
                }
            return v;
        }
        case 10: { did("object: cleared first"); V v = std::map<Str, V>(e.begin(), e.end()); v[Str(3, C('c'))] = 1; v.clear(); for (auto& x : e) v[x.first] = x.second; return v; }
        case 11: { did("object: inserted by pointer"); V v(value_constant::object); for (auto& x : e) v.template get_ptr<typename V::object_type*>()->emplace(x); return v; }
        case 12: { did("object: rebuilt by iterators"); V v(std::map<Str, V>(e.begin(), e.end())); V w(value_constant::object); for (auto it = v.rbegin(); it != v.rend(); ++it) w[it.key()] = it.value(); return w; }
        default: break;
        }
        did("object: of a map");
        return V(std::map<Str, V>(e.begin(), e.end()));
    }
};

template <class J, class T>
std::string converted(const typename J::value& v)
{
    try
    {
        return J::template dump<char>(typename J::value(v.template get<T>()));
    }
    catch (const configor::configor_exception&)
    {
        return "refused";
    }
}

template <class J>
void alike(Ctx& c, const M& m, const typename J::value& a, const typename J::value& b, const DOpt& o, const char* when)
{
    using V   = typename J::value;
    using Str = typename V::string_type;
    auto ok   = [&](bool x, const char* what) {
        c.inner();
        if (!x)
            fail(fmt("%s: %s for two values of the same content", when, what) + "\n  " + printable(J::template dump<char>(a)) + "\n  "
                 + printable(J::template dump<char>(b)));
    };
    std::string d = diff(m, extract(a), Tol(0));
    if (!d.empty())
        fail(std::string(when) + ": the first value does not hold what was put in: " + d);
    d = diff(m, extract(b), Tol(0));
    if (!d.empty())
        fail(std::string(when) + ": the second value does not hold what was put in: " + d);
    ok(a == b && b == a, "== is false");
    ok(!(a != b) && !(b != a), "!= is true");
    ok(!(a < b) && !(b < a) && !(a > b) && !(b > a), "< or > is true");
    ok(a <= b && a >= b && b <= a && b >= a, "<= or >= is false");
    ok(a.size() == b.size() && a.empty() == b.empty() && a.type() == b.type(), "size(), empty() or type() differ");
    ok(dump_with<J, char>(a, o) == dump_with<J, char>(b, o), "the dumped text differs");
    ok(J::template dump<wchar_t>(a) == J::template dump<wchar_t>(b), "the dumped wide text differs");
    ok(converted<J, bool>(a) == converted<J, bool>(b), "get<bool>() differs");
    ok(converted<J, int64_t>(a) == converted<J, int64_t>(b), "get<int64_t>() differs");
    ok(converted<J, double>(a) == converted<J, double>(b), "get<double>() differs");
    ok(converted<J, Str>(a) == converted<J, Str>(b), "get<string>() differs");
    ok(converted<J, std::vector<V>>(a) == converted<J, std::vector<V>>(b), "get<vector<value>>() differs");
    ok(converted<J, std::vector<int>>(a) == converted<J, std::vector<int>>(b), "get<vector<int>>() differs");
    ok(converted<J, std::map<Str, V>>(a) == converted<J, std::map<Str, V>>(b), "get<map<string, value>>() differs");
    ok(std::equal(a.begin(), a.end(), b.begin()) && std::equal(a.rbegin(), a.rend(), b.rbegin()), "iteration differs");
}

// one and the same step on either
template <class V>
void step(Src& s, M& m, V& a, V& b, std::string& what)
{
    using Str = typename V::string_type;
    switch (m.k)
    {
    case M::Arr:
        switch (s.draw(4))
        {
        case 0:
        {
            what  = "push_back";
            M x   = gen_scalar(s);
            m.a.push_back(x);
            a.push_back(build<V>(x));
            b.push_back(build<V>(x));
            return;
        }
        case 1:
            if (!m.a.empty())
            {
                what     = "erase by index";
                size_t i = static_cast<size_t>(s.draw(m.a.size()));
                m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(i));
                a.erase(i);
                b.erase(i);
                return;
            }
            break;
        case 2:
        {
            what     = "index beyond the end";
            size_t i = m.a.size() + static_cast<size_t>(s.draw(3));
            m.a.resize(i + 1);
            m.a[i] = M::boolean(true);
            a[i]   = true;
            b[i]   = true;
            return;
        }
        default:
            break;
        }
        what = "clear";
        m.a.clear();
        a.clear();
        b.clear();
        return;
    case M::Obj:
        switch (s.draw(3))
        {
        case 0:
        {
            what  = "new or old member";
            U k   = gen_key(s);
            M x   = gen_scalar(s);
            m.o[k] = x;
            a[enc<V>(k)] = build<V>(x);
            b[enc<V>(k)] = build<V>(x);
            return;
        }
        case 1:
            if (!m.o.empty())
            {
                what = "erase the first member";
                m.o.erase(m.o.begin());
                a.erase(a.begin());
                b.erase(b.begin());
                return;
            }
            break;
        default:
            break;
        }
        what = "clear";
        m.o.clear();
        a.clear();
        b.clear();
        return;
    case M::Null:
        if (s.flip())
        {
            what = "index of null";
            m    = M::arr();
            m.a.push_back(M::null());
            a[static_cast<size_t>(0)];
            b[static_cast<size_t>(0)];
        }
        else
        {
            what = "push_back to null";
            m    = M::arr();
            m.a.push_back(M::integer(1));
            a.push_back(1);
            b.push_back(1);
        }
        return;
    case M::Str:
    {
        what = "append to the string";
        m.s += U(20, U'+');
        a.template get<Str&>() += enc<V>(U(20, U'+'));
        b.template get<Str&>() += enc<V>(U(20, U'+'));
        return;
    }
    default:
        what = "clear";
        m.b  = false;
        m.i  = 0;
        m.f  = 0;
        a.clear();
        b.clear();
    }
}

template <class J>
void run(Src& s, Ctx& c)
{
    using V = typename J::value;
    TreeOpts to;
    to.budget = 18;
    to.depth  = 3;
    to.big    = false;
    M    m    = s.chance(1, 5) ? gen_scalar(s) : gen_tree(s, to);
    if (m.k < M::Arr && s.chance(3, 4))
    {
        M    e = s.flip() ? M::arr() : M::obj();
        auto n = s.draw(5);
        if (s.chance(1, 60))
        {
            static const unsigned ns[] = { 16, 17, 31, 33, 64, 65, 127, 129, 255, 257, 300 };
            n                          = s.pick(ns);
        }
        for (uint64_t i = 0; i < n; ++i)
            if (e.k == M::Arr)
                e.a.push_back(i > 8 ? e.a[static_cast<size_t>(i % 7)] : gen_scalar(s));
            else
                e.o[i > 8 ? ascii(std::to_string(i)) : gen_key(s)] = i > 8 ? M::integer(static_cast<int64_t>(i)) : gen_scalar(s);
        m = e;
    }
    c.note(show(m));
    Maker<J> x(s), y(s);
    V        a = x.made(m);
    V        b = y.made(m);
    c.note("first: " + x.how + "\nsecond: " + y.how);
    const DOpt o = gen_dopt(s, m);
    alike<J>(c, m, a, b, o, "as built");
    const M n    = m;
    for (unsigned k = static_cast<unsigned>(s.draw(4)); k; --k)
    {
        std::string what;
        step(s, m, a, b, what);
        c.note("then " + what);
        alike<J>(c, m, a, b, o, ("after " + what).c_str());
    }
    c.label(kind_name(n.k));
    if (nodes(n) > 1 && x.how != y.how)
        c.nontrivial(hash(n) * 31 + x.key * 7 + y.key);
}

// the literals of the documentation, of C++ values of different types
template <class J>
void literal(Src& s, Ctx& c)
{
    using V          = typename J::value;
    using Str        = typename V::string_type;
    using O          = typename J::object;
    using A          = typename J::array;
    const int64_t i  = gen_int(s);
    const double  f  = gen_flt(s);
    const bool    b  = s.flip();
    const U       t  = gen_str(s);
    const Str     lt = enc<V>(t);
    U             k[4];
    Str           lk[4];
    for (int n = 0; n < 4; ++n)
    {
        k[n]  = s.chance(1, 4) && n ? k[n - 1] : gen_key(s);
        lk[n] = enc<V>(k[n]);
    }
    const auto form = s.draw(8);
    c.note(fmt("literal %u of ", static_cast<unsigned>(form)) + std::to_string(i) + fmt(" %.17g %d ", f, b) + show(t) + " names " + show(k[0]) + " " + show(k[1]) + " "
           + show(k[2]) + " " + show(k[3]));
    const M mi = M::integer(i), mf = M::flt(f), mb = M::boolean(b), mt = M::str(t), mn = M::null();
    V       v;
    M       want, other;  // of members of the same name either may be kept
    auto    arr = [](std::vector<M> e) { M m = M::arr(); m.a = e; return m; };
    auto    obj = [&](std::vector<M> e, bool first) {
        M m = M::obj();
        for (size_t n = 0; n < e.size(); ++n)
            if (first)
                m.o.emplace(k[n], e[n]);
            else
                m.o[k[n]] = e[n];
        return m;
    };
    switch (form)
    {
    case 0:
        v    = A{ i, f, b, nullptr, lt };
        want = other = arr({ mi, mf, mb, mn, mt });
        break;
    case 1:
        v     = O{ { lk[0], i }, { lk[1], lt }, { lk[2], nullptr }, { lk[3], b } };
        want  = obj({ mi, mt, mn, mb }, true);
        other = obj({ mi, mt, mn, mb }, false);
        break;
    case 2:
        v     = O{ { lk[0], A{ f, A{}, O{} } }, { lk[1], O{ { lk[1], lt } } } };
        want  = obj({ arr({ mf, M::arr(), M::obj() }), M::obj() }, true);
        other = obj({ arr({ mf, M::arr(), M::obj() }), M::obj() }, false);
        {
            M in = M::obj();
            in.o[k[1]] = mt;
            if (k[0] != k[1])
                want.o[k[1]] = in;
            other.o[k[1]] = in;
        }
        break;
    case 3:
        v    = A{ A{ i }, A{ A{ lt }, O{ { lk[0], f } } }, O{} };
        want = M::obj();
        want.o[k[0]] = mf;
        want = other = arr({ arr({ mi }), arr({ arr({ mt }), want }), M::obj() });
        break;
    case 4:
        v     = configor::make_object<V>({ { lk[0], std::vector<int64_t>{ i, 1 } }, { lk[1], configor::make_array<V>({ b, lt }) }, { lk[2], lt } });
        want  = obj({ arr({ mi, M::integer(1) }), arr({ mb, mt }), mt }, true);
        other = obj({ arr({ mi, M::integer(1) }), arr({ mb, mt }), mt }, false);
        break;
    case 5:
    {
        // kept, and used more than once
        A a{ i, lt, f };
        O o{ { lk[0], a }, { lk[1], b } };
        const V x = a;
        v         = A{ x, o, a };
        M m       = arr({ mi, mt, mf });
        want      = arr({ m, obj({ m, mb }, true), m });
        other     = arr({ m, obj({ m, mb }, false), m });
        break;
    }
    case 6:
    {
        const std::unique_ptr<O> o(new O{ { lk[0], lt }, { lk[1], O{ { lk[2], A{ lt, lt } } } } });
        std::vector<A>           as(2, A{ *o, i });
        v     = *o;
        v     = A{ v, as[1] };
        M in  = M::obj();
        in.o[k[2]] = arr({ mt, mt });
        want  = arr({ obj({ mt, in }, true), arr({ obj({ mt, in }, true), mi }) });
        other = arr({ obj({ mt, in }, false), arr({ obj({ mt, in }, false), mi }) });
        break;
    }
    default:
        v.push_back(A{ lt });
        v.emplace_back(O{ { lk[0], b } });
        v[static_cast<size_t>(2)] = O{ { lk[1], A{ i } } };
        want = M::obj();
        want.o[k[0]] = mb;
        other = M::obj();
        other.o[k[1]] = arr({ mi });
        want = other = arr({ arr({ mt }), want, other });
    }
    c.inner();
    const M got = extract(v);
    if (!diff(want, got, Tol(0)).empty() && !diff(other, got, Tol(0)).empty())
        fail("the literal holds " + show(got) + "\n  but should hold " + show(want));
    c.label(fmt("literal %u", static_cast<unsigned>(form)).c_str());
    c.nontrivial(hash(want) * 8 + form);
}
}  // namespace

namespace
{
// long strings, names and keys, and containers of many elements
template <class J>
void large(Src& s, Ctx& c)
{
    using V   = typename J::value;
    using Str = typename V::string_type;
    const M m = gen_long(s, s.chance(1, 10) ? 70000 : 8200, false);
    auto    one = [&](std::string& how) {
        switch (s.draw(m.k == M::Arr || m.k == M::Obj ? 5 : 2))
        {
        case 0: how += " element by element"; return build<V>(m);
        case 1: how += " parsed"; return V(J::parse(J::dump(build<V>(m))));
        case 2:
            how += " one after the other";
            if (m.k == M::Arr)
            {
                V v;
                for (size_t i = 0; i < m.a.size(); ++i)
                    if (i % 3 == 0)
                        v.push_back(build<V>(m.a[i]));
                    else if (i % 3 == 1)
                        v.emplace_back(build<V>(m.a[i]));
                    else
                        v[i] = build<V>(m.a[i]);
                return v;
            }
            else
            {
                V v;
                for (auto it = m.o.rbegin(); it != m.o.rend(); ++it)
                    v[enc<V>(it->first)] = build<V>(it->second);
                return v;
            }
        case 3:
            how += " from a container";
            if (m.k == M::Arr)
            {
                std::deque<V> d;
                for (const M& e : m.a)
                    d.push_back(build<V>(e));
                return s.flip() ? V(d) : V(std::list<V>(d.begin(), d.end()));
            }
            else
            {
                std::unordered_map<Str, V> d;
                for (const auto& x : m.o)
                    d[enc<V>(x.first)] = build<V>(x.second);
                return s.flip() ? V(d) : V(std::map<Str, V>(d.begin(), d.end()));
            }
        default:
        {
            how += " with more, then erased";
            V v = build<V>(m);
            if (m.k == M::Arr)
            {
                const size_t more = 1 + static_cast<size_t>(s.draw(700));
                for (size_t i = 0; i < more; ++i)
                    v.push_back(V(i % 2 == 0));
                v.erase(v.begin() + static_cast<std::ptrdiff_t>(m.a.size()), v.end());
            }
            else
            {
                for (int i = 0; i < 100; ++i)
                    v[enc<V>(ascii("more" + std::to_string(i)))] = i;
                for (int i = 99; i >= 0; --i)
                    v.erase(enc<V>(ascii("more" + std::to_string(i))));
            }
            return v;
        }
        }
    };
    std::string ha, hb;
    Maker<J>    x(s), y(s);
    V           a = x.altered(m, one(ha)), b = y.altered(m, one(hb));
    c.note(show(m, 200) + "\nfirst:" + ha + ", " + x.how + "\nsecond:" + hb + ", " + y.how);
    alike<J>(c, m, a, b, gen_dopt(s, m), "as built");
    c.label(kind_name(m.k));
    if (ha + x.how != hb + y.how)
        c.nontrivial(hash(m) * 31 + eng::hash_str(ha + x.how + hb + y.how));
}
}  // namespace

PROP(large_narrow, 250, 4000)
{
    large<json>(s, c);
}

PROP(large_wide, 100, 1500)
{
    large<wjson>(s, c);
}

PROP(literals, 12000, 100000)
{
    if (s.chance(2, 3))
        literal<json>(s, c);
    else
        literal<wjson>(s, c);
}

PROP(narrow, 30000, 400000)
{
    run<json>(s, c);
}

PROP(wide, 15000, 200000)
{
    run<wjson>(s, c);
}
