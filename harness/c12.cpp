// C12: iteration visits every element exactly once, both ways.
#include "nodes.hpp"
#include <numeric>
using namespace lib;

PROPERTY_INFO("C12", "a case is non-trivial if the value iterated over has at least two elements or is a scalar or null, and at least five iterator "
                     "operations were compared; cases are distinct by the value and the operations");

namespace
{
// what an iteration over a value has to visit
template <class V>
struct Stored
{
    std::vector<const V*>                        at;   // the stored values, in order
    std::vector<typename V::string_type>         key;  // their keys
    std::vector<const M*>                        m;
    M::Kind                                      kind;
    size_t size() const
    {
        return at.size();
    }
};

template <class V>
Stored<V> stored(const V& v, const M& m)
{
    Stored<V> r;
    r.kind = m.k;
    if (m.k == M::Arr)
    {
        auto& a = *v.template get_ptr<const typename V::array_type*>();
        for (size_t i = 0; i < a.size(); ++i)
        {
            r.at.push_back(&a[i]);
            r.m.push_back(&m.a[i]);
        }
    }
    else if (m.k == M::Obj)
    {
        auto& o = *v.template get_ptr<const typename V::object_type*>();
        auto  q = m.o.begin();
        for (auto& x : o)
        {
            r.at.push_back(&x.second);
            r.key.push_back(x.first);
            REQUIRE(q != m.o.end() && enc<V>(q->first) == x.first);
            r.m.push_back(&q->second);
            ++q;
        }
    }
    else if (m.k != M::Null)
    {
        r.at.push_back(&v);
        r.m.push_back(&m);
    }
    return r;
}

// the key and value at an iterator, or the refusal
template <class V, class It>
void check_at(const It& it, const Stored<V>& st, size_t i, bool at_end, const std::string& what)
{
    if (at_end)
    {
        expect(Out::Range, outcome([&] { (void)*it; }), what + ": dereferencing the end");
        expect(Out::Range, outcome([&] { (void)it.value(); }), what + ": value() of the end");
        if (st.kind == M::Obj)
            expect(Out::Range, outcome([&] { (void)it.key(); }), what + ": key() of the end");
        else
        {
            Out o = outcome([&] { (void)it.key(); });
            if (o != Out::Range && o != Out::Iter)
                fail(what + ": key() of the end of a non-object: " + name(o));
        }
        return;
    }
    const V* want = st.at[i];
    const V& got  = *it;
    REQUIRE_MSG(&got == want, what + fmt(": does not refer to element %zu", i));
    REQUIRE_MSG(&it.value() == want, what + fmt(": value() does not refer to element %zu", i));
    REQUIRE_MSG(it.operator->() == want, what + fmt(": -> does not refer to element %zu", i));
    REQUIRE_MSG(it->type() == want->type(), what + fmt(": ->type() of element %zu", i));
    if (st.kind == M::Obj)
        REQUIRE_MSG(it.key() == st.key[i], what + fmt(": key() of member %zu", i));
    else
        expect(Out::Iter, outcome([&] { (void)it.key(); }), what + ": key() of a non-object");
}

// a random walk of two iterators; position p of n
template <class V, class It>
void walk(Src& s, Ctx& c, It begin, It end, const Stored<V>& st, bool reverse, const std::string& kind, uint64_t& key, size_t& ops)
{
    const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(st.size());
    struct
    {
        It             it;
        std::ptrdiff_t p;
    } x[2] = { { begin, 0 }, { s.flip() ? end : begin, 0 } };
    x[1].p = x[1].it == end ? n : 0;
    if (n == 0)
        REQUIRE_MSG(begin == end && !(begin != end), kind + ": begin and end of an empty value");
    std::string log = kind + " over " + kind_name(st.kind) + " of " + std::to_string(n) + ":";
    size_t      k   = 0;
    do
    {
        auto& a  = x[s.draw(2)];
        auto& b  = x[s.draw(2)];
        auto  el = [&](std::ptrdiff_t p) { return static_cast<size_t>(reverse ? n - 1 - p : p); };
        switch (s.draw(9))
        {
        case 0:
            if (a.p < n)
            {
                log += " ++";
                It& r = static_cast<It&>(++a.it);
                REQUIRE_MSG(&r == &a.it, log);
                ++a.p;
            }
            break;
        case 1:
            if (a.p < n)
            {
                log += " post++";
                auto old = a.it++;
                if (!reverse || st.kind == M::Arr || st.kind == M::Obj || a.p < n)
                    REQUIRE_MSG(&*old == st.at[el(a.p)], log + ": the old position");
                ++a.p;
            }
            break;
        case 2:
            if (a.p > 0)
            {
                log += " --";
                It& r = static_cast<It&>(--a.it);
                REQUIRE_MSG(&r == &a.it, log);
                --a.p;
            }
            break;
        case 3:
            if (a.p > 0)
            {
                log += " post--";
                bool was_end = a.p == n;
                auto old     = a.it--;
                if (!was_end)
                    REQUIRE_MSG(&*old == st.at[el(a.p)], log + ": the old position");
                --a.p;
            }
            break;
        case 4:  // offsets
        {
            std::ptrdiff_t to  = static_cast<std::ptrdiff_t>(s.draw(static_cast<uint64_t>(n) + 1));
            std::ptrdiff_t off = to - a.p;
            bool           neg = s.flip();
            log += fmt(" %s%td", neg ? "-=-" : "+=", off);
            Out o = outcome([&] {
                if (neg)
                    a.it -= -off;
                else
                    a.it += off;
            });
            expect(st.kind == M::Obj ? Out::Iter : Out::Ok, o, log);
            if (st.kind != M::Obj)
                a.p = to;
            break;
        }
        case 5:
        {
            std::ptrdiff_t to  = static_cast<std::ptrdiff_t>(s.draw(static_cast<uint64_t>(n) + 1));
            std::ptrdiff_t off = to - a.p;
            bool           neg = s.flip();
            log += fmt(" %s%td", neg ? "- -" : "+ ", off);
            Out o = outcome([&] {
                bool same;
                if (neg)
                {
                    auto r = a.it - (-off);
                    same   = to == n ? r == end : &*r == st.at[el(to)];
                }
                else
                {
                    auto r = a.it + off;
                    same   = to == n ? r == end : &*r == st.at[el(to)];
                }
                REQUIRE_MSG(same, log + ": is not at the element");
            });
            expect(st.kind == M::Obj ? Out::Iter : Out::Ok, o, log);
            break;
        }
        case 6:  // differences
        {
            log += fmt(" diff(%td,%td)", a.p, b.p);
            std::ptrdiff_t d = 0;
            Out            o = outcome([&] { d = a.it - b.it; });
            if (st.kind == M::Arr)
            {
                expect(Out::Ok, o, log);
                REQUIRE_MSG(d == a.p - b.p, log + fmt(": the difference is %td", d));
            }
            else
                expect(Out::Iter, o, log);
            break;
        }
        case 7:  // comparisons
        {
            log += fmt(" cmp(%td,%td)", a.p, b.p);
            REQUIRE_MSG((a.it == b.it) == (a.p == b.p), log + ": ==");
            REQUIRE_MSG((a.it != b.it) == (a.p != b.p), log + ": !=");
            if (st.kind == M::Null)
                break;
            bool lt = false, le = false, gt = false, ge = false;
            Out  o  = outcome([&] {
                lt = a.it < b.it;
                le = a.it <= b.it;
                gt = a.it > b.it;
                ge = a.it >= b.it;
            });
            if (st.kind == M::Obj)
            {
                expect(Out::Iter, o, log);
                expect(Out::Iter, outcome([&] { (void)(a.it <= b.it); }), log + " <=");
                expect(Out::Iter, outcome([&] { (void)(a.it > b.it); }), log + " >");
                expect(Out::Iter, outcome([&] { (void)(a.it >= b.it); }), log + " >=");
                break;
            }
            expect(Out::Ok, o, log);
            REQUIRE_MSG(lt == (a.p < b.p) && le == (a.p <= b.p) && gt == (a.p > b.p) && ge == (a.p >= b.p), log + fmt(": < %d <= %d > %d >= %d", lt, le, gt, ge));
            break;
        }
        default:  // copies
        {
            log += " copy";
            It t(a.it);
            REQUIRE_MSG(t == a.it, log);
            t    = b.it;
            b.it = a.it;
            a.it = t;
            std::swap(a.p, b.p);
        }
        }
        for (auto& q : x)
        {
            REQUIRE_MSG((q.it == end) == (q.p == n), log + fmt(": position %td compared with the end", q.p));
            REQUIRE_MSG((q.it == begin) == (q.p == 0), log + fmt(": position %td compared with the begin", q.p));
            if (q.p < n || !reverse)
                check_at(q.it, st, q.p < n ? el(q.p) : 0, q.p == n, log);
        }
        ++ops;
        c.inner(2);
    } while (s.more(++k, 16, 8));
    key = eng::hash_str(log, key);
    c.note(log);
}

// one full pass each way
template <class V, class It>
void pass(It b, It e, const Stored<V>& st, bool reverse, const std::string& what)
{
    std::vector<const V*> seen;
    for (; b != e && seen.size() <= st.size(); ++b)
        seen.push_back(&*b);
    std::vector<const V*> want = st.at;
    if (reverse)
        std::reverse(want.begin(), want.end());
    if (seen != want)
        fail(what + fmt(" visits %zu of %zu elements or not in order", seen.size(), st.size()));
}

template <class V>
void passes(V& v, const V& cv, const Stored<V>& st)
{
    pass<V>(v.begin(), v.end(), st, false, "forward");
    pass<V>(cv.begin(), cv.end(), st, false, "const");
    pass<V>(v.cbegin(), v.cend(), st, false, "cbegin");
    pass<V>(v.rbegin(), v.rend(), st, true, "reverse");
    pass<V>(cv.rbegin(), cv.rend(), st, true, "const reverse");
    pass<V>(v.crbegin(), v.crend(), st, true, "crbegin");
    std::vector<const V*> seen;
    for (auto& x : v)
        seen.push_back(&x);
    REQUIRE(seen == st.at);
    seen.clear();
    for (const auto& x : cv)
        seen.push_back(&x);
    REQUIRE(seen == st.at);
    // the standard algorithms
    const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(st.size());
    REQUIRE(std::distance(cv.begin(), cv.end()) == n);
    REQUIRE(std::distance(v.rbegin(), v.rend()) == n);
    seen.clear();
    std::for_each(v.begin(), v.end(), [&](V& x) { seen.push_back(&x); });
    REQUIRE(seen == st.at);
    if (n)
    {
        REQUIRE(&*std::prev(v.end()) == st.at.back());
        REQUIRE(&*std::next(cv.begin(), n - 1) == st.at.back());
        auto f = std::find_if(cv.begin(), cv.end(), [&](const V& x) { return &x == st.at.back(); });
        REQUIRE(f != cv.end() && &*f == st.at.back());
        // a reverse iterator and its base
        auto it = v.begin();
        for (std::ptrdiff_t i = 0; i <= n; ++i)
        {
            typename V::reverse_iterator r(it);
            REQUIRE(r.base() == it);
            if (i > 0)
            {
                REQUIRE(&*r == st.at[static_cast<size_t>(i - 1)]);
                if (st.kind == M::Obj)
                    REQUIRE(r.key() == st.key[static_cast<size_t>(i - 1)]);
            }
            if (i < n)
                ++it;
        }
    }
    std::vector<const V*> back;
    std::transform(v.rbegin(), v.rend(), std::back_inserter(back), [](V& x) { return &x; });
    std::reverse(back.begin(), back.end());
    REQUIRE(back == st.at);
}

template <class V>
void iteration(Src& s, Ctx& c)
{
    TreeOpts to;
    to.budget = 16;
    to.depth  = 3;
    M m = s.chance(1, 5) ? gen_scalar(s) : gen_tree(s, to);
    if (s.chance(1, 400))
        m = gen_long(s, 5000);
    else if (s.chance(1, 6))
    {
        m = s.flip() ? M::arr() : M::obj();
        while (s.more(m.a.size() + m.o.size(), 60, 20))
        {
            if (m.k == M::Arr)
                m.a.push_back(gen_scalar(s));
            else
                m.o[gen_key(s)] = gen_scalar(s);
        }
    }
    V value = build<V>(m);
    c.note(show(m));
    Node<V>  x   = descend(s, value, m);
    V&       v   = *x.v;
    const V& cv  = v;
    M&       mm  = *x.m;
    uint64_t key = hash(mm, sizeof(typename V::char_type));
    auto     st  = stored<V>(v, mm);
    size_t   ops = 0;
    passes(v, cv, st);
    walk<V>(s, c, v.begin(), v.end(), st, false, "iterator", key, ops);
    walk<V>(s, c, cv.begin(), cv.end(), st, false, "const_iterator", key, ops);
    walk<V>(s, c, v.rbegin(), v.rend(), st, true, "reverse_iterator", key, ops);
    walk<V>(s, c, cv.rbegin(), cv.rend(), st, true, "const_reverse_iterator", key, ops);
    expect_same(value, m, "after iterating");

    // conversions
    const size_t n = st.size();
    {
        auto   it = v.begin();
        size_t i  = static_cast<size_t>(s.draw(n + 1));
        for (size_t q = 0; q < i; ++q)
            ++it;
        typename V::const_iterator k(it), l = cv.end();
        l = it;
        REQUIRE(k == l && k == it && !(k != it));
        check_at<V>(k, st, i, i == n, "converted to a const iterator");
        check_at<V>(l, st, i, i == n, "assigned to a const iterator");
        for (; k != cv.end(); ++k)
            check_at<V>(k, st, i++, false, "after conversion");
        REQUIRE(i == n);
    }
    // iterators of another value
    {
        V other = v;
        REQUIRE(!(other.begin() == v.begin()) && other.begin() != v.begin());
        expect(Out::Iter, outcome([&] { (void)(other.begin() < v.begin()); }), "comparing iterators of two values");
        expect(Out::Iter, outcome([&] { (void)(other.begin() - v.begin()); }), "difference of iterators of two values");
    }
    // writing through iterators
    if (n)
    {
        size_t i   = static_cast<size_t>(s.draw(n));
        M      t   = mm.k == M::Arr || mm.k == M::Obj ? small_tree(s, 3) : M::integer(gen_int(s));
        bool   rev = s.flip();
        size_t how = static_cast<size_t>(s.draw(3));
        auto   put = [&](V& y) { y = build<V>(t); };
        if (rev)
        {
            auto it = v.rbegin();
            for (size_t q = 0; q + 1 < n - i; ++q)
                ++it;
            how == 0 ? put(*it) : how == 1 ? put(it.value()) : put(*it.operator->());
        }
        else
        {
            auto it = v.begin();
            for (size_t q = 0; q < i; ++q)
                it++;
            how == 0 ? put(*it) : how == 1 ? put(it.value()) : put(*it.operator->());
        }
        if (mm.k == M::Arr)
            mm.a[i] = t;
        else if (mm.k == M::Obj)
        {
            auto q = mm.o.begin();
            std::advance(q, static_cast<std::ptrdiff_t>(i));
            q->second = t;
        }
        else
            mm = t;
        expect_same(value, m, fmt("writing through %s iterator at %zu", rev ? "a reverse" : "an", i));
    }
    // erasing
    size_t k = 0;
    while (s.more(k++, 5, 2))
    {
        const bool   arr = mm.k == M::Arr, obj = mm.k == M::Obj;
        const size_t z = arr ? mm.a.size() : obj ? mm.o.size() : 0;
        if (!arr && !obj)
        {
            expect(Out::Iter, outcome([&] { v.erase(v.begin()); }), "erase() of a scalar");
            expect(Out::Iter, outcome([&] { v.erase(v.cbegin(), v.cend()); }), "erase() of a scalar");
            break;
        }
        size_t i = static_cast<size_t>(s.draw(z + 1)), j = i + static_cast<size_t>(s.draw(z - i + 1));
        bool   one = s.flip(), cons = s.flip();
        if (one && i == z)
            continue;
        if (one)
            j = i + 1;
        std::string what = fmt("erase(%s%zu..%zu) of %zu", cons ? "const " : "", i, j, z);
        key              = eng::hash_str(what, key);
        c.note(what);
        auto   a = v.begin(), b = v.begin();
        for (size_t q = 0; q < i; ++q)
            ++a;
        for (size_t q = 0; q < j; ++q)
            ++b;
        std::ptrdiff_t left;
        if (cons)
        {
            typename V::const_iterator ca(a), cb(b);
            auto                       r = one ? v.erase(ca) : v.erase(ca, cb);
            left                         = std::distance(r, v.cend());
        }
        else
        {
            auto r = one ? v.erase(a) : v.erase(a, b);
            left   = std::distance(r, v.end());
        }
        REQUIRE_MSG(left == static_cast<std::ptrdiff_t>(z - j), what + fmt(": the returned iterator is %td before the end", left));
        if (arr)
            mm.a.erase(mm.a.begin() + static_cast<std::ptrdiff_t>(i), mm.a.begin() + static_cast<std::ptrdiff_t>(j));
        else
            mm.o.erase(std::next(mm.o.begin(), static_cast<std::ptrdiff_t>(i)), std::next(mm.o.begin(), static_cast<std::ptrdiff_t>(j)));
        expect_same(value, m, what);
        ++ops;
    }
    // erasing while iterating, as users do it
    if ((mm.k == M::Arr || mm.k == M::Obj) && s.flip())
    {
        auto drop = [](const M& e) { return e.k == M::Int || e.k == M::Null; };
        for (auto it = v.begin(); it != v.end();)
        {
            if (it->is_integer() || it->is_null())
                it = v.erase(it);
            else
                ++it;
        }
        mm.a.erase(std::remove_if(mm.a.begin(), mm.a.end(), drop), mm.a.end());
        for (auto it = mm.o.begin(); it != mm.o.end();)
            it = drop(it->second) ? mm.o.erase(it) : std::next(it);
        expect_same(value, m, "erasing while iterating");
    }
    passes(v, cv, stored<V>(v, mm));
    if (ops >= 5 && (n != 1 || (mm.k != M::Arr && mm.k != M::Obj)))
        c.nontrivial(key);
}
}  // namespace

PROP(narrow, 40000, 600000)
{
    iteration<json::value>(s, c);
}
PROP(wide, 15000, 200000)
{
    iteration<wjson::value>(s, c);
}
