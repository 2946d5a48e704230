// C19: custom value types; containers, allocators and the checks that run on every instantiation.
#pragma once
#include "inputs.hpp"
#include "lib.hpp"
#include "order.hpp"

#include <deque>
#include <initializer_list>
#include <limits>
#include <list>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <unordered_map>
#include <utility>

namespace c19
{
using namespace lib;

// ---------------------------------------------------------------- containers

// members in the order they were added
template <class K, class T, class... Ignored>
class FifoMap
{
public:
    using key_type       = K;
    using mapped_type    = T;
    using value_type     = std::pair<const K, T>;
    using list_type      = std::list<value_type>;
    using iterator       = typename list_type::iterator;
    using const_iterator = typename list_type::const_iterator;
    using size_type      = size_t;
    using difference_type = std::ptrdiff_t;
    using reference       = value_type&;
    using const_reference = const value_type&;

    FifoMap() {}
    FifoMap(std::initializer_list<value_type> l)
    {
        insert(l.begin(), l.end());
    }
    template <class It>
    FifoMap(It first, It last)
    {
        insert(first, last);
    }
    iterator begin()
    {
        return l_.begin();
    }
    iterator end()
    {
        return l_.end();
    }
    const_iterator begin() const
    {
        return l_.begin();
    }
    const_iterator end() const
    {
        return l_.end();
    }
    const_iterator cbegin() const
    {
        return l_.begin();
    }
    const_iterator cend() const
    {
        return l_.end();
    }
    bool empty() const
    {
        return l_.empty();
    }
    size_t size() const
    {
        return l_.size();
    }
    void clear()
    {
        l_.clear();
    }
    iterator find(const K& k)
    {
        iterator i = l_.begin();
        while (i != l_.end() && !(i->first == k))
            ++i;
        return i;
    }
    const_iterator find(const K& k) const
    {
        return const_cast<FifoMap*>(this)->find(k);
    }
    size_t count(const K& k) const
    {
        return find(k) != end();
    }
    T& operator[](const K& k)
    {
        iterator i = find(k);
        if (i == end())
            i = l_.insert(l_.end(), value_type(k, T()));
        return i->second;
    }
    template <class... A>
    std::pair<iterator, bool> emplace(A&&... a)
    {
        l_.emplace_back(std::forward<A>(a)...);
        iterator last = std::prev(l_.end());
        iterator i    = find(last->first);
        if (i == last)
            return { i, true };
        l_.erase(last);
        return { i, false };
    }
    template <class... A>
    iterator emplace_hint(const_iterator hint, A&&... a)
    {
        list_type one;
        one.emplace_back(std::forward<A>(a)...);
        iterator i = find(one.front().first);
        if (i != end())
            return i;
        i = one.begin();
        l_.splice(hint, one);
        return i;
    }
    template <class... A>
    std::pair<iterator, bool> try_emplace(const K& k, A&&... a)
    {
        iterator i = find(k);
        if (i != end())
            return { i, false };
        l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...));
        return { std::prev(l_.end()), true };
    }
    template <class A>
    std::pair<iterator, bool> insert_or_assign(const K& k, A&& a)
    {
        auto r = try_emplace(k);
        r.first->second = std::forward<A>(a);
        return r;
    }
    std::pair<iterator, bool> insert(const value_type& v)
    {
        return emplace(v);
    }
    std::pair<iterator, bool> insert(value_type&& v)
    {
        return emplace(std::move(v));
    }
    template <class P, class = typename std::enable_if<std::is_constructible<value_type, P&&>::value>::type>
    std::pair<iterator, bool> insert(P&& v)
    {
        return emplace(std::forward<P>(v));
    }
    iterator insert(const_iterator hint, const value_type& v)
    {
        return emplace_hint(hint, v);
    }
    iterator insert(const_iterator hint, value_type&& v)
    {
        return emplace_hint(hint, std::move(v));
    }
    void insert(std::initializer_list<value_type> l)
    {
        insert(l.begin(), l.end());
    }
    template <class It>
    void insert(It first, It last)
    {
        for (; first != last; ++first)
            emplace(first->first, first->second);
    }
    T& at(const K& k)
    {
        iterator i = find(k);
        if (i == end())
            throw std::out_of_range("at");
        return i->second;
    }
    const T& at(const K& k) const
    {
        return const_cast<FifoMap*>(this)->at(k);
    }
    std::pair<iterator, iterator> equal_range(const K& k)
    {
        iterator i = find(k);
        return { i, i == end() ? i : std::next(i) };
    }
    std::pair<const_iterator, const_iterator> equal_range(const K& k) const
    {
        const_iterator i = find(k);
        return { i, i == end() ? i : std::next(i) };
    }
    void swap(FifoMap& o)
    {
        l_.swap(o.l_);
    }
    friend void swap(FifoMap& a, FifoMap& b)
    {
        a.swap(b);
    }
    size_t max_size() const
    {
        return l_.max_size();
    }
    size_t erase(const K& k)
    {
        iterator i = find(k);
        if (i == end())
            return 0;
        l_.erase(i);
        return 1;
    }
    iterator erase(iterator i)
    {
        return l_.erase(i);
    }
    iterator erase(const_iterator i)
    {
        return l_.erase(i);
    }
    iterator erase(iterator i, iterator j)
    {
        return l_.erase(i, j);
    }
    iterator erase(const_iterator i, const_iterator j)
    {
        return l_.erase(i, j);
    }
    friend bool operator==(const FifoMap& a, const FifoMap& b)
    {
        return a.l_ == b.l_;
    }
    friend bool operator!=(const FifoMap& a, const FifoMap& b)
    {
        return !(a == b);
    }
    friend bool operator<(const FifoMap& a, const FifoMap& b)
    {
        return a.l_ < b.l_;
    }

private:
    list_type l_;
};

// a deque with the one function of a vector it lacks
template <class T>
struct Deque : std::deque<T>
{
    using std::deque<T>::deque;
    void   reserve(size_t) {}
    size_t capacity() const
    {
        return this->size();
    }
};

// ---------------------------------------------------------------- allocators

struct Ledger
{
    long blocks = 0, made = 0;
    bool bad    = false;
};
inline Ledger& ledger()
{
    static Ledger l;
    return l;
}

// marks what it hands out and expects the same back
template <class T>
struct Counting
{
    using value_type = T;
    Counting() {}
    template <class O>
    Counting(const Counting<O>&)
    {
    }
    struct Head
    {
        size_t magic, n;
        double align[2];
    };
    T* allocate(size_t n)
    {
        Head* h  = static_cast<Head*>(std::malloc(sizeof(Head) + n * sizeof(T)));
        h->magic = 0xA110C + sizeof(T);
        h->n     = n;
        ++ledger().blocks;
        ++ledger().made;
        return reinterpret_cast<T*>(h + 1);
    }
    void deallocate(T* p, size_t n)
    {
        Head* h = reinterpret_cast<Head*>(p) - 1;
        if (h->magic != 0xA110C + sizeof(T) || h->n != n)
            ledger().bad = true;
        h->magic = 0;
        --ledger().blocks;
        std::free(h);
    }
    template <class O>
    bool operator==(const Counting<O>&) const
    {
        return true;
    }
    template <class O>
    bool operator!=(const Counting<O>&) const
    {
        return false;
    }
};

// ---------------------------------------------------------------- what an instantiation promises

enum Order
{
    Sorted,
    Added,
    Some
};

template <class J>
struct Traits
{
    using V = typename J::value;
    using I = typename V::integer_type;
    using R = typename V::float_type;

    // a stream of char16_t takes U+FFFF for its end
    static bool unstorable(const M& m)
    {
        if (sizeof(typename V::char_type) != 2)
            return false;
        if (storable(m.s) != m.s)
            return true;
        for (auto& x : m.a)
            if (unstorable(x))
                return true;
        for (auto& x : m.o)
            if (storable(x.first) != x.first || unstorable(x.second))
                return true;
        return false;
    }
    static U storable(U u)
    {
        if (sizeof(typename V::char_type) == 2)
            for (auto& c : u)
                if (c == 0xFFFF)
                    c = 0xFFFC;
        return u;
    }
    static bool fits(int64_t i)
    {
        if (std::is_unsigned<I>::value)
            return i >= 0 && static_cast<uint64_t>(i) <= static_cast<uint64_t>(std::numeric_limits<I>::max());
        return i >= static_cast<int64_t>(std::numeric_limits<I>::min()) && (sizeof(I) == 8 || i <= static_cast<int64_t>(std::numeric_limits<I>::max()));
    }
    // the nearest thing a value of this type can hold
    static M hold(const M& m)
    {
        M r = m;
        switch (m.k)
        {
        case M::Str:
            r.s = storable(m.s);
            break;
        case M::Int:
            if (!fits(m.i))
                r.i = static_cast<int64_t>(static_cast<I>(sizeof(I) == 8 ? m.i & std::numeric_limits<int64_t>::max() : m.i));
            break;
        case M::Flt:
        {
            double d = static_cast<double>(static_cast<R>(m.f));
            if (!std::isfinite(d) || (sizeof(R) < 8 && d != 0 && (std::fabs(d) > 1e30 || std::fabs(d) < 1e-30)))
                d = 0.5;
            r.f = d;
            break;
        }
        case M::Arr:
            for (auto& x : r.a)
                x = hold(x);
            break;
        case M::Obj:
            r.o.clear();
            for (auto& x : m.o)
                r.o[storable(x.first)] = hold(x.second);
            break;
        default:
            break;
        }
        return r;
    }
    // what reading the number of the model gives
    static M read(const M& m)
    {
        M r = m;
        if (m.k == M::Int && !fits(m.i))
            return M::flt(static_cast<double>(static_cast<R>(m.i)));
        for (auto& x : r.a)
            x = read(x);
        for (auto& x : r.o)
            x.second = read(x.second);
        return r;
    }
    static double accuracy()
    {
        return sizeof(R) < 8 ? 3e-6 : 1e-12;
    }
};

// the members of an object in the order they come
template <class V>
std::vector<U> keys(const V& v)
{
    std::vector<U> r;
    for (auto it = v.begin(); it != v.end(); ++it)
    {
        U                                        u;
        auto                                     k = it.key();
        std::basic_string<typename V::char_type> c(k.begin(), k.end());
        if (!chars<typename V::char_type>::dec(c, u))
            fail("a key of the value is not well-formed unicode");
        r.push_back(u);
    }
    return r;
}
inline std::string show_keys(const std::vector<U>& k)
{
    std::string r;
    for (auto& x : k)
        r += show(x) + " ";
    return r;
}

template <class V>
V convert_int(int64_t i)
{
    return V(static_cast<typename V::integer_type>(i));
}

// built in a given order of members
template <class V>
V make(const M& m)
{
    switch (m.k)
    {
    case M::Int:
        return V(static_cast<typename V::integer_type>(m.i));
    case M::Flt:
        return V(static_cast<typename V::float_type>(m.f));
    case M::Arr:
    {
        V v(value_constant::array);
        for (auto& x : m.a)
            v.push_back(make<V>(x));
        return v;
    }
    case M::Obj:
    {
        V v(value_constant::object);
        for (auto& x : m.o)
            v[enc<V>(x.first)] = make<V>(x.second);
        return v;
    }
    default:
        return build<V>(m);
    }
}

template <class V>
void expect_value(const V& v, const M& m, const std::string& what, double rel = 0)
{
    std::string d = diff(m, extract(v), Tol(rel));
    if (!d.empty())
        fail(what + ": " + d);
}

inline M limited(Src& s, size_t budget, bool floats = true)
{
    TreeOpts to;
    to.budget = budget;
    to.floats = floats;
    to.big    = false;
    return gen_tree(s, to);
}
inline double widest(const M& m)
{
    double r = 0;
    if (m.k == M::Flt)
        r = std::fabs(m.f);
    if (m.k == M::Int)
        r = std::fabs(static_cast<double>(m.i));
    for (auto& x : m.a)
        r = std::max(r, widest(x));
    for (auto& x : m.o)
        r = std::max(r, widest(x.second));
    return r;
}
// floats a `float` cannot read
inline bool out_of_reach(const M& m, double hi, double lo)
{
    if (m.k == M::Flt && m.f != 0 && (std::fabs(m.f) > hi || std::fabs(m.f) < lo))
        return true;
    for (auto& x : m.a)
        if (out_of_reach(x, hi, lo))
            return true;
    for (auto& x : m.o)
        if (out_of_reach(x.second, hi, lo))
            return true;
    return false;
}

// ---------------------------------------------------------------- building, comparing, copying

// held by the type, integers exact as its floats
template <class J>
M tamed(const M& m)
{
    M r = Traits<J>::hold(m);
    ord::tame(r, int64_t(1) << std::min(53, std::numeric_limits<typename J::value::float_type>::digits));
    return r;
}

template <class J>
void values(Src& s, Ctx& c, const char* name, Order order)
{
    using V = typename J::value;
    using T = Traits<J>;
    const M a = tamed<J>(limited(s, 9)), near = [&] {
        M x = a;
        M* p = &x;
        while ((p->k == M::Arr && !p->a.empty()) || (p->k == M::Obj && !p->o.empty()))
        {
            p = p->k == M::Arr ? &p->a[s.draw(p->a.size())] : &std::next(p->o.begin(), static_cast<std::ptrdiff_t>(s.draw(p->o.size())))->second;
            if (s.chance(1, 3))
                break;
        }
        *p = tamed<J>(gen_scalar(s));
        return x;
    }();
    const M b = s.flip() ? near : tamed<J>(limited(s, 5));
    c.note(std::string(name) + ": " + show(a) + " and " + show(b));
    const std::string what = std::string(name) + " " + show(a);
    {
        const V va = make<V>(a), vb = make<V>(b);
        expect_value(va, a, what + " built");
        V copy(va);
        expect_value(copy, a, what + " copied");
        const bool eq = ord::eq(a, b);
        REQUIRE_MSG(copy == va && !(copy != va), what + ": a copy is not equal");
        if ((va == vb) != eq || (va != vb) == eq || (vb == va) != eq)
            fail(what + (eq ? " is not equal to itself built again" : " equals " + show(b)));
        if (order == Sorted)
        {
            const ord::Order o = ord::order(a, b);
            if (o != ord::Unknown && (sizeof(typename V::char_type) != 2 || o == ord::Same) && ((va < vb) != (o == ord::Less) || (vb < va) != (o == ord::More)))
                fail(what + " " + ord::order_names[o] + " " + show(b) + " is not what the operators say");
            if ((va <= vb) != !(vb < va) || (va >= vb) != !(va < vb) || (va > vb) != (vb < va))
                fail(what + " and " + show(b) + ": <= or >= or > disagree with <");
        }
        copy = vb;
        expect_value(copy, b, what + " assigned over");
        V m(std::move(copy));
        expect_value(m, b, what + " moved from");
        V mine(va);
        mine.swap(m);
        expect_value(mine, b, what + " swapped");
        expect_value(m, a, what + " swapped");
        m = std::move(mine);
        expect_value(m, b, what + " move assigned");
        m = V();
        // initializer lists
        V l = typename J::array{ va, vb, typename J::object{ { enc<V>(U"k"), va } }, true, enc<V>(U"s") };
        M lm = M::arr();
        lm.a = { a, b, M::obj(), M::boolean(true), M::str(U"s") };
        lm.a[2].o[U"k"] = a;
        expect_value(l, lm, what + " in lists");
        l = configor::make_object<V>({ { enc<V>(U"k"), configor::make_array<V>({ va, vb }) } });
        REQUIRE(l.size() == 1 && l.is_object());
        expect_value(l[enc<V>(U"k")][size_t(0)], a, what + " in made lists");
    }
    c.inner(10);
    c.nontrivial(hash(b, hash(a, eng::hash_str(name))));
}

// ---------------------------------------------------------------- modifying, with the order of members

template <class J>
void history(Src& s, Ctx& c, const char* name, Order order)
{
    using V = typename J::value;
    using T = Traits<J>;
    V              arr, obj;
    std::vector<M> ma;
    std::map<U, M> mo;
    std::vector<U> seq;  // of the members as they were added
    uint64_t       key = eng::hash_str(name);
    size_t         n   = 0;
    do
    {
        static const char* const names[] = { "a", "b", "c", "", "longer than the buffer of a short string", "e" };
        const U   k  = s.chance(1, 8) ? gen_str(s, 4) : ascii(s.pick(names));
        const M   x  = T::hold(s.flip() ? gen_scalar(s) : limited(s, 3));
        const int op = static_cast<int>(s.draw(12));
        key          = hash(x, key * 16 + static_cast<uint64_t>(op));
        auto fresh   = [&] {
            if (!mo.count(k))
                seq.push_back(k);
            mo[k] = x;
        };
        std::string what = std::string(name) + fmt(" operation %d ", op) + show(k) + " " + show(x);
        c.note(what);
        switch (op)
        {
        case 0:
        case 1:
        case 2:
            obj[enc<V>(k)] = make<V>(x);
            fresh();
            break;
        case 3:
            if (obj.is_object())
                REQUIRE_MSG(obj.erase(enc<V>(k)) == mo.count(k), what);
            if (mo.erase(k))
                seq.erase(std::find(seq.begin(), seq.end(), k));
            break;
        case 4:
            if (obj.is_object() && obj.size())
            {
                auto it = obj.begin();
                std::advance(it, static_cast<std::ptrdiff_t>(s.draw(obj.size())));
                U    gone;
                auto kk = it.key();
                REQUIRE(chars<typename V::char_type>::dec(std::basic_string<typename V::char_type>(kk.begin(), kk.end()), gone));
                obj.erase(it);
                REQUIRE_MSG(mo.erase(gone) == 1, what + ": an unknown key");
                seq.erase(std::find(seq.begin(), seq.end(), gone));
            }
            break;
        case 5:
        case 6:
            arr.push_back(make<V>(x));
            ma.push_back(x);
            break;
        case 7:
            arr[ma.size() + 1] = make<V>(x);
            ma.push_back(M::null());
            ma.push_back(x);
            break;
        case 8:
            if (!ma.empty())
            {
                size_t i = static_cast<size_t>(s.draw(ma.size()));
                arr.erase(i);
                ma.erase(ma.begin() + static_cast<std::ptrdiff_t>(i));
            }
            break;
        case 9:
            if (!ma.empty())
            {
                size_t i = static_cast<size_t>(s.draw(ma.size()));
                arr[i]   = arr;
                M whole  = M::arr();
                whole.a  = ma;
                if (nodes(whole) > 60)
                    whole = M::null(), arr[i] = V();
                ma[i] = whole;
            }
            break;
        case 10:
        {
            V t(obj);
            obj = t;
            obj = V(std::move(t));
            break;
        }
        default:
            if (obj.is_object())
            {
                obj.clear();
                mo.clear();
                seq.clear();
            }
            break;
        }
        M wa = M::arr();
        wa.a = ma;
        if (arr.is_null())
            REQUIRE(ma.empty());
        else
            expect_value(arr, wa, what + ": the array");
        if (obj.is_null())
            REQUIRE(mo.empty());
        else
        {
            M wo = M::obj();
            wo.o = mo;
            expect_value(obj, wo, what + ": the object");
            std::vector<U> got = keys(obj);
            if (order == Added && got != seq)
                fail(what + ": members come as " + show_keys(got) + "but were added as " + show_keys(seq));
            if (order == Sorted && sizeof(typename V::char_type) == 1)
            {
                std::vector<std::string> u;
                for (auto& g : got)
                    u.push_back(utf8(g));
                if (!std::is_sorted(u.begin(), u.end()))
                    fail(what + ": members come as " + show_keys(got));
            }
            for (auto& m : mo)
            {
                const V& co = obj;
                REQUIRE_MSG(co.count(enc<V>(m.first)) == 1 && co.find(enc<V>(m.first)) != co.end() && co.find(enc<V>(m.first)).key() == enc<V>(m.first), what + ": lookup of " + show(m.first));
            }
        }
        c.inner();
        ++n;
    } while (s.more(n, 20, 10));
    if (n > 2)
        c.nontrivial(key);
}

// ---------------------------------------------------------------- text

// the order of members in a dumped object: scans the text for the keys at depth one
template <class C>
std::vector<U> text_keys(const std::basic_string<C>& t)
{
    U u;
    if (!chars<C>::dec(t, u))
        fail("the text is not well-formed");
    std::vector<U> r;
    int            depth = 0;
    bool           key   = true;
    for (size_t i = 0; i < u.size(); ++i)
    {
        uint32_t ch = u[i];
        if (ch == '/')
        {
            if (u[i + 1] == '*')
                i = u.find(U"*/", i + 2) + 1;
            else
                i = std::min(u.find_first_of(U"\r\n", i), u.size());
        }
        else if (ch == '{' || ch == '[')
            ++depth;
        else if (ch == '}' || ch == ']')
            --depth;
        else if (ch == ',' && depth == 1)
            key = true;
        else if (ch == ':' && depth == 1)
            key = false;
        else if (ch == '"')
        {
            size_t j = i + 1;
            while (u[j] != '"')
                j += u[j] == '\\' ? 2 : 1;
            if (depth == 1 && key)
            {
                auto rd = Reader::read(u.substr(i, j - i + 1));
                r.push_back(rd.m.s);
            }
            i = j;
        }
    }
    return r;
}

template <class J, class C>
void text(Src& s, Ctx& c, const char* name, Order order, bool compare_default)
{
    using V = typename J::value;
    using T = Traits<J>;
    M m = T::hold(limited(s, 10));
    if (order != Sorted && s.flip() && m.k != M::Obj)
    {
        M o        = M::obj();
        o.o[U"z"]  = m;
        o.o[U"aa"] = M::null();
        o.o[U"b"]  = M::integer(1);
        m          = o;
    }
    DOpt o = gen_dopt(s, m);
    if (o.indent > 8)
        o.indent = 2;
    const std::string what = std::string(name) + " " + show(m) + ", " + o.show();
    c.note(what);
    V v;
    if (m.k == M::Obj)
    {
        // added in any order
        std::vector<U> ks;
        for (auto& x : m.o)
            ks.push_back(x.first);
        for (size_t i = ks.size(); i > 1; --i)
            std::swap(ks[i - 1], ks[static_cast<size_t>(s.draw(i))]);
        v = V(value_constant::object);
        for (auto& k : ks)
            v[enc<V>(k)] = make<V>(m.o[k]);
    }
    else
        v = make<V>(m);
    const std::basic_string<C> t = dump_with<J, C>(v, o);
    U                          u;
    if (!chars<C>::dec(t, u))
        fail(what + ": the text is not well-formed: " + printable(t));
    auto rd = Reader::read(u, true);
    if (rd.v != Reader::Accept)
        fail(what + ": not a JSON text (" + rd.why + "): " + printable(t));
    Tol         tol = o.tol();
    if (sizeof(typename V::float_type) < 8)
        tol = o.mode == 1 ? Tol(3e-6, 0.5000001 * std::pow(10.0, -o.prec)) : Tol(std::max(3e-6, o.mode == 2 ? 0.6 * std::pow(10.0, -o.prec) : 0.6 * std::pow(10.0, 1 - std::max(o.prec, 1))));
    std::string d = diff(m, rd.m, tol);
    if (!d.empty())
        fail(what + ": the text says otherwise: " + d + "\n  text: " + printable(t));
    if (m.k == M::Obj && text_keys(t) != keys(v))
        fail(what + ": members are written as " + show_keys(text_keys(t)) + "but come as " + show_keys(keys(v)));
    if (compare_default)
    {
        using D = typename std::conditional<std::is_same<typename V::char_type, char>::value, json, wjson>::type;
        auto p  = dump_with<D, C>(build<typename D::value>(m), o);
        if (p != t)
            fail(what + ": written as " + printable(t) + "\n  but by the default type as " + printable(p));
    }
    // and back
    const V     back = J::parse(t);
    Tol         rt   = tol;
    M           rm   = T::read(m);
    std::string e    = diff(rm, extract(back), Tol(rt.rel + T::accuracy(), rt.abs));
    if (!e.empty())
        fail(what + ": read back: " + e + "\n  text: " + printable(t));
    if (m.k == M::Obj && order == Added && keys(back) != keys(v))
        fail(what + ": read back, members come as " + show_keys(keys(back)) + "but were written as " + show_keys(keys(v)));
    if (!has_kind(m, M::Flt) && !(back == v) && order != Some)
        fail(what + ": the value read back is not equal");
    c.inner(4);
    c.nontrivial(hash(m, o.key() + eng::hash_str(name)));
}

// documents of any form
template <class J, class C>
void documents(Src& s, Ctx& c, const char* name, Order order)
{
    using V = typename J::value;
    using T = Traits<J>;
    const M raw = limited(s, 10);
    if (sizeof(typename V::float_type) < 8 && out_of_reach(raw, 1e30, 1e-25))
        return;
    WriteOpts wo;
    wo.comments = s.flip();
    Writer               w(s, wo);
    const U              d = w.doc(raw);
    std::basic_string<C> t = chars<C>::enc(d);
    c.note(std::string(name) + ": " + printable(t));
    M want;
    {
        // ask the default reader what the literals are: long mantissas are written in any way
        auto rd = Reader::read(d);
        if (rd.v != Reader::Accept || rd.dup)
            return;
        want = rd.m;
    }
    if (T::unstorable(want) || (sizeof(typename V::float_type) < 8 && out_of_reach(want, 1e30, 1e-25)))
        return;
    const V     v = J::parse(t);
    std::string e = diff(T::read(want), extract(v), Tol(T::accuracy()));
    if (!e.empty())
        fail(std::string(name) + ": " + e + "\n  text: " + printable(t));
    if (want.k == M::Obj && order == Added && keys(v) != text_keys(t))
        fail(std::string(name) + ": members come as " + show_keys(keys(v)) + "but were written as " + show_keys(text_keys(t)));
    c.inner();
    if (nodes(want) > 1 || want.k == M::Int || want.k == M::Flt)
        c.nontrivial(hash(want, eng::hash_str(name)));
}

// broken documents are refused alike
template <class J, class C>
void broken(Src& s, Ctx& c, const char* name)
{
    using D           = typename std::conditional<sizeof(C) == 1, json, wjson>::type;
    std::string bytes = gen_input(s);
    std::basic_string<C> t;
    U                    u;
    if (from8(bytes, u))
        t = chars<C>::enc(u);
    else
        for (char x : bytes)
            t += static_cast<C>(static_cast<unsigned char>(x));
    c.note(std::string(name) + ": " + printable(t));
    Read a = reading([&] { return D::parse(t); });
    Read b = reading([&] { return J::parse(t); });
    if (a.ok && (Traits<J>::unstorable(a.m) || (sizeof(typename J::value::float_type) < 8 && out_of_reach(a.m, 1e30, 1e-25))))
        return;
    if (a.ok != b.ok)
        fail(std::string(name) + (b.ok ? " accepts " : " refuses ") + printable(t) + "\n  default: " + (a.ok ? show(a.m) : a.error) + "\n  custom: " + (b.ok ? show(b.m) : b.error));
    c.inner();
    if (t.size() > 2)
        c.nontrivial(eng::hash_str(bytes, eng::hash_str(name)));
}

// integers around what fits
template <class J, class C>
void integers(Src& s, Ctx& c, const char* name)
{
    using V = typename J::value;
    using I = typename V::integer_type;
    using R = typename V::float_type;
    // an exact decimal near a bound, or any
    const bool          neg = s.flip();
    unsigned __int128   mag;
    unsigned __int128   max = static_cast<unsigned __int128>(std::numeric_limits<I>::max());
    unsigned __int128   lim = neg ? (std::numeric_limits<I>::is_signed ? max + 1 : 0) : max;
    switch (s.draw(3))
    {
    case 0:
    {
        int64_t d = static_cast<int64_t>(s.draw(41)) - 20;
        if (d < 0 && static_cast<unsigned __int128>(-d) > lim)
            d = 0;
        mag = lim + static_cast<unsigned __int128>(static_cast<__int128>(d));
        break;
    }
    case 1:
        mag = static_cast<unsigned __int128>(s.draw(~0ull)) >> s.draw(64);
        break;
    default:
        mag = lim / 10 * (1 + s.draw(12)) + s.draw(10);
    }
    std::string lit;
    {
        unsigned __int128 x = mag;
        do
            lit.insert(lit.begin(), static_cast<char>('0' + static_cast<int>(x % 10)));
        while (x /= 10);
    }
    if (neg)
        lit = "-" + lit;
    const bool fits = mag <= lim;
    c.note(std::string(name) + ": " + lit);
    const std::string what = std::string(name) + " " + lit;
    std::string       frac = lit + (s.flip() ? ".0" : ".5");
    const V           v    = J::parse(chars<C>::enc(ascii("[" + lit + "," + frac + "]")));
    if (fits)
    {
        if (!v[0].is_integer())
            fail(what + " was not read as an integer");
        unsigned __int128 got = static_cast<unsigned __int128>(static_cast<__int128>(v[0].template get<I>()));
        unsigned __int128 want = neg ? 0 - mag : mag;
        if (std::is_unsigned<I>::value)
            got = static_cast<unsigned __int128>(v[0].template get<I>());
        if (got != want)
            fail(what + " was read as another integer");
        auto out = J::template dump<C>(v[0]);
        auto w   = chars<C>::enc(ascii(mag == 0 ? "0" : lit));
        if (out != w)
            fail(what + " was written as " + printable(out));
    }
    else
    {
        if (!v[0].is_floating())
            fail(what + " does not fit, but was not read as a float");
        double want = std::strtod(lit.c_str(), nullptr), got = static_cast<double>(*v[0].template get_ptr<const R*>());
        if (!(std::fabs(got - want) <= std::fabs(want) * Traits<J>::accuracy()))
            fail(what + fmt(" was read as the float %.17g", got));
    }
    if (!v[1].is_floating())
        fail(what + ": " + frac + " was not read as a float");
    double want = std::strtod(frac.c_str(), nullptr), got = static_cast<double>(*v[1].template get_ptr<const R*>());
    if (!(std::fabs(got - want) <= std::fabs(want) * Traits<J>::accuracy()))
        fail(std::string(name) + " " + frac + fmt(" was read as the float %.17g", got));
    c.inner(2);
    if (lit.size() > 1)
        c.nontrivial(eng::hash_str(lit, eng::hash_str(name)));
}

// conversions of C++ objects
template <class J>
void conversions(Src& s, Ctx& c, const char* name)
{
    using V = typename J::value;
    using S = typename V::string_type;
    std::map<S, std::vector<int>> m;
    std::vector<S>                l;
    M                             mm = M::obj(), ml = M::arr();
    size_t                        n = 0;
    while (s.more(n, 5, 2))
    {
        U k  = gen_str(s, 5);
        int i = static_cast<int>(s.draw(100));
        m[enc<V>(k)] = { i, i / 2 };
        mm.o[k]      = M::arr();
        mm.o[k].a    = { M::integer(i), M::integer(i / 2) };
        l.push_back(enc<V>(k));
        ml.a.push_back(M::str(k));
        ++n;
    }
    c.note(std::string(name) + " " + show(mm));
    V v(m), w(l);
    expect_value(v, mm, std::string(name) + " of a map");
    expect_value(w, ml, std::string(name) + " of a vector");
    const bool same = v.template get<std::map<S, std::vector<int>>>() == m && w.template get<std::vector<S>>() == l;
    REQUIRE_MSG(same, std::string(name) + ": reading the map or vector back");
    V x(std::make_shared<S>(enc<V>(U"p")));
    expect_value(x, M::str(U"p"), std::string(name) + " of a pointer");
    REQUIRE(V(true).template get<bool>() && V(7).template get<int>() == 7 && V(0.5).template get<double>() == 0.5);
    try
    {
        w.template get<int>();
        fail(std::string(name) + ": an array was read as an int");
    }
    catch (const configor::configor_type_error&)
    {
    }
    c.inner(4);
    if (n)
        c.nontrivial(hash(mm, eng::hash_str(name)));
}

// every check with one instantiation; C is the character type of its texts
template <class J, class C>
void suite(Src& s, Ctx& c, const char* name, Order order, bool as_default)
{
    switch (s.draw(8))
    {
    case 0:
        return values<J>(s, c, name, order);
    case 1:
        return history<J>(s, c, name, order);
    case 2:
    case 3:
        return text<J, C>(s, c, name, order, as_default);
    case 4:
        return documents<J, C>(s, c, name, order);
    case 5:
        return broken<J, C>(s, c, name);
    case 6:
        return integers<J, C>(s, c, name);
    default:
        return conversions<J>(s, c, name);
    }
}

struct Entry
{
    void (*fn)(Src&, Ctx&);
};
void containers(Src& s, Ctx& c);
void numbers(Src& s, Ctx& c);
void floats(Src& s, Ctx& c);
void binders(Src& s, Ctx& c);
void characters(Src& s, Ctx& c);
void allocators(Src& s, Ctx& c);

}  // namespace c19
