// C10: copies are independent, moves and swaps transfer, nothing leaks.
#include "nodes.hpp"
#include <memory>
using namespace lib;

PROPERTY_INFO("C10", "a case is non-trivial if at least three copies, moves, swaps or insertions of values between values of the pool took place, "
                     "one of them of a container; cases are distinct by start values and operations with their operands");

namespace
{
enum
{
    POOL = 5
};

// stands in the model for what a moved-from value holds: anything
M moved_from()
{
    return M::str(U"\x01moved from\x01");
}
bool is_moved(const M& m)
{
    return m.k == M::Str && m.s == U"\x01moved from\x01";
}

// whatever moved-from values hold now is what they hold from now on
template <class V>
void resync(const V& v, M& m)
{
    if (is_moved(m))
    {
        m = extract(v);
        return;
    }
    if (m.k == M::Arr && v.is_array() && v.size() == m.a.size())
        for (size_t i = 0; i < m.a.size(); ++i)
            resync<V>(v[i], m.a[i]);
    if (m.k == M::Obj && v.is_object())
        for (auto& x : m.o)
        {
            auto it = v.find(enc<V>(x.first));
            if (it != v.end())
                resync<V>(*it, x.second);
        }
}

template <class V>
struct Pool
{
    V v[POOL];
    M m[POOL];
};

template <class V>
struct Pick : Node<V>
{
    Pick(const Node<V>& n, size_t p)
        : Node<V>(n)
        , pool(p)
    {
    }
    size_t pool;
};

template <class V>
Pick<V> choose(Src& s, Pool<V>& p)
{
    size_t i = static_cast<size_t>(s.draw(POOL));
    return Pick<V>(descend(s, p.v[i], p.m[i]), i);
}

template <class V>
std::string where(Pool<V>& p, const Pick<V>& x)
{
    return fmt("#%zu%s=", x.pool, x.m == &p.m[x.pool] ? "" : "(inside)") + show(*x.m, 100);
}

template <class V>
void history(Src& s, Ctx& c)
{
    using J = typename std::conditional<std::is_same<typename V::char_type, char>::value, json, wjson>::type;
    const long baseline = eng::alloc().live;
    uint64_t   key      = sizeof(typename V::char_type);
    size_t     transfers = 0, n = 0;
    bool       container = false;
    {
        Pool<V> p;
        for (size_t i = 0; i < POOL; ++i)
        {
            p.m[i] = s.chance(1, 5) ? M::null() : s.chance(1, 300) ? gen_long(s, 600) : small_tree(s, 6);
            p.v[i] = build<V>(p.m[i]);
            c.note(fmt("#%zu: ", i) + show(p.m[i]) + "\n");
            key = hash(p.m[i], key);
        }
        do
        {
            Pick<V>     d = choose(s, p), x = choose(s, p);
            std::string op;
            const bool  d_in_x = inside(x.m, d.m);
            const bool  x_in_d = inside(d.m, x.m);
            const bool  same   = d.m == x.m;
            const bool  cont   = x.m->k == M::Arr || x.m->k == M::Obj;
            if (nodes(*x.m) + nodes(p.m[d.pool]) > 200)
            {
                // keep the values small
                *d.v = nullptr;
                *d.m = M::null();
                ++n;
                continue;
            }
            auto ops = [&](const char* t) { return where(p, d) + " <- " + t + " " + where(p, x); };
            switch (s.draw(18))
            {
            case 0:
            case 1:  // copy assignment, in several spellings
            {
                op  = ops("copy");
                M t = *x.m;
                switch (s.draw(5))
                {
                case 0:
                    *d.v = *x.v;
                    break;
                case 1:
                    *d.v = *static_cast<const V*>(x.v);
                    break;
                case 2:
                    *d.v = V(*x.v);
                    break;
                case 3:
                    *d.v = x.v->template get<V>();
                    break;
                default:
                {
                    V q;
                    REQUIRE(x.v->get(q));
                    *d.v = q;
                }
                }
                *d.m = t;
                break;
            }
            case 2:  // a copy lives on
            {
                op = ops("copy, destroyed later, replacing");
                V copy(*x.v);
                M mcopy = *x.m;
                expect_same(copy, mcopy, "copy of " + where(p, x));
                REQUIRE_MSG(copy == *x.v && *x.v == copy, op);
                *d.v = nullptr;
                *d.m = M::null();
                expect_same(copy, mcopy, "copy of " + show(mcopy) + " after changing another value");
                // change the copy: the pool is compared below
                Node<V> y = descend(s, copy, mcopy);
                *y.v      = V(1234);
                *y.m      = M::integer(1234);
                copy.clear();
                break;
            }
            case 3:
            case 4:  // move assignment
            {
                if (same)
                {
                    op = ops("self-move");
                    V& self = *d.v;
                    *d.v    = std::move(self);  // keeps its content
                    break;
                }
                if (d_in_x)
                    break;
                op  = ops("move");
                M t = *x.m;
                if (s.flip())
                    *d.v = std::move(*x.v);
                else
                {
                    V q(std::move(*x.v));
                    expect_same(q, t, op + ": the moved-to value");
                    *d.v = std::move(q);
                }
                if (!x_in_d)
                    *x.m = moved_from();
                *d.m = t;
                break;
            }
            case 5:
            case 6:  // swap
            {
                if (!same && (d_in_x || x_in_d))
                    break;
                op = ops("swap");
                switch (s.draw(3))
                {
                case 0:
                    d.v->swap(*x.v);
                    break;
                case 1:
                    std::swap(*d.v, *x.v);
                    break;
                default:
                    x.v->swap(*d.v);
                }
                if (!same)
                    std::swap(*d.m, *x.m);
                break;
            }
            case 7:
            case 8:  // push_back of a copy
            {
                if (!(d.m->k == M::Arr || (d.m->k == M::Null && !d_in_x)))
                    break;
                op  = ops("push_back");
                M t = *x.m;
                if (s.flip())
                    d.v->push_back(*static_cast<const V*>(x.v));
                else
                    d.v->emplace_back(*x.v);
                d.m->k = M::Arr;
                d.m->a.push_back(t);
                break;
            }
            case 9:  // push_back of a moved one
            {
                if (d_in_x || !(d.m->k == M::Arr || d.m->k == M::Null))
                    break;
                op  = ops("push_back(move)");
                M t = *x.m;
                if (s.flip())
                    d.v->push_back(std::move(*x.v));
                else
                    d.v->emplace_back(std::move(*x.v));
                *x.m   = moved_from();
                d.m->k = M::Arr;
                d.m->a.push_back(t);
                break;
            }
            case 10:
            case 11:  // member
            {
                U    u    = small_key(s);
                bool have = d.m->k == M::Obj && d.m->o.count(u);
                if (!(d.m->k == M::Obj || d.m->k == M::Null) || (d_in_x && !have))
                    break;
                bool mv = s.flip() && !d_in_x && !(have && &d.m->o[u] == x.m);
                op      = ops(mv ? "[key] = move" : "[key] = copy") + " key \"" + show(u) + "\"";
                M t     = *x.m;
                if (mv)
                {
                    (*d.v)[enc<V>(u)] = std::move(*x.v);
                    *x.m              = moved_from();
                }
                else
                    (*d.v)[enc<V>(u)] = *static_cast<const V*>(x.v);
                d.m->k    = M::Obj;
                d.m->o[u] = t;
                break;
            }
            case 12:  // element
            {
                if (!(d.m->k == M::Arr || (d.m->k == M::Null && !d_in_x)))
                    break;
                size_t i = static_cast<size_t>(s.draw(d.m->a.size() + 3));
                if (i >= d.m->a.size() && (x_in_d || d_in_x))
                    break;
                bool mv = s.flip() && !d_in_x && !(i < d.m->a.size() && &d.m->a[i] == x.m);
                op      = ops(mv ? "[index] = move" : "[index] = copy") + fmt(" index %zu", i);
                M t     = *x.m;
                if (mv)
                {
                    (*d.v)[i] = std::move(*x.v);
                    *x.m      = moved_from();
                }
                else
                    (*d.v)[i] = *static_cast<const V*>(x.v);
                d.m->k = M::Arr;
                if (i >= d.m->a.size())
                    d.m->a.resize(i + 1);
                d.m->a[i] = t;
                break;
            }
            case 13:  // lists of values
            {
                Pick<V> y  = choose(s, p);
                M       t1 = *x.m, t2 = *y.m;
                U       k1 = small_key(s), k2 = small_key(s);
                M       t;
                switch (s.draw(4))
                {
                case 0:
                    op   = ops("array{x, y, x}");
                    *d.v = typename J::array{ *x.v, *y.v, *x.v };
                    t    = M::arr();
                    t.a  = { t1, t2, t1 };
                    break;
                case 1:
                    op   = ops("make_array");
                    *d.v = configor::make_array<V>({ *x.v, *y.v });
                    t    = M::arr();
                    t.a  = { t1, t2 };
                    break;
                case 2:
                    op    = ops("object{..}");
                    *d.v  = typename J::object{ { enc<V>(k1), *x.v }, { enc<V>(k2), *y.v } };
                    t     = M::obj();
                    t.o.insert({ k1, t1 });
                    t.o.insert({ k2, t2 });
                    break;
                default:
                    op    = ops("make_object");
                    *d.v  = configor::make_object<V>({ { enc<V>(k1), *x.v }, { enc<V>(k2), *y.v } });
                    t     = M::obj();
                    t.o.insert({ k1, t1 });
                    t.o.insert({ k2, t2 });
                }
                *d.m = t;
                break;
            }
            case 14:  // many copies in growing storage
            {
                op = ops("vector of copies");
                std::vector<V> q;
                size_t         k = static_cast<size_t>(s.range(1, 9));
                M              t = *x.m;
                for (size_t i = 0; i < k; ++i)
                {
                    if (s.flip() || q.empty())
                        q.push_back(*x.v);
                    else
                        q.push_back(q[static_cast<size_t>(s.draw(q.size()))]);
                }
                size_t h = static_cast<size_t>(s.draw(k));
                q[h]     = V(5);
                for (size_t i = 0; i < k; ++i)
                    expect_same(q[i], i == h ? M::integer(5) : t, op + ": a copy");
                q.erase(q.begin() + static_cast<std::ptrdiff_t>(h));
                q.insert(q.begin(), V(*x.v));
                std::reverse(q.begin(), q.end());
                for (auto& e : q)
                    expect_same(e, t, op + ": a copy after erasing, inserting and reversing");
                std::map<int, V> mm;
                mm[1] = q[0];
                mm[2] = mm[1];
                expect_same(mm[2], t, op + ": a copy in a map");
                break;
            }
            case 15:  // the containers by value
            {
                if (x.m->k == M::Arr)
                {
                    op     = ops("array type");
                    auto q = x.v->template get<typename V::array_type>();
                    M    t = *x.m;
                    *d.v   = q;
                    *d.m   = t;
                    if (!q.empty())
                        q[0] = V(77);
                    q.clear();
                }
                else if (x.m->k == M::Obj)
                {
                    op     = ops("object type");
                    auto q = x.v->template get<typename V::object_type>();
                    M    t = *x.m;
                    if (s.flip())
                        *d.v = std::move(q);
                    else
                        *d.v = q;
                    *d.m = t;
                }
                else if (x.m->k == M::Str)
                {
                    op     = ops("string type");
                    auto q = x.v->template get<typename V::string_type>();
                    M    t = *x.m;
                    if (s.flip())
                        *d.v = q;
                    else
                        *d.v = V(std::move(q));
                    q    = typename V::string_type(3, typename V::char_type('x'));
                    *d.m = t;
                }
                break;
            }
            case 16:  // changes of one value
            {
                op = where(p, d) + " changed";
                switch (d.m->k)
                {
                case M::Arr:
                    if (!d.m->a.empty() && s.flip())
                    {
                        size_t i = static_cast<size_t>(s.draw(d.m->a.size()));
                        d.v->erase(i);
                        d.m->a.erase(d.m->a.begin() + static_cast<std::ptrdiff_t>(i));
                    }
                    else
                    {
                        d.v->push_back(V(enc<V>(U"a string that is long enough for the heap")));
                        d.m->a.push_back(M::str(U"a string that is long enough for the heap"));
                    }
                    break;
                case M::Obj:
                    if (!d.m->o.empty() && s.flip())
                    {
                        U u = d.m->o.begin()->first;
                        d.v->erase(enc<V>(u));
                        d.m->o.erase(u);
                    }
                    else
                    {
                        (*d.v)[enc<V>(U"new")] = V(1.5);
                        d.m->o[U"new"]         = M::flt(1.5);
                    }
                    break;
                case M::Str:
                    d.v->template get<typename V::string_type&>() += typename V::char_type('+');
                    d.m->s += U'+';
                    break;
                default:
                    *d.v = V(enc<V>(U"another string that is long enough for the heap"));
                    *d.m = M::str(U"another string that is long enough for the heap");
                }
                break;
            }
            default:
                op = where(p, d) + " clear";
                d.v->clear();
                {
                    M e;
                    e.k  = d.m->k;
                    *d.m = e;
                }
            }
            ++n;
            if (op.empty())
                continue;
            key = eng::hash_str(op, key);
            c.note(op + "\n");
            ++transfers;
            container = container || cont;
            for (size_t i = 0; i < POOL; ++i)
            {
                resync<V>(p.v[i], p.m[i]);
                expect_same(p.v[i], p.m[i], op + fmt(": value #%zu", i));
            }
            c.inner(1);
        } while (s.more(n, 30, 10));
        // sometimes the values die in another order, inside other values
        if (s.flip())
        {
            V all(value_constant::array);
            for (auto& x : p.v)
                all.push_back(std::move(x));
        }
    }
    if (eng::alloc().live != baseline)
        fail(fmt("%ld blocks are still allocated after all values are destroyed", eng::alloc().live - baseline));
    if (transfers >= 3 && container)
        c.nontrivial(key);
}
}  // namespace

PROP(narrow, 30000, 500000)
{
    history<json::value>(s, c);
}
PROP(wide, 10000, 150000)
{
    history<wjson::value>(s, c);
}

// containers of many elements and long strings: copied and moved in every spelling, then changed in one of them
namespace
{
template <class V>
void large(Src& s, Ctx& c)
{
    using J             = typename std::conditional<std::is_same<typename V::char_type, char>::value, json, wjson>::type;
    const char* const hows[] = { "copy constructed", "copy assigned", "move constructed", "move assigned", "got", "got into a target", "copied into an array", "moved into an array", "in a literal", "in a growing vector", "as a member", "swapped" };
    const unsigned    how    = static_cast<unsigned>(s.draw(12));
    c.label(hows[how]);
    const long baseline = eng::alloc().live;
    uint64_t   key      = sizeof(typename V::char_type);
    {
        M           m = gen_long(s, s.chance(1, 10) ? 70000 : 8200);
        V           a = build<V>(m), b = s.flip() ? V() : build<V>(small_tree(s, 6));
        std::string op;
        bool        moved = false;
        switch (how)
        {
        case 0: op = "copy construction"; { V t(a); b.swap(t); } break;
        case 1: op = "copy assignment"; b = a; break;
        case 2: op = "move construction"; { V t(std::move(a)); b.swap(t); moved = true; } break;
        case 3: op = "move assignment"; b = std::move(a); moved = true; break;
        case 4: op = "get"; b = a.template get<V>(); break;
        case 5: op = "get(target)"; REQUIRE(a.get(b)); break;
        case 6: op = "push_back of a copy"; { V t; t.push_back(a); t.push_back(V(1)); b = t[0]; } break;
        case 7: op = "push_back of the moved"; { V t; t.push_back(std::move(a)); t.push_back(V(1)); b = t[0]; moved = true; } break;
        case 8: op = "in a literal"; { V t = typename J::array{ a, 1 }; b = std::move(t[0]); } break;
        case 9: op = "in a vector that grows"; { std::vector<V> t; for (int i = 0; i < 9; ++i) t.push_back(a); b = t[static_cast<size_t>(s.draw(9))]; } break;
        case 10: op = "as a member"; { V t; t[enc<V>(U"m")] = a; V q = t; b = q[enc<V>(U"m")]; } break;
        default: op = "swapped there and back"; { V t = a; std::swap(t, b); t.swap(a); std::swap(t, a); } break;
        }
        expect_same(b, m, op + ", the new one");
        if (!moved)
            expect_same(a, m, op + ", the old one");
        // changing one leaves the other alone
        M mb = m;
        if (m.k == M::Arr && !m.a.empty())
        {
            const size_t i = static_cast<size_t>(s.draw(m.a.size()));
            b[i]           = V(enc<V>(U"changed"));
            mb.a[i]        = M::str(U"changed");
            b.push_back(V(2));
            mb.a.push_back(M::integer(2));
        }
        else if (m.k == M::Obj && !m.o.empty())
        {
            auto it = m.o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(s.draw(m.o.size())));
            b.erase(enc<V>(it->first));
            mb.o.erase(it->first);
            b[enc<V>(U"added")] = 5;
            mb.o[U"added"]      = M::integer(5);
        }
        else
        {
            b  = V(5);
            mb = M::integer(5);
        }
        expect_same(b, mb, op + ", the new one changed");
        if (!moved)
            expect_same(a, m, op + ", the old one after the new one was changed");
        a = V(1);
        expect_same(b, mb, op + ", after the old one was overwritten");
        key = hash(m, key + how);
    }
    if (eng::alloc().live != baseline)
        fail(std::string(hows[how]) + fmt(": %ld blocks are still allocated after all values are destroyed", eng::alloc().live - baseline));
    c.inner(5);
    c.nontrivial(key);
}
}  // namespace

PROP(large_narrow, 250, 4000)
{
    large<json::value>(s, c);
}
PROP(large_wide, 100, 1500)
{
    large<wjson::value>(s, c);
}

// what is copied, moved and freed in a deep or wide value, and by assignment of a part of it to the whole
PROP(shapes, 300, 4000)
{
    const long baseline = eng::alloc().live;
    uint64_t   key      = 0;
    {
        size_t depth = static_cast<size_t>(s.range(0, 400)), width = static_cast<size_t>(s.range(0, 400));
        M      m = M::str(U"at the bottom, in a long string");
        for (size_t i = 0; i < depth; ++i)
        {
            M o;
            if (s.flip())
            {
                o = M::arr();
                o.a.push_back(std::move(m));
            }
            else
            {
                o          = M::obj();
                o.o[U"in"] = std::move(m);
            }
            m = std::move(o);
        }
        M w = M::arr();
        for (size_t i = 0; i < width; ++i)
            w.a.push_back(gen_scalar(s));
        key = hash(m, hash(w));
        c.note(fmt("depth %zu, width %zu", depth, width));
        {
            json::value a = build<json::value>(m), b = build<json::value>(w);
            json::value pair = json::array{ a, b };
            M           mp   = M::arr();
            mp.a             = { m, w };
            expect_same(pair, mp, "pair");
            json::value other(pair);
            a.swap(b);
            expect_same(a, w, "swapped");
            expect_same(b, m, "swapped");
            // assigning its own parts, all the way down
            size_t steps = 0;
            M      mm    = m;
            while (b.is_array() || b.is_object())
            {
                M t = mm.k == M::Arr ? mm.a[0] : mm.o.begin()->second;
                if (s.flip())
                    b = *b.begin();
                else
                    b = std::move(*b.begin());
                mm = t;
                if (++steps % 16 == 0)
                    expect_same(b, mm, "a part assigned to the whole");
            }
            expect_same(b, mm, "the innermost");
            expect_same(other, mp, "the copy");
            expect_same(pair, mp, "the original");
            pair[0] = pair;
            M q     = mp;
            mp.a[0] = q;
            expect_same(pair, mp, "containing a copy of itself");
            pair.push_back(pair);
            q = mp;
            mp.a.push_back(q);
            expect_same(pair, mp, "with a copy of itself appended");
            pair = std::move(pair[0]);
            expect_same(pair, q.a[0], "replaced by its own element");
        }
    }
    if (eng::alloc().live != baseline)
        fail(fmt("%ld blocks are still allocated after all values are destroyed", eng::alloc().live - baseline));
    c.nontrivial(key);
}
