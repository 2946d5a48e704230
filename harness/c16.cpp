// C16: a failing allocation leaks nothing, corrupts nothing and is reported.
#include "c13.hpp"
#include "inputs.hpp"

#include <cstdio>
#include <sstream>
using namespace c13;

PROPERTY_INFO("C16", "a case is non-trivial if at least one allocation of the operation was made to fail and the failure was reported; cases are "
                     "distinct by operation, operands and the place operated on");

namespace
{
struct Res
{
    enum Kind
    {
        Done,
        NoMem,
        Lib
    } kind = Done;
    std::string what;
    long        allocs = 0;
};

// runs f with the n-th allocation failing (or from the n-th on, if sticky)
template <class F>
Res inject(long n, bool sticky, bool& hit, F f)
{
    eng::AllocState& a = eng::alloc();
    a.failed           = false;
    a.sticky           = sticky;
    a.fail_at          = n;
    struct Off
    {
        eng::AllocState& a;
        ~Off()
        {
            a.fail_at = -1;
            a.sticky  = false;
        }
    };
    Res  r;
    char text[160] = "";
    long before = a.total;
    {
        Off off{ a };
        try
        {
            f();
        }
        catch (const std::bad_alloc&)
        {
            r.kind = Res::NoMem;
        }
        catch (const configor::configor_exception& e)
        {
            r.kind = Res::Lib;
            std::snprintf(text, sizeof text, "%s", e.what());
        }
    }
    r.allocs = a.total - before;
    r.what   = text;
    hit    = a.failed;
    return r;
}

struct Plan
{
    std::string name;
    bool        mute = false;  // the operation may report by returning false, which the check looks at itself
};

// make() builds a fresh state, op(state) is the operation, check(state, result, hit) judges what is there afterwards.
// With no failure injected check sees how the operation ordinarily ends.
template <class Make, class Op, class Check>
void everywhere(Src& s, Ctx& c, const std::string& name, uint64_t key, Make make, Op op, Check check)
{
    size_t reported = 0;
    long   allocs   = 0;
    auto   once     = [&](long n, bool sticky) {
        std::string at       = n < 0 ? std::string("no allocation fails") : fmt("allocation %ld fails%s", n, sticky ? ", and all after it" : "");
        const long  baseline = eng::alloc().live;
        try
        {
            auto st  = make();
            bool hit = false;
            Res  r   = inject(n, sticky, hit, [&] { op(*st); });
            if (n < 0)
                allocs = r.allocs;
            if (n >= 0 && !hit)
                hit = false;  // (it did not happen again: something was kept from before)
            check(*st, r, hit);
            reported += r.kind == Res::NoMem || r.kind == Res::Lib;
        }
        catch (const eng::Failure& e)
        {
            fail(name + ": " + e.msg + "\n  when " + at);
        }
        if (eng::alloc().live != baseline)
            fail(name + fmt(": %ld blocks are still allocated after everything is destroyed", eng::alloc().live - baseline) + "\n  when " + at);
        c.inner();
    };
    // (the first time some function-local tables are set up, which stay)
    {
        auto st  = make();
        bool hit = false;
        inject(-1, false, hit, [&] { op(*st); });
    }
    reported = 0;
    once(-1, false);
    reported           = 0;
    const long all     = allocs;
    const long several = 40;
    for (int sticky = 0; sticky < 2; ++sticky)
    {
        if (all <= several)
        {
            for (long n = 0; n < all; ++n)
                once(n, sticky != 0);
        }
        else
        {
            for (long n = 0; n < 10; ++n)
            {
                once(n, sticky != 0);
                once(all - 1 - n, sticky != 0);
            }
            for (long n = 0; n < 20; ++n)
                once(static_cast<long>(s.draw(static_cast<uint64_t>(all))), sticky != 0);
        }
    }
    if (reported)
        c.nontrivial(key);
}

// ---------------------------------------------------------------- places in a value

using Path = std::vector<size_t>;

Path gen_path(Src& s, const M& m)
{
    Path     p;
    const M* x = &m;
    for (;;)
    {
        size_t n = x->k == M::Arr ? x->a.size() : x->k == M::Obj ? x->o.size() : 0;
        if (!n || s.chance(1, 3))
            return p;
        size_t i = static_cast<size_t>(s.draw(n));
        p.push_back(i);
        if (x->k == M::Arr)
            x = &x->a[i];
        else
            x = &std::next(x->o.begin(), static_cast<std::ptrdiff_t>(i))->second;
    }
}
M& place(M& m, const Path& p)
{
    M* x = &m;
    for (size_t i : p)
        x = x->k == M::Arr ? &x->a[i] : &std::next(x->o.begin(), static_cast<std::ptrdiff_t>(i))->second;
    return *x;
}
template <class V>
V& place(V& v, const M& shape, const Path& p)
{
    V*       x = &v;
    const M* m = &shape;
    for (size_t i : p)
    {
        if (m->k == M::Arr)
        {
            x = &(*x)[i];
            m = &m->a[i];
        }
        else
        {
            auto it = std::next(m->o.begin(), static_cast<std::ptrdiff_t>(i));
            x       = &(*x)[enc<V>(it->first)];
            m       = &it->second;
        }
    }
    return *x;
}

// what lies at the place does not matter, but everything else does; the value is fit for use
template <class V>
size_t walk(const V& v)
{
    size_t n = 1;
    if (v.is_array() || v.is_object())
        for (auto it = v.begin(); it != v.end(); ++it)
            n += walk(*it);
    else if (v.is_string())
        n += v.template get<typename V::string_type>().size();
    return n;
}
template <class V>
void expect_outside(const V& v, const M& before, const Path& p, const std::string& what)
{
    V w(v);
    if (!(w == v))
        fail(what + ": the value does not equal its copy");
    place(w, before, p) = V();
    M m                 = before;
    place(m, p)         = M::null();
    expect_same(w, m, what + ": outside the place operated on");
}

template <class V>
struct State
{
    V                                            a, b;
    std::basic_string<typename V::char_type>     text;
    bool                                         flag = false;
    std::unique_ptr<V>                           made;
};

bool is_one_of(const M& got, const std::vector<M>& ms)
{
    for (auto& m : ms)
        if (diff(m, got, Tol(0)).empty())
            return true;
    return false;
}

// ---------------------------------------------------------------- operations on values

template <class V>
void modifications(Src& s, Ctx& c)
{
    using J = json_of<V>;
    using S = typename V::string_type;
    const M     ma = small_tree(s, 8), mb = small_tree(s, 5);
    const Path  p = gen_path(s, ma);
    const U     ku = s.flip() ? small_key(s) : gen_str(s, 30);
    const S     k  = enc<V>(ku);
    const U     su = gen_str(s, 30);
    const S     str = enc<V>(su);
    const size_t far = static_cast<size_t>(s.draw(5));
    M            node = place(const_cast<M&>(ma), p);
    const int    op   = static_cast<int>(s.draw(24));
    // outcomes: the operation done; what else may be there if it failed; both at the place
    M              done = node;
    std::vector<M> partial{ node };
    bool           type_error = false;
    std::string    name;
    auto           make = [&] {
        std::unique_ptr<State<V>> st(new State<V>);
        st->a = build<V>(ma);
        st->b = build<V>(mb);
        return st;
    };
    std::function<void(State<V>&)> f;
    auto                           at = [&](State<V>& st) -> V& { return place(st.a, ma, p); };
    // the place is looked up beforehand where that allocates
    V* where = nullptr;
    switch (op)
    {
    case 0:
        name = "copy assignment";
        done = mb;
        f    = [&](State<V>& st) { *where = st.b; };
        break;
    case 1:
        name = "assignment of a string";
        done = M::str(su);
        f    = [&](State<V>&) { *where = str; };
        break;
    case 2:
        name = "assignment of a vector";
        done = M::arr();
        done.a.assign(3, M::str(su));
        f = [&](State<V>&) {
            std::vector<S> x(3, str);
            *where = x;
        };
        break;
    case 3:
        name = "assignment of a map";
        done = M::obj();
        done.o[ku]          = M::str(su);
        done.o[U"\x1" + ku] = M::integer(3);
        f                   = [&](State<V>&) {
            std::map<S, V> x;
            x[k]                    = V(str);
            x[enc<V>(U"\x1") + k] = V(3);
            *where                  = x;
        };
        break;
    case 4:
        name = "assignment of a brace-built object";
        done = M::obj();
        done.o[ku] = M::arr();
        done.o[ku].a.assign(1, mb);
        done.o[ku].a.push_back(M::str(su));
        f = [&](State<V>& st) { *where = typename J::object{ { k, typename J::array{ st.b, str } } }; };
        break;
    case 5:
        name = "assignment of a kind";
        done = M::obj();
        f    = [&](State<V>&) { *where = value_constant::object; };
        break;
    case 6:
        name = "copy of a value into a part of itself";
        done = ma;
        f    = [&](State<V>& st) { *where = st.a; };
        break;
    case 7:
    case 8:
    case 9:
        name       = op == 7 ? "push_back of a value" : op == 8 ? "emplace_back of a string" : "push_back of a moved copy";
        type_error = node.k != M::Arr && node.k != M::Null;
        if (!type_error)
        {
            if (node.k == M::Null)
            {
                done = M::arr();
                partial.push_back(done);
            }
            done.a.push_back(op == 8 ? M::str(su) : mb);
        }
        if (op == 7)
            f = [&](State<V>& st) { where->push_back(st.b); };
        else if (op == 8)
            f = [&](State<V>&) { where->emplace_back(str); };
        else
            f = [&](State<V>& st) { where->push_back(V(st.b)); };
        break;
    case 10:
    case 11:
    case 12:
        name       = op == 12 ? "operator[] with a C string" : "operator[] with a key";
        type_error = node.k != M::Obj && node.k != M::Null;
        if (op == 12 && ku.find(U'\0') != U::npos)
            return;
        if (!type_error)
        {
            if (node.k == M::Null)
            {
                done = M::obj();
                partial.push_back(done);
            }
            M added = done;
            if (!added.o.count(ku))
            {
                added.o[ku] = M::null();
                partial.push_back(added);
            }
            done.o[ku] = mb;
        }
        if (op == 12)
            f = [&](State<V>& st) { (*where)[k.c_str()] = st.b; };
        else
            f = [&](State<V>& st) { (*where)[k] = st.b; };
        break;
    case 13:
    {
        name       = "operator[] with an index at or beyond the end";
        type_error = node.k != M::Arr && node.k != M::Null;
        size_t n   = node.k == M::Arr ? node.a.size() : 0;
        if (!type_error)
        {
            if (node.k == M::Null)
            {
                done = M::arr();
                partial.push_back(done);
            }
            for (size_t i = 0; i <= far; ++i)
            {
                done.a.push_back(M::null());
                partial.push_back(done);
            }
            done.a.back() = mb;
        }
        f = [&, n](State<V>& st) { (*where)[n + far] = st.b; };
        break;
    }
    case 14:
        name = "swap with a copy";
        done = mb;
        f    = [&](State<V>& st) {
            V t(st.b);
            where->swap(t);
        };
        break;
    case 15:
        name = "clear and erase";
        if (node.k == M::Arr && !node.a.empty())
        {
            done.a.erase(done.a.begin());
            f = [&](State<V>&) { where->erase(size_t(0)); };
        }
        else if (node.k == M::Obj && !node.o.empty())
        {
            U first = node.o.begin()->first;
            S fk    = enc<V>(first);
            done.o.erase(first);
            f = [&, fk](State<V>&) { where->erase(fk); };
        }
        else
            return;
        break;
    case 16:
        name = "assignment of a vector of values";
        done = M::arr();
        done.a = { mb, M::boolean(true) };
        f      = [&](State<V>& st) {
            std::vector<V> x;
            x.push_back(st.b);
            x.push_back(V(true));
            *where = std::move(x);
        };
        break;
    case 17:
        name = "assignment of make_array and make_object";
        done = M::arr();
        done.a.push_back(mb);
        done.a.push_back(M::obj());
        done.a.back().o[ku] = mb;
        f                   = [&](State<V>& st) { *where = configor::make_array<V>({ st.b, configor::make_object<V>({ { k, st.b } }) }); };
        break;
    case 18:
        name = "write through a reference to the content";
        if (node.k == M::Str)
        {
            done.s += su;
            f = [&](State<V>&) { where->template get<S&>() += str; };
        }
        else if (node.k == M::Arr)
        {
            done.a.push_back(mb);
            f = [&](State<V>& st) { where->template get<typename V::array_type&>().push_back(st.b); };
        }
        else if (node.k == M::Obj)
        {
            done.o[ku] = mb;
            M added    = node;
            added.o[ku] = M::null();
            if (!node.o.count(ku))
                partial.push_back(added);
            f = [&](State<V>& st) { where->template get<typename V::object_type&>()[k] = st.b; };
        }
        else
            return;
        break;
    case 19:
        name = "copying elements of another value in a loop";
        if ((node.k != M::Arr && node.k != M::Null) || mb.k != M::Arr)
            return;
        if (node.k == M::Null)
        {
            done = M::arr();
            partial.push_back(done);
            if (mb.a.empty())
            {
                done    = M::null();
                partial = { done };
            }
        }
        for (auto& x : mb.a)
        {
            done.a.push_back(x);
            partial.push_back(done);
        }
        f = [&](State<V>& st) {
            for (auto& x : st.b)
                where->push_back(x);
        };
        break;
    case 20:
        name = "copy assignment through a lookup";
        done = mb;
        f    = [&](State<V>& st) { at(st) = st.b; };
        break;
    case 21:
        name = "move assignment of a new value";
        done = M::str(su);
        f    = [&](State<V>&) { *where = V(str); };
        break;
    case 22:
        name = "assignment of a part of the place to the place";
        if (node.k == M::Arr && !node.a.empty())
        {
            done = node.a[far % node.a.size()];
            f    = [&](State<V>&) {
                const V& part = (*where)[far % node.a.size()];
                *where        = part;
            };
        }
        else
            return;
        break;
    default:
        name = "push_back of the value itself";
        if (node.k != M::Arr)
            return;
        done.a.push_back(node);
        f = [&](State<V>&) { where->push_back(*where); };
        break;
    }
    name += " in " + show(ma) + " at " + show(node, 80) + ", operand " + show(mb, 150) + ", key " + show(ku) + ", string " + show(su) + fmt(", index +%zu", far);
    c.note(name);
    M whole_done         = ma;
    place(whole_done, p) = done;
    std::vector<M> whole_partial;
    for (auto& x : partial)
    {
        whole_partial.push_back(ma);
        place(whole_partial.back(), p) = x;
    }
    uint64_t key = hash(mb, hash(ma, static_cast<uint64_t>(op) * 2 + sizeof(typename V::char_type)));
    for (size_t i : p)
        key = key * 31 + i;
    auto ready = [&] {
        auto st = make();
        where   = &at(*st);
        return st;
    };
    everywhere(s, c, name, key, ready, f, [&](State<V>& st, const Res& r, bool hit) {
        expect_same(st.b, mb, "the operand");
        if (r.kind == Res::Lib && !type_error)
            fail("error \"" + r.what + "\"");
        if (type_error && r.kind == Res::Done)
            fail("no error for the wrong kind");
        if (!hit && r.kind == Res::NoMem)
            fail("out of memory without a failure");
        M got = extract(st.a);
        if (r.kind == Res::Done)
        {
            std::string d = diff(whole_done, got, Tol(0));
            if (!d.empty())
                fail("done, but " + d);
        }
        else if (!is_one_of(got, type_error ? std::vector<M>{ ma } : whole_partial))
            fail("reported, but left " + show(got));
        // and it can be used
        st.a = build<V>(M::str(U"x"));
        expect_same(st.a, M::str(U"x"), "assigned afterwards");
    });
}

// ---------------------------------------------------------------- constructions and observations

template <class V>
void constructions(Src& s, Ctx& c)
{
    using J         = json_of<V>;
    using S         = typename V::string_type;
    const M      ma = small_tree(s, 9), mb = small_tree(s, 5);
    const U      su = gen_str(s, 30);
    const S      str = enc<V>(su);
    const V      va = build<V>(ma), vb = build<V>(mb);
    const int    op = static_cast<int>(s.draw(10));
    std::string  name;
    M            want;
    std::function<V*()> f;
    bool                lookup = false;
    switch (op)
    {
    case 0:
        name = "copy construction";
        want = ma;
        f    = [&] { return new V(va); };
        break;
    case 1:
        name = "construction from a string";
        want = M::str(su);
        f    = [&] { return new V(str); };
        break;
    case 2:
        name   = "construction of an array from values";
        want   = M::arr();
        want.a = { ma, mb, M::str(su) };
        f      = [&] { return new V(typename J::array{ va, vb, str }); };
        break;
    case 3:
        name = "construction of an object from values";
        want = M::obj();
        want.o[U"one"]                                       = ma;
        want.o[U"two, long enough not to be stored in place"] = mb;
        f = [&] { return new V(typename J::object{ { enc<V>(U"one"), va }, { enc<V>(U"two, long enough not to be stored in place"), vb } }); };
        break;
    case 4:
        name   = "construction by make_array";
        want   = M::arr();
        want.a = { mb, ma };
        f      = [&] { return new V(configor::make_array<V>({ vb, va })); };
        break;
    case 5:
        name = "construction of a kind";
        want = M::arr();
        f    = [&] { return new V(value_constant::array); };
        break;
    case 6:
        name = "a copy moved on";
        want = ma;
        f    = [&] {
            V x(va), y(std::move(x)), z;
            z = std::move(y);
            return new V(std::move(z));
        };
        break;
    case 7:
        name = "get of the value type";
        want = ma;
        f    = [&] { return new V(va.template get<V>()); };
        break;
    case 8:
        name = "a copy made element by element";
        want = ma;
        f    = [&] {
            std::unique_ptr<V> r(new V());
            if (va.is_array())
            {
                *r = value_constant::array;
                for (auto& x : va)
                    r->push_back(x);
            }
            else if (va.is_object())
            {
                *r = value_constant::object;
                for (auto it = va.begin(); it != va.end(); ++it)
                    (*r)[it.key()] = it.value();
            }
            else
                *r = va;
            return r.release();
        };
        break;
    default:
        name   = "comparisons and lookups";
        lookup = true;
        want   = M::null();
        f      = [&] {
            V    x(va);
            bool ok = x == va && !(x != va) && !(x < va) && !(va > x) && x <= va && x >= va && (va == vb) == (vb == va);
            if (va.is_object())
                for (auto it = va.begin(); it != va.end(); ++it)
                {
                    ok = ok && va.count(it.key()) == 1 && va.find(it.key()) == it && &va.at(it.key()) == &*it;
                    ok = ok && (it.key().find(typename V::char_type(0)) != S::npos || &va[it.key().c_str()] == &*it);
                }
            return ok ? new V() : new V(enc<V>(U"a comparison or lookup gave another result"));
        };
    }
    name += " of " + show(ma) + " and " + show(mb) + " and " + show(su);
    c.note(name);
    struct St
    {
        std::unique_ptr<V> made;
    };
    everywhere(s, c, name, hash(mb, hash(ma, static_cast<uint64_t>(op) * 2 + sizeof(typename V::char_type))), [] { return std::unique_ptr<St>(new St); },
               [&](St& st) { st.made.reset(f()); },
               [&](St& st, const Res& r, bool hit) {
                   expect_same(va, ma, "the source");
                   expect_same(vb, mb, "the source");
                   if (r.kind == Res::Lib)
                       fail("error \"" + r.what + "\"");
                   if (!hit && r.kind == Res::NoMem)
                       fail("out of memory without a failure");
                   if (r.kind == Res::Done)
                       expect_same(*st.made, want, "done");
                   else if (st.made)
                       fail("harness: a value in spite of the error");
               });
    (void)lookup;
}

// ---------------------------------------------------------------- conversions

template <class V, class T>
void conversion(Src& s, Ctx& c, const char* name, bool)
{
    using K      = Kind<V, T>;
    uint64_t key = eng::hash_str(name, sizeof(typename V::char_type));
    T        x   = K::gen(s);
    const M  m   = K::model(x);
    const V  v   = build<V>(m.loose ? extract(V(x)) : m);
    const M  sm  = extract(v);
    key          = hash(m, key);
    const M  used = small_tree(s, 4);
    std::string what = std::string(name) + " " + show(m);
    c.note(what);
    struct St
    {
        V                  a;
        std::unique_ptr<T> t;
        bool               flag = false;
    };
    const bool small = s.flip();
    const int  op    = static_cast<int>(s.draw(4));
    everywhere(s, c, fmt("conversion %d of ", op) + what, key + static_cast<uint64_t>(op),
               [&] {
                   std::unique_ptr<St> st(new St);
                   st->a = build<V>(used);
                   if (op == 3)
                       st->t.reset(new T(small ? T() : T(v.template get<T>())));
                   return st;
               },
               [&](St& st) {
                   switch (op)
                   {
                   case 0:
                       st.a = x;
                       break;
                   case 1:
                   {
                       V w(x);
                       st.a.swap(w);
                       break;
                   }
                   case 2:
                       st.t.reset(new T(v.template get<T>()));
                       break;
                   default:
                       st.flag = v.get(*st.t);
                       break;
                   }
               },
               [&](St& st, const Res& r, bool hit) {
                   expect_content(m, K::model(x), "the source object");
                   expect_same(v, sm, "the source value");
                   if (r.kind == Res::Lib)
                       fail("error \"" + r.what + "\"");
                   if (!hit && r.kind == Res::NoMem)
                       fail("out of memory without a failure");
                   if (op < 2)
                   {
                       if (r.kind == Res::Done)
                           expect_content(m, extract(st.a), "the value made");
                       else
                           expect_same(st.a, used, "the target of the failed assignment");
                   }
                   else if (op == 2)
                   {
                       if (r.kind == Res::Done)
                           expect_content(m, K::model(*st.t), "the object made");
                   }
                   else if (r.kind != Res::Done)
                       fail("get(T&) threw");
                   else if (!hit && !st.flag)
                       fail("get(T&) failed without a failure");
                   else if (st.flag)
                       expect_content(m, K::model(*st.t), "the object assigned to");
               });
}
#define CONV(V, ...) Case<V>{ &conversion<V, __VA_ARGS__>, #__VA_ARGS__ }

template <class V>
const std::vector<Case<V>>& conversion_cases()
{
    using S = typename V::string_type;
    static const std::vector<Case<V>> r{
        CONV(V, S),
        CONV(V, V),
        CONV(V, std::vector<int>),
        CONV(V, std::vector<S>),
        CONV(V, std::deque<S>),
        CONV(V, std::list<S>),
        CONV(V, std::forward_list<int>),
        CONV(V, std::set<S>),
        CONV(V, std::unordered_set<S>),
        CONV(V, std::array<S, 3>),
        CONV(V, std::map<S, S>),
        CONV(V, std::map<S, std::vector<int>>),
        CONV(V, std::unordered_map<S, S>),
        CONV(V, std::unique_ptr<int>),
        CONV(V, std::shared_ptr<S>),
        CONV(V, std::vector<std::map<S, S>>),
        CONV(V, std::map<S, std::shared_ptr<std::vector<S>>>),
        CONV(V, std::vector<V>),
        CONV(V, std::map<S, V>),
        CONV(V, std::vector<std::vector<std::vector<double>>>),
        CONV(V, std::list<std::set<S>>),
    };
    return r;
}

// types that can be moved only are moved around instead
template <class V>
void conversions(Src& s, Ctx& c)
{
    auto& t = conversion_cases<V>();
    auto& k = t[static_cast<size_t>(s.draw(t.size()))];
    k.fn(s, c, k.name, false);
}

// ---------------------------------------------------------------- text

// the text unit by unit, then the end
template <class C>
struct Units : configor::basic_iadapter<C>
{
    using configor::basic_iadapter<C>::read;
    explicit Units(const std::basic_string<C>& t)
        : t_(t)
    {
    }
    C read() override
    {
        return i_ < t_.size() ? t_[i_++] : static_cast<C>(std::char_traits<C>::eof());
    }
    const std::basic_string<C>& t_;
    size_t                      i_ = 0;
};
template <class C>
struct Onto : configor::basic_oadapter<C>
{
    explicit Onto(std::basic_ostream<C>& os)
        : os_(os)
    {
    }
    void write(const C ch) override
    {
        if (os_.rdbuf()->sputc(ch) == std::char_traits<C>::eof())
            throw std::bad_alloc();
    }
    std::basic_ostream<C>& os_;
};

template <class J, class C>
void parsing(Src& s, Ctx& c)
{
    using V = typename J::value;
    std::string bytes;
    if (s.chance(2, 3))
    {
        TreeOpts to;
        to.budget = 10;
        to.big    = false;
        Writer w(s, WriteOpts());
        bytes = utf8(w.doc(gen_tree(s, to)));
    }
    else
        bytes = gen_input(s);
    std::basic_string<C> t;
    U                    u;
    if (from8(bytes, u))
        t = chars<C>::enc(u);
    else
        for (char x : bytes)
            t += static_cast<C>(static_cast<unsigned char>(x));
    const Read  ref  = reading([&] { return J::parse(t); });
    int         how  = static_cast<int>(s.draw(9));
    if (how == 8 && (t.find(C(0)) != t.npos || t.find(static_cast<C>(std::char_traits<C>::eof())) != t.npos))
        how = 0;  // the end of an adapter
    const bool  obj  = how == 5 && s.flip();
    const M     used = small_tree(s, 6);
    const Path  p    = gen_path(s, used);
    std::string name = fmt("parse (source %d) of ", how) + printable(t) + " into " + show(used);
    c.note(name);
    struct St
    {
        V  a;
        V* where = nullptr;
    };
    using P = typename J::template parser_type<C>;
    // read first: comparing the outcome of sources is the business of C08
    std::basic_istringstream<C> probe(t);
    probe >> std::noskipws;
    Read seq = how == 4 || how == 5 ? reading([&]() -> V {
        V    v;
        if (how == 5)
        {
            auto w = J::wrap(v);
            probe >> w;
        }
        else
            v = J::parse(probe);
        return v;
    }) : ref;
    if (how == 1)
        seq = reading([&] { return J::parse(t.c_str()); });
    everywhere(s, c, name, eng::hash_str(bytes, hash(used, static_cast<uint64_t>(how) * 2 + sizeof(C))),
               [&] {
                   std::unique_ptr<St> st(new St);
                   st->a     = build<V>(used);
                   st->where = &place(st->a, used, p);
                   return st;
               },
               [&](St& st) {
                   switch (how)
                   {
                   case 0:
                       J::parse(*st.where, t);
                       break;
                   case 1:
                       J::parse(*st.where, t.c_str());
                       break;
                   case 2:
                       *st.where = J::parse(t);
                       break;
                   case 3:
                       *st.where = J::parse(t, { P::template with_encoding<configor::encoding::auto_utf>() });
                       break;
                   case 4:
                   {
                       std::basic_istringstream<C> is(t);
                       J::parse(*st.where, is);
                       break;
                   }
                   case 5:
                   {
                       std::basic_istringstream<C> is(t);
                       is >> std::noskipws;
                       extract_wrapped<J>(static_cast<std::basic_istream<C>&>(is), *st.where, obj);
                       break;
                   }
                   case 8:
                   {
                       Units<C>                          a(t);
                       configor::basic_iadapterstream<C> is(a);
                       J::parse(*st.where, is);
                       break;
                   }
                   case 6:
                   {
                       V x = J::parse(t);
                       J::parse(*st.where, t);
                       if (!(x == *st.where) && !(x != x))
                           fail("parsing twice gives two values");
                       break;
                   }
                   default:
                   {
                       configor::error_handler_with<configor::error_policy::strict> strict;
                       J::parse(*st.where, t, { P::with_error_handler(&strict) });
                       break;
                   }
                   }
               },
               [&](St& st, const Res& r, bool hit) {
                   walk(st.a);
                   expect_outside(st.a, used, p, "afterwards");
                   if (!hit)
                   {
                       if ((r.kind == Res::Done) != seq.ok)
                           fail("another outcome than before");
                   }
                   if (r.kind == Res::Done)
                   {
                       if (!seq.ok)
                           fail("no error, though the text is wrong (" + seq.error + ")");
                       expect_same(*st.where, seq.m, "the value read");
                   }
                   else if (how == 2 || how == 3)
                       expect_same(st.a, used, "the target of an assignment that did not take place");
                   st.a = value_constant::array;
                   st.a.push_back(V(1));
                   REQUIRE(st.a.size() == 1);
               });
}

template <class J, class C>
void dumping(Src& s, Ctx& c)
{
    using V = typename J::value;
    TreeOpts to;
    to.budget = 10;
    to.big    = s.chance(1, 10);
    const M ma = gen_tree(s, to);
    const V v  = build<V>(ma);
    DOpt    o  = gen_dopt(s, ma);
    if (o.indent > 8)
        o.indent = 3;
    const std::basic_string<C> want  = dump_with<J, C>(v, o);
    const std::basic_string<C> plain = J::template dump<C>(v);
    const int                  how   = static_cast<int>(s.draw(7));
    const int                  way   = how == 4 ? static_cast<int>(s.draw(4)) : 0;
    std::string                name  = fmt("dump (sink %d, %s) of ", how, wrapped_names[way]) + show(ma) + ", " + o.show();
    c.note(name);
    const std::basic_string<C> prefix(static_cast<size_t>(s.draw(30)), C('p'));
    struct St
    {
        std::basic_string<C>        text;
        std::basic_ostringstream<C> os;
    };
    everywhere(s, c, name, hash(ma, o.key() * 8 + static_cast<uint64_t>(how)) + sizeof(C),
               [&] {
                   std::unique_ptr<St> st(new St);
                   st->text = prefix;
                   return st;
               },
               [&](St& st) {
                   switch (how)
                   {
                   case 0:
                       st.text = dump_with<J, C>(v, o);
                       break;
                   case 1:
                       dump_into<J, C>(st.text, v, o);
                       break;
                   case 2:
                       dump_into<J, C>(static_cast<std::basic_ostream<C>&>(st.os), v, o);
                       break;
                   case 3:
                       st.text = J::template dump<C>(v);
                       break;
                   case 4:
                       insert_wrapped<J>(static_cast<std::basic_ostream<C>&>(st.os), v, way);
                       break;
                   case 6:
                   {
                       Onto<C>                           a(st.os);
                       configor::basic_oadapterstream<C> os(a);
                       J::template dump<C>(static_cast<std::basic_ostream<C>&>(os), v);
                       break;
                   }
                   default:
                       J::template dump<C>(static_cast<std::basic_ostream<C>&>(st.os), v);
                   }
               },
               [&](St& st, const Res& r, bool hit) {
                   expect_same(v, ma, "the value");
                   if (!hit && r.kind != Res::Done)
                       fail("another outcome than before: " + r.what);
                   const std::basic_string<C>& whole = how == 0 || how == 1 || how == 2 ? want : plain;
                   if (how == 0 || how == 3)
                   {
                       if (r.kind == Res::Done ? st.text != whole : st.text != prefix)
                           fail("the string holds " + printable(st.text) + (r.kind == Res::Done ? "" : " in spite of the error"));
                   }
                   else if (how == 1)
                   {
                       if (r.kind == Res::Done && st.text != prefix + whole)
                           fail("the string holds " + printable(st.text));
                       if (st.text.compare(0, prefix.size(), prefix) != 0)
                           fail("what was in the string before is lost: " + printable(st.text));
                   }
                   else
                   {
                       auto got = st.os.str();
                       if (r.kind == Res::Done && got != whole && !(how == 4 && !st.os.good()))
                           fail("no error, but the stream holds " + printable(got));
                       if (whole.compare(0, got.size(), got) != 0)
                           fail("the stream holds " + printable(got) + ", which is not a prefix of " + printable(whole));
                   }
               });
}
}  // namespace

PROP(modify_narrow, 6000, 120000)
{
    modifications<json::value>(s, c);
}
PROP(modify_wide, 3000, 60000)
{
    modifications<wjson::value>(s, c);
}
PROP(construct, 4000, 80000)
{
    s.flip() ? constructions<json::value>(s, c) : constructions<wjson::value>(s, c);
}
PROP(convert, 5000, 100000)
{
    s.flip() ? conversions<json::value>(s, c) : conversions<wjson::value>(s, c);
}
PROP(parse, 5000, 100000)
{
    switch (s.draw(4))
    {
    case 0:
        return parsing<json, char>(s, c);
    case 1:
        return parsing<wjson, wchar_t>(s, c);
    case 2:
        return parsing<json, wchar_t>(s, c);
    default:
        return parsing<wjson, char>(s, c);
    }
}
PROP(dump, 5000, 100000)
{
    switch (s.draw(4))
    {
    case 0:
        return dumping<json, char>(s, c);
    case 1:
        return dumping<wjson, wchar_t>(s, c);
    case 2:
        return dumping<json, wchar_t>(s, c);
    default:
        return dumping<wjson, char>(s, c);
    }
}
