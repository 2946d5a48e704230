// Nodes of a library value and of its model, side by side.
#pragma once
#include "lib.hpp"

namespace lib
{

template <class V>
struct Node
{
    V* v;
    M* m;
};

// walks down to some node, through the accessors; the model says what is there
template <class V>
Node<V> descend(Src& s, V& v, M& m, std::vector<const M*>* path = nullptr)
{
    Node<V> n{ &v, &m };
    for (;;)
    {
        if (path)
            path->push_back(n.m);
        if (n.m->k == M::Arr && !n.m->a.empty() && s.chance(2, 3))
        {
            size_t i = static_cast<size_t>(s.draw(n.m->a.size()));
            V*     w = nullptr;
            switch (s.draw(4))
            {
            case 0:
                w = &(*n.v)[i];
                break;
            case 1:
                w = &n.v->at(i);
                break;
            case 2:
                w = &(*(n.v->begin() + static_cast<std::ptrdiff_t>(i)));
                break;
            default:
                w = &(*static_cast<const V*>(n.v))[i];
            }
            n = Node<V>{ w, &n.m->a[i] };
        }
        else if (n.m->k == M::Obj && !n.m->o.empty() && s.chance(2, 3))
        {
            auto it = n.m->o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(s.draw(n.m->o.size())));
            auto k = enc<V>(it->first);
            V*   w = nullptr;
            switch (s.draw(5))
            {
            case 0:
                w = &(*n.v)[k];
                break;
            case 1:
                w = &n.v->at(k);
                break;
            case 2:
                w = &*n.v->find(k);
                break;
            case 3:
                w = it->first.find(U'\0') == U::npos ? &(*n.v)[k.c_str()] : &(*n.v)[k];
                break;
            default:
                w = &n.v->find(k).value();
            }
            n = Node<V>{ w, &it->second };
        }
        else
            return n;
    }
}

// does the node lie inside the tree (or is it its root)?
inline bool inside(const M* root, const M* node)
{
    if (root == node)
        return true;
    for (auto& x : root->a)
        if (inside(&x, node))
            return true;
    for (auto& x : root->o)
        if (inside(&x.second, node))
            return true;
    return false;
}

enum class Out
{
    Ok,
    Key,
    Type,
    Iter,
    Range
};
inline const char* name(Out o)
{
    static const char* const n[] = { "success", "configor_invalid_key", "configor_type_error", "configor_invalid_iterator", "std::out_of_range" };
    return n[static_cast<int>(o)];
}

// the documented exceptions are outcomes, others are not caught here
template <class F>
Out outcome(F f)
{
    try
    {
        f();
        return Out::Ok;
    }
    catch (const configor::configor_invalid_key&)
    {
        return Out::Key;
    }
    catch (const configor::configor_type_error&)
    {
        return Out::Type;
    }
    catch (const configor::configor_invalid_iterator&)
    {
        return Out::Iter;
    }
    catch (const std::out_of_range&)
    {
        return Out::Range;
    }
}
inline void expect(Out want, Out got, const std::string& what)
{
    if (want != got)
        fail(what + ": " + name(got) + ", expected " + name(want));
}

// identical, floats included
template <class V>
void expect_same(const V& v, const M& m, const std::string& what)
{
    std::string d = diff(m, extract(v), Tol(0));
    if (!d.empty())
        fail(what + ": " + d);
}

inline M small_tree(Src& s, size_t budget = 7)
{
    TreeOpts to;
    to.budget = budget;
    to.depth  = 3;
    to.big    = false;
    return gen_tree(s, to);
}

inline U small_key(Src& s)
{
    static const char* const keys[] = { "a", "b", "", "ab", "c" };
    if (s.chance(1, 10))
        return s.flip() ? gen_str(s, 6) : ascii(s.pick(keys)) + U(1, U'\0') + ascii(s.pick(keys));
    return ascii(s.pick(keys));
}

}  // namespace lib
