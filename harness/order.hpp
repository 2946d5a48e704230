// equality and order of model values
#pragma once
#include "model.hpp"

namespace ord
{
using namespace md;

inline bool eq(const M& a, const M& b)
{
    if (a.k != b.k)
    {
        if (a.k == M::Int && b.k == M::Flt)
            return static_cast<double>(a.i) == b.f;
        if (a.k == M::Flt && b.k == M::Int)
            return static_cast<double>(b.i) == a.f;
        return false;
    }
    switch (a.k)
    {
    case M::Null:
        return true;
    case M::Bool:
        return a.b == b.b;
    case M::Int:
        return a.i == b.i;
    case M::Flt:
        return a.f == b.f;
    case M::Str:
        return a.s == b.s;
    case M::Arr:
        if (a.a.size() != b.a.size())
            return false;
        for (size_t i = 0; i < a.a.size(); ++i)
            if (!eq(a.a[i], b.a[i]))
                return false;
        return true;
    default:
    {
        if (a.o.size() != b.o.size())
            return false;
        auto x = a.o.begin();
        auto y = b.o.begin();
        for (; x != a.o.end(); ++x, ++y)
            if (x->first != y->first || !eq(x->second, y->second))
                return false;
        return true;
    }
    }
}

enum Order
{
    Less,
    Same,
    More,
    Unknown  // values of different kinds have no specified order
};
static const char* const order_names[] = { "<", "==", ">", "unordered with" };

template <class T>
Order three(const T& a, const T& b)
{
    return a < b ? Less : b < a ? More : Same;
}

inline Order order(const M& a, const M& b)
{
    if (a.k == M::Int && b.k == M::Flt)
        return three(static_cast<double>(a.i), b.f);
    if (a.k == M::Flt && b.k == M::Int)
        return three(a.f, static_cast<double>(b.i));
    if (a.k != b.k)
        return Unknown;
    switch (a.k)
    {
    case M::Null:
        return Same;
    case M::Bool:
        return three(a.b, b.b);
    case M::Int:
        return three(a.i, b.i);
    case M::Flt:
        return three(a.f, b.f);
    case M::Str:
        return three(a.s, b.s);
    case M::Arr:
        for (size_t i = 0; i < a.a.size() && i < b.a.size(); ++i)
        {
            Order o = order(a.a[i], b.a[i]);
            if (o != Same)
                return o;
        }
        return three(a.a.size(), b.a.size());
    default:
    {
        auto x = a.o.begin();
        auto y = b.o.begin();
        for (; x != a.o.end() && y != b.o.end(); ++x, ++y)
        {
            Order o = three(x->first, y->first);
            if (o != Same)
                return o;
            o = order(x->second, y->second);
            if (o != Same)
                return o;
        }
        return three(a.o.size(), b.o.size());
    }
    }
}

// integers that are exact as floats wherever they may meet one
inline void tame(M& m, int64_t lim = int64_t(1) << 53)
{
    if (m.k == M::Int && (m.i > lim || m.i < -lim))
        m.i %= lim;
    for (auto& x : m.a)
        tame(x, lim);
    for (auto& x : m.o)
        tame(x.second, lim);
}
}  // namespace ord
