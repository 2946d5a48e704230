// C12: the algorithms of the standard library over the iterators of a value do what they do over a vector.
#define ENGINE_NO_MAIN
#include "lib.hpp"

#include <algorithm>
#include <functional>
#include <iterator>
#include <numeric>
#include <vector>
using namespace lib;

namespace
{
// one algorithm, by number, over any pair of iterators; what it returns is told as text
struct Plan
{
    unsigned op;
    size_t   i, j, k;  // positions, i <= j <= k
    M        x;
};

const char* const OPS[] = { "reverse",       "rotate",       "partition",    "stable_partition", "inplace_merge", "next_permutation", "prev_permutation", "remove_if",
                            "unique",        "fill",         "replace",      "transform",        "swap_ranges",   "iter_swap",        "copy",             "copy_backward",
                            "move",          "move_backward", "find",        "count",            "min and max",   "lower_bound",      "equal_range",      "adjacent_find",
                            "search",        "find_end",     "mismatch",     "equal",            "lexicographical_compare", "accumulate", "is_sorted",      "for_each",
                            "reverse range", "advance",      "generate",     "remove_copy" };
const unsigned NOPS = sizeof OPS / sizeof *OPS;

template <class V>
bool odd(const V& v)
{
    return v.is_integer() ? v < V(1) : v.is_floating() ? v < V(0.25) : v.size() % 2 == 1;
}

template <class V, class It>
std::string apply(const Plan& p, It b, It e)
{
    auto at  = [&](size_t n) { return std::next(b, static_cast<std::ptrdiff_t>(n)); };
    auto pos = [&](It it) { return fmt("%ld", static_cast<long>(std::distance(b, it))); };
    const V x = build<V>(p.x);
    switch (p.op)
    {
    case 0: std::reverse(at(p.i), at(p.k)); return "";
    case 1: std::rotate(at(p.i), at(p.j), at(p.k)); return "";
    case 2:
    {
        // the order is unspecified
        It m = std::partition(at(p.i), at(p.k), odd<V>);
        std::string r = pos(m);
        std::string bad = std::all_of(at(p.i), m, odd<V>) && std::none_of(m, at(p.k), odd<V>) ? "" : " not partitioned";
        std::fill(at(p.i), at(p.k), x);
        return r + bad;
    }
    case 3: return pos(std::stable_partition(at(p.i), at(p.k), odd<V>));
    case 4:
    {
        // a selection sort by hand, both parts
        for (It q = at(p.i); q != at(p.j); ++q)
            std::iter_swap(q, std::min_element(q, at(p.j)));
        for (It q = at(p.j); q != at(p.k); ++q)
            std::iter_swap(q, std::min_element(q, at(p.k)));
        std::inplace_merge(at(p.i), at(p.j), at(p.k));
        return "";
    }
    case 5: return std::next_permutation(at(p.i), at(p.k)) ? "more" : "last";
    case 6: return std::prev_permutation(at(p.i), at(p.k)) ? "more" : "last";
    case 7:
    {
        It m = std::remove_if(at(p.i), at(p.k), odd<V>);
        std::fill(m, at(p.k), x);
        return pos(m);
    }
    case 8:
    {
        It m = std::unique(at(p.i), at(p.k));
        std::fill(m, at(p.k), x);
        return pos(m);
    }
    case 9: std::fill(at(p.i), at(p.j), x); return "";
    case 10: std::replace(at(p.i), at(p.k), x, V(77)); return "";
    case 11: std::transform(at(p.i), at(p.k), at(p.i), [](const V& v) { V w; w.push_back(v); return w; }); return "";
    case 12: return pos(std::swap_ranges(at(p.i), at(std::min(p.j, p.i + (p.k - p.j))), at(p.j)));
    case 13: if (p.k > p.i) std::iter_swap(at(p.i), at(p.k - 1)); return "";
    case 14: return pos(std::copy(at(p.j), at(p.k), at(p.i)));
    case 15: return pos(std::copy_backward(at(p.i), at(p.j), at(p.k)));
    case 16:
    {
        It m = std::move(at(p.j), at(p.k), at(p.i));
        std::fill(m, at(p.k), x);
        return pos(m);
    }
    case 17:
    {
        It m = std::move_backward(at(p.i), at(p.j), at(p.k));
        std::fill(at(p.i), m, x);
        return pos(m);
    }
    case 18: return pos(std::find(at(p.i), at(p.k), x));
    case 19: return fmt("%ld", static_cast<long>(std::count(at(p.i), at(p.k), x)));
    case 20: return pos(std::min_element(at(p.i), at(p.k))) + " " + pos(std::max_element(at(p.i), at(p.k)));
    case 21: return pos(std::partition_point(at(p.i), at(p.k), [&](const V& v) { return v < x; })) + " " + pos(std::lower_bound(at(p.i), at(p.k), x));
    case 22:
    {
        auto r = std::equal_range(at(p.i), at(p.k), x);
        return pos(r.first) + " " + pos(r.second);
    }
    case 23: return pos(std::adjacent_find(at(p.i), at(p.k)));
    case 24: return pos(std::search(b, e, at(p.i), at(p.j)));
    case 25: return pos(std::find_end(b, e, at(p.i), at(p.j)));
    case 26:
    {
        auto r = std::mismatch(at(p.i), at(p.j), at(p.i + (p.k - p.j)));
        return pos(r.first) + " " + pos(r.second);
    }
    case 27: return std::equal(at(p.i), at(p.j), at(p.k - (p.j - p.i))) ? "equal" : "not equal";
    case 28: return std::lexicographical_compare(b, at(p.j), at(p.i), e) ? "less" : "not less";
    case 29: return show(extract(std::accumulate(at(p.i), at(p.k), V(value_constant::array), [](V a, const V& v) { a.push_back(v); return a; })), 4000);
    case 30: return std::is_sorted(at(p.i), at(p.k)) ? "sorted" : "not sorted";
    case 31:
    {
        size_t n = 0;
        std::for_each(at(p.i), at(p.k), [&](V& v) { if (n++ % 3 == 1) v = x; });
        return fmt("%zu", n);
    }
    case 32:
    {
        std::string r;
        std::reverse_iterator<It> rb(at(p.k)), re(at(p.i));
        for (; rb != re; ++rb)
            r += show(extract(*rb), 300) + " ";
        return r;
    }
    case 33:
    {
        It q = at(p.k);
        std::advance(q, -static_cast<std::ptrdiff_t>(p.k - p.j));
        return pos(q) + " " + pos(std::prev(q, static_cast<std::ptrdiff_t>(p.j - p.i))) + fmt(" %ld", static_cast<long>(std::distance(b, e)));
    }
    case 34:
    {
        int64_t n = 0;
        std::generate(at(p.i), at(p.k), [&] { return V(n++); });
        return "";
    }
    default:
    {
        std::vector<V> o;
        std::remove_copy(at(p.i), at(p.k), std::back_inserter(o), x);
        return show(extract(V(o)), 4000);
    }
    }
}

template <class J>
void run(Src& s, Ctx& c)
{
    using V = typename J::value;
    // few different elements of one kind, so that order and repetition matter
    const unsigned kind = static_cast<unsigned>(s.draw(4));
    auto element = [&]() -> M {
        switch (kind)
        {
        case 0: return M::integer(static_cast<int64_t>(s.draw(7)) - 2);
        case 1: { U t; for (uint64_t n = s.draw(4); n; --n) t += static_cast<char32_t>(U'a' + s.draw(3)); return M::str(t); }
        case 2: { M a = M::arr(); for (uint64_t n = s.draw(3); n; --n) a.a.push_back(M::integer(static_cast<int64_t>(s.draw(3)))); return a; }
        default: return M::flt(static_cast<double>(static_cast<int64_t>(s.draw(9)) - 4) / 2);
        }
    };
    M m = M::arr();
    for (uint64_t n = s.draw(12); n; --n)
        m.a.push_back(element());
    V              v = build<V>(m);
    std::vector<V> w;
    for (auto& x : m.a)
        w.push_back(build<V>(x));
    c.note(show(m));
    const unsigned rounds = 1 + static_cast<unsigned>(s.draw(5));
    std::string    ops;
    for (unsigned r = 0; r < rounds; ++r)
    {
        Plan         p;
        const size_t n = w.size();
        p.op           = static_cast<unsigned>(s.draw(NOPS));
        size_t q[3]    = { static_cast<size_t>(s.draw(n + 1)), static_cast<size_t>(s.draw(n + 1)), static_cast<size_t>(s.draw(n + 1)) };
        std::sort(q, q + 3);
        p.i = q[0];
        p.j = q[1];
        p.k = q[2];
        p.x = element();
        // searching needs order
        if (p.op == 21 || p.op == 22)
        {
            std::sort(w.begin(), w.end());
            v = V(w);
        }
        const bool back = s.chance(1, 3);
        if (back && (p.op == 21 || p.op == 22))
        {
            std::reverse(w.begin(), w.end());
            v = V(w);
        }
        ops += std::string(ops.empty() ? "" : ", ") + (back ? "backwards " : "") + OPS[p.op] + fmt(" at %zu %zu %zu with ", p.i, p.j, p.k) + show(p.x);
        c.note(std::string(back ? "backwards " : "") + OPS[p.op] + fmt(" at %zu %zu %zu with ", p.i, p.j, p.k) + show(p.x));
        c.label(OPS[p.op]);
        const std::string want = back ? apply<V>(p, w.rbegin(), w.rend()) : apply<V>(p, w.begin(), w.end());
        // stepping the library's reverse iterators gives those of the standard library, which assume nothing of them
        using back_iterator    = std::reverse_iterator<typename V::iterator>;
        const std::string got  = back ? apply<V>(p, back_iterator(v.rbegin()), back_iterator(v.rend())) : apply<V>(p, v.begin(), v.end());
        c.inner();
        if (want != got)
            fail(std::string(OPS[p.op]) + " over the value gives " + got + "\n  but over a vector: " + want);
        const M mw = extract(V(w)), mv = extract(v);
        if (!diff(mw, mv, Tol(0)).empty())
            fail(std::string(OPS[p.op]) + " over the value leaves " + show(mv) + "\n  but over a vector: " + show(mw));
    }
    if (m.a.size() > 1)
        c.nontrivial(hash(m) * 31 + eng::hash_str(ops));
}
}  // namespace

PROP(algorithms, 60000, 600000)
{
    if (s.chance(2, 3))
        run<json>(s, c);
    else
        run<wjson>(s, c);
}
