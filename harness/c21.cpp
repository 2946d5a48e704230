// C21: work grows in proportion to the content.
// Built with -fsanitize-coverage=trace-pc: the work of a call is the number of branch edges it executes plus the bytes it allocates,
// which is the same on every run.
#include "lib.hpp"
#include "inputs.hpp"
#include <cstdio>
#include <list>
#include <deque>
#include <forward_list>
#include <unordered_map>
#include <map>
#include <set>
#include <sstream>

using namespace lib;

PROPERTY_INFO("C21", "a case is non-trivial if its content grows by at least a hundred units between the sizes compared; cases are distinct by shape, content "
                     "and operation");

namespace c21
{
static uint64_t        g_edges = 0;
static volatile size_t g_sink = 0;  // what is computed is used
}
#if defined(__clang__)
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc()
#else
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc()
#endif
{
    ++c21::g_edges;
}

namespace c21
{
using namespace configor;

// the work of f
template <class F>
uint64_t work(F f)
{
    const uint64_t e = g_edges, b = eng::alloc().bytes;
    f();
    return (g_edges - e) + (eng::alloc().bytes - b);
}

// ---------------------------------------------------------------- content of any size

struct Shape
{
    enum Kind
    {
        Array,
        Object,
        Same,
        DeepArray,
        DeepObject,
        DeepMixed,
        Chars,
        Key,
        Digits,
        Fraction,
        Blanks,
        Comments,
        Comment,
        KINDS
    } kind;
    size_t      how = 0;     // a variant of the shape
    bool        cut = false; // lacks the last character
    std::string unit;        // what is repeated, or stands at the core
    std::string piece;       // the characters repeated within a string, the blanks, the comments
    std::string prefix;      // of the keys

    bool deep() const
    {
        return kind == DeepArray || kind == DeepObject || kind == DeepMixed;
    }
    std::string key(size_t i, size_t n) const
    {
        if (how == 1)
            i = n - 1 - i;
        else if (how == 2)
            i = (i * 7919) % n;  // 7919 is no factor of any size used
        return fmt("%s%06zu", prefix.c_str(), i);
    }
    std::string text(size_t n) const
    {
        std::string t;
        switch (kind)
        {
        case Array:
            for (size_t i = 0; i < n; ++i)
                t += (i ? "," : "[") + unit;
            t += "]";
            break;
        case Object:
            for (size_t i = 0; i < n; ++i)
                t += (i ? ",\"" : "{\"") + key(i, n) + "\":" + unit;
            t += "}";
            break;
        case Same:
            for (size_t i = 0; i < n; ++i)
                t += (i ? ",\"" : "{\"") + prefix + "\":" + unit;
            t += "}";
            break;
        case DeepArray:
        case DeepObject:
        case DeepMixed:
        {
            std::string tail;
            for (size_t i = 0; i < n; ++i)
            {
                const bool obj = kind == DeepObject || (kind == DeepMixed && i % 2);
                t += obj ? "{" : "[";
                if (how == 1)
                    t += (obj ? "\"a\":" : "") + unit + ",";
                if (obj)
                    t += "\"" + prefix + "\":";
                tail += obj ? "}" : "]";
                if (how == 2)
                    tail += (obj ? std::string("\"z\":") : std::string()) + unit + ",";  // turned round below
            }
            t += unit;
            if (how == 2)
            {
                // closed from the inside, a unit after each
                for (size_t i = n; i-- > 0;)
                {
                    const bool obj = kind == DeepObject || (kind == DeepMixed && i % 2);
                    t += (obj ? ",\"z\":" : ",") + unit + (obj ? "}" : "]");
                }
            }
            else
                t.append(tail.rbegin(), tail.rend());
            break;
        }
        case Chars:
        case Key:
            t = kind == Key ? "{\"" : "\"";
            for (size_t i = 0; i < n; ++i)
                t += piece;
            t += kind == Key ? "\":" + unit + "}" : "\"";
            break;
        case Digits:
            t = (how == 1 ? "-" : "") + std::string(n, piece[0]) + (how == 2 ? ".5" : "");
            break;
        case Fraction:
            t = (how == 1 ? "-0." : "1.") + std::string(n, piece[0]) + (how == 2 ? "e-5" : "");
            break;
        case Blanks:
        case Comments:
        {
            std::string b;
            for (size_t i = 0; i < n; ++i)
                b += piece;
            t = how == 0 ? b + unit : how == 1 ? "[" + b + unit + "," + unit + "]" : unit + b;
            break;
        }
        default:
        {
            std::string b = how == 0 ? "//" : "/*";
            for (size_t i = 0; i < n; ++i)
                b += piece;
            t = b + (how == 0 ? "\n" : "*/") + unit;
        }
        }
        if (cut && !t.empty())
            t.erase(t.size() - 1);
        return t;
    }
    std::string show() const
    {
        static const char* const names[] = { "array", "object", "equal names", "nested arrays", "nested objects", "nested mixture", "long string", "long key", "long integer", "long fraction", "blanks", "comments", "long comment" };
        return fmt("%s, variant %zu%s, unit %s, piece \"%s\", key prefix \"%s\"", names[kind], how, cut ? ", cut off" : "", lib::printable(unit).c_str(), lib::printable(piece).c_str(), lib::printable(prefix).c_str());
    }
};

std::string spell(Src& s, const M& m)
{
    WriteOpts wo;
    wo.comments = false;
    Writer w(s, wo);
    return utf8(w.doc(m));
}

std::string gen_unit(Src& s)
{
    switch (s.weighted({ 4, 3, 2, 2 }))
    {
    case 0:
    {
        static const char* const u[] = { "1", "null", "true", "-12.5", "\"\"", "\"abc\"", "[]", "{}", "\"\\u00e9\\n\"", "9007199254740993", "1e300" };
        return u[s.draw(sizeof u / sizeof u[0])];
    }
    case 1:
        return spell(s, gen_scalar(s));
    case 2:
    {
        std::string r = "[";
        for (size_t i = 0, n = 1 + static_cast<size_t>(s.draw(3)); i < n; ++i)
            r += (i ? "," : "") + spell(s, gen_scalar(s));
        return r + "]";
    }
    default:
    {
        std::string r = "{";
        for (size_t i = 0, n = 1 + static_cast<size_t>(s.draw(3)); i < n; ++i)
            r += fmt("%s\"m%zu\":", i ? "," : "", i) + spell(s, gen_scalar(s));
        return r + "}";
    }
    }
}

Shape gen_shape(Src& s, bool value)
{
    Shape h;
    h.kind = static_cast<Shape::Kind>(value ? s.draw(Shape::Fraction + 1) : s.draw(Shape::KINDS));
    h.how  = static_cast<size_t>(s.draw(3));
    h.cut  = !value && s.chance(1, 8);
    h.unit = gen_unit(s);
    if (h.unit.size() > 200)
        h.unit = "\"cut short\"";
    static const char* const prefixes[] = { "k", "", "a somewhat longer prefix of all of the keys ", "\xc3\xa9", "0" };
    h.prefix = prefixes[s.draw(sizeof prefixes / sizeof prefixes[0])];
    switch (h.kind)
    {
    case Shape::Digits:
    case Shape::Fraction:
        h.piece = std::string(1, static_cast<char>('1' + s.draw(9)));
        break;
    case Shape::Blanks:
    {
        static const char* const b[] = { " ", "\n", "\t", "\r\n" };
        h.piece                      = b[s.draw(4)];
        break;
    }
    case Shape::Comments:
    {
        static const char* const b[] = { "/**/", "//\n", "/* x */ ", "/***/", "// /*\r\n", "\n//" };
        h.piece                      = b[s.draw(5)];
        break;
    }
    case Shape::Comment:
    {
        static const char* const b[] = { "c", "*", "/", " *", "\xc3\xa9", "**" };
        h.piece                      = b[s.draw(h.how ? (sizeof b / sizeof b[0]) : 5)];
        if (h.how && h.piece == "/")
            h.piece = "/ ";
        break;
    }
    default:
    {
        static const char* const c[] = { "c", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\\"", "\\u0001", "ab ", "/", "\x7f", "\\\\", "\xe2\x82\xac" };
        h.piece                      = c[s.draw(sizeof c / sizeof c[0])];
    }
    }
    return h;
}

// ---------------------------------------------------------------- the law

struct Sample
{
    uint64_t work = 0;
    uint64_t size = 0;
};

// proportional work: the slope between the second and the third size may not be much steeper than between the first and the second
// (each size is four times the one before: 4 for quadratic work, 1.25 for a logarithmic factor; blocks that double blur it)
void linear(const Sample (&x)[3], size_t n, const std::string& what)
{
    const double d1 = static_cast<double>(x[1].size) - static_cast<double>(x[0].size), d2 = static_cast<double>(x[2].size) - static_cast<double>(x[1].size);
    if (d1 < 1 || d2 < 1)
        fail("harness: the content does not grow: " + what);
    const double s1 = (static_cast<double>(x[1].work) - static_cast<double>(x[0].work)) / d1, s2 = (static_cast<double>(x[2].work) - static_cast<double>(x[1].work)) / d2;
    if (s2 > 2.2 * std::max(s1, 0.0) + 24)
        fail(what
             + fmt("\n  work grows faster than the content: %llu for size %llu (n = %zu), %llu for size %llu, %llu for size %llu: %.1f and then %.1f per unit",
                   static_cast<unsigned long long>(x[0].work), static_cast<unsigned long long>(x[0].size), n, static_cast<unsigned long long>(x[1].work), static_cast<unsigned long long>(x[1].size),
                   static_cast<unsigned long long>(x[2].work), static_cast<unsigned long long>(x[2].size), s1, s2));
}
// work that does not depend on the size, but for a logarithm
void constant(const Sample (&x)[3], size_t n, const std::string& what)
{
    if (static_cast<double>(x[2].work) > 2.2 * static_cast<double>(x[0].work) + 60)
        fail(what + fmt("\n  work depends on the size: %llu for n = %zu, %llu for %zu, %llu for %zu", static_cast<unsigned long long>(x[0].work), n, static_cast<unsigned long long>(x[1].work), 4 * n, static_cast<unsigned long long>(x[2].work), 16 * n));
}

// the smallest of the sizes compared; now and then a large one, so that a cheap step repeated too often outweighs the rest
inline size_t gen_size(Src& s, const Shape& h)
{
    if (h.deep())
        return 6 + static_cast<size_t>(s.draw(19));
    return s.chance(1, 40) ? 600 + static_cast<size_t>(s.draw(601)) : 16 + static_cast<size_t>(s.draw(65));
}

template <class T>
std::basic_string<T> units(const std::string& t)
{
    U u;
    if (!from8(t, u))
        fail("harness: not UTF-8");
    return lib::chars<T>::enc(u);
}

template <class C>
class InAdapter;
template <>
class InAdapter<char> : public iadapter
{
public:
    explicit InAdapter(const std::string& t)
        : t_(t)
    {
    }
    char read() override
    {
        return i_ < t_.size() ? t_[i_++] : static_cast<char>(std::char_traits<char>::eof());
    }

private:
    const std::string& t_;
    size_t             i_ = 0;
};
template <>
class InAdapter<wchar_t> : public wiadapter
{
public:
    explicit InAdapter(const std::wstring& t)
        : t_(t)
    {
    }
    wchar_t read() override
    {
        return i_ < t_.size() ? t_[i_++] : static_cast<wchar_t>(std::char_traits<wchar_t>::eof());
    }

private:
    const std::wstring& t_;
    size_t              i_ = 0;
};

template <class C>
struct OutAdapter : basic_oadapter<C>
{
    explicit OutAdapter(std::basic_string<C>& t)
        : t_(t)
    {
    }
    void write(const C ch) override
    {
        t_ += ch;
    }
    std::basic_string<C>& t_;
};

struct Temp
{
    std::FILE* f;
    explicit Temp(const std::string& t)
        : f(::fmemopen(nullptr, t.size() + 1, "w+"))
    {
        if (!f)
            fail("harness: fmemopen");
        std::fwrite(t.data(), 1, t.size(), f);
        std::rewind(f);
    }
    ~Temp()
    {
        std::fclose(f);
    }
};

// ---------------------------------------------------------------- reading

template <class J, class T>
void read_once(typename J::value& v, const std::basic_string<T>& t, size_t way)
{
    try
    {
        switch (way)
        {
        case 0:
            J::parse(v, t);
            break;
        case 1:
            J::parse(v, t.c_str());
            break;
        case 2:
        {
            std::basic_istringstream<T> is(t);
            J::parse(v, is);
            break;
        }
        case 3:
        {
            std::basic_istringstream<T> is(t);
            auto                        w = J::wrap(v);
            is >> w;
            break;
        }
        default:
        {
            InAdapter<T>            a(t);
            basic_iadapterstream<T> is(a);
            J::parse(v, is);
        }
        }
    }
    catch (const configor_exception&)
    {
    }
}

template <class J, class T>
void reading(Src& s, Ctx& c)
{
    Shape        h    = gen_shape(s, false);
    const size_t ways = 5;
    size_t       way  = static_cast<size_t>(s.draw(ways + (sizeof(T) == 1 ? 1 : 0)));
    size_t       n    = gen_size(s, h);
    static const char* const names[] = { "parse a string", "parse a C string", "parse a stream", "extract from a stream", "parse from an adapter", "parse a FILE" };
    const std::string        what    = std::string(sizeof(T) == 1 ? "" : "wide: ") + names[way] + ": " + h.show();
    c.note(what + fmt(", n = %zu", n));
    Sample x[3];
    for (int i = -1; i < 3; ++i)
    {
        const size_t k    = i < 0 ? n : n << 2 * i;
        std::string  text = h.text(k);
        auto         t    = units<T>(text);
        Sample       r;
        r.size = t.size();
        typename J::value v;
        if (way == 5)
        {
            Temp f(text);
            r.work = work([&] {
                try
                {
                    J::template parse<char>(v, f.f);
                }
                catch (const configor_exception&)
                {
                }
            });
        }
        else
            r.work = work([&] { read_once<J, T>(v, t, way); });
        if (i >= 0)
            x[i] = r;
    }
    linear(x, n, what);
    c.inner();
    c.label(names[way]);
    c.nontrivial(eng::hash_bytes(what.data(), what.size()));
}

// ---------------------------------------------------------------- writing

struct W
{
    uint8_t indent;
    bool    tab, escape;
    size_t  way;
};

template <class J, class T>
size_t write_once(const typename J::value& v, const W& w)
{
    using S = typename J::template serializer_type<T>;
    std::basic_string<T> text;
    const T              fill = w.tab ? T('\t') : T(' ');
    switch (w.way)
    {
    case 0:
        text = J::template dump<T>(v, { S::with_indent(w.indent, fill), S::with_unicode_escaping(w.escape) });
        break;
    case 1:
        J::template dump<T>(text, v, { S::with_indent(w.indent, fill), S::with_unicode_escaping(w.escape) });
        break;
    case 2:
    {
        std::basic_ostringstream<T> os;
        J::template dump<T>(os, v, { S::with_indent(w.indent, fill), S::with_unicode_escaping(w.escape) });
        text = os.str();
        break;
    }
    case 3:
    {
        OutAdapter<T>            a(text);
        basic_oadapterstream<T>  os(a);
        J::template dump<T>(static_cast<std::basic_ostream<T>&>(os), v, { S::with_indent(w.indent, fill), S::with_unicode_escaping(w.escape) });
        break;
    }
    default:
    {
        std::basic_ostringstream<T> os;
        os.width(w.indent);
        os.fill(fill);
        lib::insert_wrapped<J>(static_cast<std::basic_ostream<T>&>(os), v, static_cast<int>(w.way - 4));
        text = os.str();
    }
    }
    return text.size();
}

template <class J, class T>
void writing(Src& s, Ctx& c)
{
    using C = typename J::value::char_type;
    Shape  h = gen_shape(s, true);
    W      w{ static_cast<uint8_t>(s.flip() ? s.draw(6) : 0), s.flip(), s.flip(), static_cast<size_t>(s.draw(7)) };
    size_t n = gen_size(s, h);
    static const char* const names[] = { "dump to a string", "append to a string", "dump to a stream", "dump to an adapter", "insert into a stream", "insert a variable into a stream", "insert an object into a stream" };
    const std::string        what    = fmt("%s%s, indent %d%s%s: ", sizeof(C) == sizeof(T) ? sizeof(T) == 1 ? "" : "wide: " : sizeof(T) == 1 ? "wide to narrow: " : "narrow to wide: ", names[w.way], w.indent, w.tab ? " tabs" : "", w.escape ? ", escaping" : "") + h.show();
    c.note(what + fmt(", n = %zu", n));
    Sample x[3];
    for (int i = -1; i < 3; ++i)
    {
        typename J::value v = J::parse(units<C>(h.text(i < 0 ? n : n << 2 * i)));
        Sample            r;
        r.work = work([&] { r.size = write_once<J, T>(v, w); });
        if (i >= 0)
            x[i] = r;
    }
    if (x[2].size < x[1].size + 8)
    {
        c.label("one number");  // saturated
        constant(x, n, what);
        return;
    }
    linear(x, n, what);
    c.inner();
    c.label(names[w.way]);
    c.nontrivial(eng::hash_bytes(what.data(), what.size()));
}

// ---------------------------------------------------------------- values

template <class V>
struct Op
{
    const char* name;
    bool        steady;  // constant work
    int         need;    // 0 any content, 1 an array, 2 an object, 3 an array or object
    // returns the work
    uint64_t (*run)(V& v, const std::vector<typename V::string_type>& keys, size_t n);
};

template <class V>
uint64_t visit(const V& v)
{
    uint64_t r = 1;
    for (auto it = v.begin(), e = v.end(); it != e; ++it)
        r += v.is_array() || v.is_object() ? visit<V>(*it) : 1;
    return r;
}

template <class V>
const std::vector<Op<V>>& ops()
{
    using Keys = std::vector<typename V::string_type>;
    using Str  = typename V::string_type;
    static const std::vector<Op<V>> o = {
        { "copy", false, 0, [](V& v, const Keys&, size_t) { return work([&] { V w(v); }); } },
        { "assign", false, 0, [](V& v, const Keys&, size_t) { V w; return work([&] { w = v; }); } },
        { "assign over", false, 0, [](V& v, const Keys&, size_t) { V w(v); return work([&] { w = v; }); } },
        { "move", true, 0, [](V& v, const Keys&, size_t) { return work([&] { V w(std::move(v)); v = std::move(w); }); } },
        { "swap", true, 0, [](V& v, const Keys&, size_t) { V w(1); return work([&] { w.swap(v); std::swap(v, w); }); } },
        { "swap with one of the kind", true, 0, [](V& v, const Keys&, size_t) { V w(v.type()), x(v.type()); if (x.is_array()) x.push_back(1); if (x.is_object()) x[Str(1, typename V::char_type('w'))] = 1; return work([&] { w.swap(v); w.swap(v); x.swap(v); std::swap(v, x); }); } },
        { "move into an array and out", true, 0, [](V& v, const Keys&, size_t) { return work([&] { V w, x; w.push_back(std::move(v)); x.emplace_back(std::move(w[static_cast<size_t>(0)])); w[static_cast<size_t>(1)] = std::move(x[static_cast<size_t>(0)]); v = std::move(w.at(1)); }); } },
        { "move into an object and out", true, 0, [](V& v, const Keys&, size_t) { return work([&] { V w, x; Str k(1, typename V::char_type('k')); w[k] = std::move(v); x[k.c_str()] = std::move(w[k]); v = std::move(x.at(k)); }); } },
        { "move over one of the kind", true, 0, [](V& v, const Keys&, size_t) { V w(v.type()), x; return work([&] { w = std::move(v); x = std::move(w); v = V(std::move(x)); }); } },
        { "destroy", false, 0, [](V& v, const Keys&, size_t) { V* w = new V(v); return work([&] { delete w; }); } },
        { "assign null", false, 0, [](V& v, const Keys&, size_t) { V w(v); return work([&] { w = nullptr; }); } },
        { "clear", false, 0, [](V& v, const Keys&, size_t) { V w(v); return work([&] { w.clear(); }); } },
        { "compare for equality", false, 0, [](V& v, const Keys&, size_t) { V w(v); return work([&] { if (!(v == w)) fail("not equal to its copy"); }); } },
        { "compare for inequality", false, 0, [](V& v, const Keys&, size_t) { V w(v); return work([&] { if (v != w) fail("not equal to its copy"); }); } },
        { "compare for order", false, 0, [](V& v, const Keys&, size_t) { V w(v); return work([&] { if (v < w || v > w || !(v <= w) || !(v >= w)) fail("in order before or after its copy"); }); } },
        { "visit all", false, 0, [](V& v, const Keys&, size_t) { return work([&] { g_sink = visit<V>(v); }); } },
        { "ask", true, 0, [](V& v, const Keys&, size_t) { return work([&] { g_sink = g_sink + v.size() + v.empty() + v.type() + v.is_array() + (v.begin() == v.end()) + (v.cbegin() == v.cend()) + (v.rbegin() == v.rend()); }); } },
        { "walk forwards", false, 3, [](V& v, const Keys&, size_t n) { size_t k = 0; uint64_t w = work([&] { for (auto it = v.begin(); it != v.end(); ++it) k += it->type() == value_constant::null ? 1 : 1; }); if (k != n) fail("harness: walk"); return w; } },
        { "walk backwards", false, 3, [](V& v, const Keys&, size_t n) { size_t k = 0; uint64_t w = work([&] { for (auto it = v.rbegin(); it != v.rend(); ++it) k += it->type() == value_constant::null ? 1 : 1; }); if (k != n) fail("harness: walk"); return w; } },
        { "walk by steps back", false, 3, [](V& v, const Keys&, size_t) { return work([&] { auto it = v.end(); while (it != v.begin()) --it; }); } },
        { "walk with keys", false, 2, [](V& v, const Keys&, size_t) { size_t k = 0; return work([&] { for (auto it = v.cbegin(); it != v.cend(); it++) k += it.key().size(); g_sink = k; }); } },
        { "index every element", false, 1, [](V& v, const Keys&, size_t n) { const V& cv = v; return work([&] { for (size_t i = 0; i < n; ++i) g_sink = g_sink + v[i].type() + cv[i].type() + v.at(i).type() + cv.at(i).type(); }); } },
        { "one element", true, 1, [](V& v, const Keys&, size_t n) { return work([&] { g_sink = g_sink + v[n / 2].type() + v.at(n - 1).type() + v[static_cast<size_t>(0)].type(); }); } },
        { "offsets", false, 1, [](V& v, const Keys&, size_t n) { std::ptrdiff_t d = 0; return work([&] { for (size_t i = 0; i < n; ++i) d += (v.begin() + static_cast<std::ptrdiff_t>(i)) - v.begin(); g_sink = static_cast<size_t>(d); }); } },
        { "one offset", true, 1, [](V& v, const Keys&, size_t n) { return work([&] { auto it = v.begin() + static_cast<std::ptrdiff_t>(n); it -= static_cast<std::ptrdiff_t>(n / 2); g_sink = g_sink + static_cast<size_t>(it - v.begin()) + (it < v.end()); }); } },
        { "one member", true, 2, [](V& v, const Keys& k, size_t n) { const V& cv = v; return work([&] { g_sink = g_sink + v.find(k[n / 2])->type() + cv.find(k[n - 1])->type() + v.count(k[0]) + v[k[n / 3]].type() + cv[k[n / 2]].type() + v.at(k[n - 1]).type() + cv.at(k[1]).type(); }); } },
        { "a missing member", true, 2, [](V& v, const Keys&, size_t) { const V& cv = v; Str none(3, typename V::char_type('?')); return work([&] { g_sink = g_sink + (v.find(none) == v.end()) + cv.count(none) + (cv.find(none) == cv.end()); }); } },
        { "look up every member", false, 2, [](V& v, const Keys& k, size_t) { const V& cv = v; return work([&] { for (auto& x : k) g_sink = g_sink + v.find(x)->type() + cv.count(x) + v[x].type() + cv.at(x).type(); }); } },
        { "append", false, 1, [](V& v, const Keys&, size_t n) { V w; return work([&] { for (size_t i = 0; i < n; ++i) { if (i % 2) w.push_back(v[i]); else w.emplace_back(v[i]); } }); } },
        { "append moved", false, 1, [](V& v, const Keys&, size_t n) { V c(v), w; return work([&] { for (size_t i = 0; i < n; ++i) w.push_back(std::move(c[i])); }); } },
        { "one append", true, 1, [](V& v, const Keys&, size_t n) { V w(v); while (w.data().vector->capacity() < w.size() + 3) w.emplace_back(1); (void)n; return work([&] { w.push_back(V(1)); w.emplace_back(nullptr); }); } },
        { "extend by index", false, 1, [](V& v, const Keys&, size_t n) { V w; return work([&] { for (size_t i = 0; i < n; ++i) w[i] = v[i]; }); } },
        { "add members", false, 2, [](V& v, const Keys& k, size_t) { V w; return work([&] { for (auto& x : k) w[x] = v[x]; }); } },
        { "erase from the back", false, 1, [](V& v, const Keys&, size_t n) { V w(v); return work([&] { for (size_t i = n; i-- > 0;) { if (i % 2) w.erase(i); else w.erase(w.end() - 1); } if (!w.empty()) fail("not empty"); }); } },
        { "erase a range", false, 3, [](V& v, const Keys&, size_t) { V w(v); return work([&] { w.erase(w.begin(), w.end()); if (!w.empty()) fail("not empty"); }); } },
        { "erase members", false, 2, [](V& v, const Keys& k, size_t) { V w(v); return work([&] { for (auto& x : k) if (w.erase(x) != 1) fail("not erased"); }); } },
        { "erase members by iterator", false, 2, [](V& v, const Keys&, size_t) { V w(v); return work([&] { for (auto it = w.begin(); it != w.end();) it = w.erase(it); }); } },
        { "convert to a vector and back", false, 1, [](V& v, const Keys&, size_t) { return work([&] { auto t = v.template get<std::vector<V>>(); V w(t); }); } },
        { "convert from a list, deque, forward_list", false, 1, [](V& v, const Keys&, size_t n) { std::list<V> l; std::deque<V> d; std::forward_list<V> f; for (size_t i = 0; i < n; ++i) { l.push_back(v[i]); d.push_back(v[i]); f.push_front(v[i]); } return work([&] { V a(l), b(d), e(f); }); } },
        { "convert to a map and back", false, 2, [](V& v, const Keys&, size_t) { return work([&] { auto t = v.template get<std::map<Str, V>>(); V w(t); }); } },
        { "convert from an unordered map", false, 2, [](V& v, const Keys& k, size_t) { std::unordered_map<Str, V> m; for (auto& x : k) m[x] = v[x]; return work([&] { V w(m); }); } },
        { "convert numbers", false, 1, [](V&, const Keys&, size_t n) { std::vector<int> x; for (size_t i = 0; i < n; ++i) x.push_back(static_cast<int>((i * 7919) % n)); return work([&] { V v(x); auto a = v.template get<std::list<int>>(); auto b = v.template get<std::deque<int>>(); auto d = v.template get<std::forward_list<int>>(); auto e = v.template get<std::set<int>>(); V w(e); auto g = v.template get<std::vector<long>>(); V y(g); V z(a); }); } },
        { "get a part", true, 3, [](V& v, const Keys&, size_t) { return work([&] { g_sink = g_sink + (v.template get_ptr<typename V::array_type*>() != nullptr) + (v.template get_ptr<typename V::object_type*>() != nullptr); if (v.is_array()) v.template get<typename V::array_type&>(); else v.template get<typename V::object_type&>(); }); } },
        { "get the string", false, 4, [](V& v, const Keys&, size_t) { return work([&] { Str t = v.template get<Str>(); V w(t); V z(t.c_str()); }); } },
    };
    return o;
}

template <class J>
void values(Src& s, Ctx& c)
{
    using V = typename J::value;
    using C = typename V::char_type;
    Shape h = gen_shape(s, true);
    if (h.kind == Shape::Same || h.kind == Shape::Digits || h.kind == Shape::Fraction)
        h.kind = s.flip() ? Shape::Array : Shape::Object;
    size_t       at = static_cast<size_t>(s.draw(ops<V>().size()));
    const Op<V>& o  = ops<V>()[at];
    if (o.need == 1)
        h.kind = Shape::Array;
    else if (o.need == 2)
        h.kind = Shape::Object;
    else if (o.need == 3 && h.kind != Shape::Array)
        h.kind = Shape::Object;
    else if (o.need == 4)
        h.kind = Shape::Chars;
    size_t            n    = gen_size(s, h);
    const std::string what = std::string(sizeof(C) == 1 ? "" : "wide: ") + o.name + ": " + h.show();
    c.note(what + fmt(", n = %zu", n));
    Sample x[3];
    for (int i = -1; i < 3; ++i)
    {
        const size_t                         k = i < 0 ? n : n << 2 * i;
        std::string                          t = h.text(k);
        V                                    v = J::parse(units<C>(t));
        std::vector<typename V::string_type> keys;
        if (h.kind == Shape::Object)
            for (size_t j = 0; j < k; ++j)
                keys.push_back(units<C>(h.key(j, k)));
        Sample r;
        r.size = t.size();
        r.work = o.run(v, keys, k);
        if (i >= 0)
            x[i] = r;
    }
    if (o.steady)
        constant(x, n, what);
    else
        linear(x, n, what);
    c.inner();
    c.label(o.name);
    c.nontrivial(eng::hash_bytes(what.data(), what.size()));
}
}  // namespace c21

PROP(read_narrow, 20000, 100000)
{
    c21::reading<json, char>(s, c);
}
PROP(read_wide, 10000, 50000)
{
    c21::reading<wjson, wchar_t>(s, c);
}
PROP(read_across, 8000, 30000)
{
    if (s.flip())
        c21::reading<json, wchar_t>(s, c);
    else
        c21::reading<wjson, char>(s, c);
}
PROP(write, 20000, 100000)
{
    switch (s.draw(4))
    {
    case 0:
    case 1:
        return c21::writing<json, char>(s, c);
    case 2:
        return c21::writing<wjson, wchar_t>(s, c);
    default:
        return s.flip() ? c21::writing<json, wchar_t>(s, c) : c21::writing<wjson, char>(s, c);
    }
}
PROP(values_narrow, 20000, 100000)
{
    c21::values<json>(s, c);
}
PROP(values_wide, 10000, 50000)
{
    c21::values<wjson>(s, c);
}
