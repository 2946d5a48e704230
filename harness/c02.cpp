// C02: whatever is dumped is a standard JSON text with the meaning of the value.
#include "lib.hpp"
using namespace lib;

PROPERTY_INFO("C02", "a case is non-trivial if the value has at least two nodes, or is a float or a string that needs escapes; cases are "
                     "distinct by the structural hash of the value, the dump options and the target");

namespace
{
// decodes a narrow or wide text
bool decode(const std::string& t, U& u)
{
    return from8(t, u);
}
bool decode(const std::wstring& t, U& u)
{
    return fromwide(t, u);
}

bool blank(uint32_t c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
}

// the text without the blanks (and indentation characters) between tokens
U squeeze(const U& t, uint32_t ch)
{
    U    r;
    bool str = false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        uint32_t c = t[i];
        if (str)
        {
            r += t[i];
            if (c == '\\' && i + 1 < t.size())
                r += t[++i];
            else if (c == '"')
                str = false;
            continue;
        }
        if (c == '"')
            str = true;
        if (!blank(c) && c != ch)
            r += t[i];
    }
    return r;
}

// every element, member and closing bracket of a non-empty container starts a line, indented by its depth
void layout(const U& t, unsigned step, uint32_t ch, const std::string& shown)
{
    std::vector<size_t> counts;  // elements seen in the open containers
    bool                start = false;
    auto at_line = [&](size_t i, size_t depth, const char* what) {
        size_t k = i, n = 0;
        while (k > 0 && n < depth * step && static_cast<uint32_t>(t[k - 1]) == ch)
        {
            --k;
            ++n;
        }
        if (n != depth * step || k == 0 || t[k - 1] != U'\n')
            fail(fmt("%s at offset %zu is not on a line of its own, indented by %zu x %u\n  text: ", what, i, depth, step) + shown);
        if (k < 2 || blank(t[k - 2]))
            fail(fmt("there is more than a line break before %s at offset %zu\n  text: ", what, i) + shown);
    };
    for (size_t i = 0; i < t.size(); ++i)
    {
        uint32_t c = t[i];
        if (blank(c) || (c == ch && !counts.empty()))
            continue;
        if (c == ',')
        {
            start = true;
            continue;
        }
        if (c == ':')
        {
            if (i + 2 >= t.size() || static_cast<uint32_t>(t[i + 1]) != ch || blank(t[i + 2]) || blank(t[i - 1]))
                fail(fmt("the colon at offset %zu is not followed by one character of the indentation\n  text: ", i) + shown);
            continue;
        }
        if (c == ']' || c == '}')
        {
            size_t n = counts.back();
            counts.pop_back();
            if (n)
                at_line(i, counts.size(), "a closing bracket");
            start = false;
            continue;
        }
        if (start)
        {
            at_line(i, counts.size(), "an element");
            ++counts.back();
            start = false;
        }
        if (c == '[' || c == '{')
        {
            counts.push_back(0);
            start = true;
        }
        else if (c == '"')
        {
            for (++i; i < t.size() && t[i] != U'"'; ++i)
                if (t[i] == U'\\')
                    ++i;
        }
        else
            while (i + 1 < t.size() && t[i + 1] != U',' && t[i + 1] != U']' && t[i + 1] != U'}' && !blank(t[i + 1]))
                ++i;
    }
}

template <class J, class T>
void conforms(Src& s, Ctx& c, bool scalars, bool large = false)
{
    using V = typename J::value;
    M        m      = large ? gen_long(s) : scalars ? gen_scalar(s) : gen_tree(s);
    DOpt     o      = gen_dopt(s, m);
    unsigned target = static_cast<unsigned>(s.draw(3));
    if (o.indent && s.chance(1, 4))
        o.ch = s.pick("._>x");
    if (!o.ch)
        o.ch = '.';
    // the characters of numbers and literals are no indentation
    bool odd = o.ch == '.' || o.ch == '_' || o.ch == '>' || o.ch == 'x';
    static const char* const names[] = { "string", "stream", "wrapped stream" };
    if (c.verbose())
        c.note(fmt("%s to %s of %s, ", sizeof(typename V::char_type) == 1 ? "json" : "wjson", names[target], sizeof(T) == 1 ? "char" : "wchar_t") + o.show() + " value="
               + show(m));
    const V              v = build<V>(m);
    std::basic_string<T> text;
    if (target == 0)
        text = dump_with<J, T>(v, o);
    else
    {
        std::basic_ostringstream<T> os;
        if (target == 1)
            dump_into<J, T>(os, v, o);
        else
        {
            // the stream's own state chooses the options; there is no escaping
            o.escaping = false;
            if (o.mode)
            {
                os.precision(o.prec);
                os.setf(o.flags(), std::ios_base::floatfield);
            }
            os << std::setw(static_cast<int>(o.indent)) << std::setfill(static_cast<T>(o.ch)) << J::wrap(v);
            REQUIRE(os.width() == 0);
        }
        REQUIRE(os.good());
        text = os.str();
    }
    std::string shown = printable(text);
    U           u;
    if (!decode(text, u))
        fail("the text is not well-formed unicode: " + shown);
    if (o.escaping)
        for (uint32_t x : u)
            if (x >= 0x80)
                fail("escaping is on, but the text is not ASCII: " + shown);
    U flat = u;
    if (odd && o.indent)
    {
        // blanks instead of the odd indentation, for the reader
        bool str = false, line = false;
        for (size_t i = 0; i < flat.size(); ++i)
        {
            if (str)
            {
                if (flat[i] == U'\\')
                    ++i;
                else if (flat[i] == U'"')
                    str = false;
                continue;
            }
            if (flat[i] == U'"')
                str = true;
            bool ind = static_cast<uint32_t>(flat[i]) == static_cast<uint32_t>(o.ch);
            if (ind && (line || (i && flat[i - 1] == U':')))
                flat[i] = U' ';
            else
                line = flat[i] == U'\n';
        }
    }
    auto r = Reader::read(flat, true);
    if (r.v != Reader::Accept)
        fail("the text is not a document by RFC 8259 (" + r.why + "): " + shown);
    if (r.dup)
        fail("the text has two members of one name: " + shown);
    std::string d = diff(m, r.m, o.tol());
    if (!d.empty())
        fail("the text means something else: " + d + "\n  text: " + shown);
    c.inner(2);
    if (!o.indent)
    {
        uint32_t none = 0x110000;
        if (squeeze(u, none).size() != u.size())
            fail("there is whitespace between tokens: " + shown);
    }
    if (o.indent)
    {
        DOpt p   = o;
        p.indent = 0;
        U    cu;
        auto compact = dump_with<J, T>(v, p);
        REQUIRE(decode(compact, cu));
        uint32_t none = 0x110000;
        if (squeeze(flat, none) != squeeze(cu, none))
            fail("indentation changes more than whitespace\n  compact: " + printable(compact) + "\n  text: " + shown);
        if (!odd)
            layout(u, o.indent, static_cast<uint32_t>(o.ch), shown);
        else
        {
            // every odd indentation became as many blanks
            U f2 = flat;
            layout(f2, o.indent, ' ', shown);
        }
        c.inner(2);
    }
    c.label(kind_name(m.k));
    c.label(names[target]);
    if (o.escaping && needs_escape(m))
        c.label("escapes with escaping on");
    if (o.indent)
        c.label("indented");
    if (nodes(m) >= 2 || m.k == M::Flt || needs_escape(m))
        c.nontrivial(hash(m) * 31 + o.key() * 64 + target * 16 + sizeof(T) * 2 + sizeof(typename V::char_type));
}
}  // namespace

PROP(large, 200, 4000)
{
    switch (s.draw(3))
    {
    case 0: conforms<wjson, wchar_t>(s, c, false, true); break;
    case 1: conforms<json, wchar_t>(s, c, false, true); break;
    default: conforms<json, char>(s, c, false, true);
    }
}
PROP(narrow_trees, 120000, 400000)
{
    conforms<json, char>(s, c, false);
}
PROP(narrow_scalars, 144000, 500000)
{
    conforms<json, char>(s, c, true);
}
PROP(wide_trees, 36000, 150000)
{
    conforms<wjson, wchar_t>(s, c, false);
}
PROP(wide_scalars, 48000, 200000)
{
    conforms<wjson, wchar_t>(s, c, true);
}
PROP(narrow_to_wide, 36000, 150000)
{
    conforms<json, wchar_t>(s, c, s.flip());
}
PROP(wide_to_narrow, 36000, 150000)
{
    conforms<wjson, char>(s, c, s.flip());
}

// every character alone and between others, as a value and as a key, raw and escaped: the whole BMP in the thorough tier
PROP_ENUM(characters, 3000, 0x10000 + 4096)
{
    static const uint32_t step = 0x10FFFF / 4096;
    uint32_t cp = static_cast<uint32_t>(index);
    if (cp >= 0x10000)
        cp = 0x10000 + (cp - 0x10000) * (step - 16);
    else if (cp >= 0x900 && index < 3000)
        cp = 0x900 + (cp - 0x900) * 103;
    if (!is_scalar(cp))
        return;
    M m    = M::obj();
    U k    = { static_cast<char32_t>(cp), U'"', static_cast<char32_t>(cp) };
    m.o[k] = M::str(U{ static_cast<char32_t>(cp) });
    m.o[U{ static_cast<char32_t>(cp) }] = M::str(U{ U'a', static_cast<char32_t>(cp), U'1' });
    for (int e = 0; e < 2; ++e)
    {
        DOpt o;
        o.escaping       = e == 1;
        std::string text = dump_with<json, char>(build<json::value>(m), o);
        std::wstring w   = dump_with<wjson, wchar_t>(build<wjson::value>(m), o);
        U           u, wu;
        if (!from8(text, u) || !fromwide(w, wu))
            fail("not well-formed unicode: " + printable(text));
        auto r = Reader::read(u, true);
        if (r.v != Reader::Accept)
            fail("not a document (" + r.why + "): " + printable(text));
        std::string d = diff(m, r.m);
        if (!d.empty())
            fail(d + "\n  text: " + printable(text));
        if (wu != u)
            fail("the wide text differs: " + printable(w) + "\n  narrow: " + printable(text));
        if (e)
            for (uint32_t x : u)
                if (x >= 0x80)
                    fail("not ASCII: " + printable(text));
    }
    c.inner(6);
    c.nontrivial(cp);
}
