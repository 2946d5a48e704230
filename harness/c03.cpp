// C03: every well-formed document is accepted and has the right value.
#include "lib.hpp"
#include "longdoc.hpp"
using namespace lib;

PROPERTY_INFO("C03", "a case is non-trivial if the document has at least two nodes, a comment, an escape or blanks; cases are distinct by the "
                     "text of the document");

namespace
{
template <class J>
void accept(Src& s, Ctx& c, bool comments, bool scalar)
{
    using V = typename J::value;
    M         m = scalar ? gen_scalar(s) : gen_tree(s);
    WriteOpts wo;
    wo.comments = comments;
    Writer      w(s, wo);
    U           doc   = w.doc(m);
    std::string shown = printable(utf8(doc));
    if (c.verbose())
        c.note((sizeof(typename V::char_type) == 1 ? "json: " : "wjson: ") + shown);
    auto ref = Reader::read(doc);
    if (ref.v != Reader::Accept || !diff(m, ref.m).empty())
        fail("harness: the writer and the reader disagree: " + ref.why + diff(m, ref.m));
    auto text = chars<typename V::char_type>::enc(doc);
    Read r    = reading([&] { return J::parse(text); });
    expect_read(r, ref.m, "parse", shown);
    c.inner();
    if (w.comments())
        c.label("with comments");
    if (needs_escape(m))
        c.label("escapes or non-ASCII");
    c.label(kind_name(m.k));
    if (nodes(m) > 1 || w.comments() || doc.find(U'\\') != U::npos || doc.find(U' ') != U::npos)
        c.nontrivial(eng::hash_bytes(doc.data(), doc.size() * 4) + sizeof(text[0]));
}
}  // namespace

PROP(documents, 100000, 500000)
{
    accept<json>(s, c, false, false);
}
PROP(scalars, 100000, 500000)
{
    accept<json>(s, c, s.flip(), true);
}
PROP(commented, 100000, 500000)
{
    accept<json>(s, c, true, false);
}
PROP(wide, 50000, 300000)
{
    accept<wjson>(s, c, s.flip(), s.flip());
}

// long runs of everything that can repeat
PROP(long_documents, 2000, 40000)
{
    LongDoc           g(s, 2000 + static_cast<size_t>(s.draw(s.chance(1, 10) ? 200000 : 20000)), s.flip());
    const std::string text = g.doc();
    c.note(printable(text));
    U u;
    REQUIRE(from8(text, u));
    auto ref = Reader::read(u);
    if (ref.v == Reader::Reject)
        fail("harness: the writer and the reader disagree: " + ref.why);
    if (ref.v != Reader::Accept || ref.dup)
        throw eng::Discard();
    const std::string shown = printable(text, 300);
    expect_read(reading([&] { return json::parse(text); }), ref.m, "parse", shown);
    if (s.flip())
        expect_read(reading([&] { return wjson::parse(wide(u)); }), ref.m, "parse of wide text", shown);
    c.inner(2);
    if (text.size() > 100)
        c.nontrivial(eng::hash_str(text));
}

// of several members of one name, one is kept
PROP(duplicates, 50000, 200000)
{
    std::map<U, std::vector<M>> all;
    U                           doc = ascii("{");
    size_t                      n   = 0;
    WriteOpts                   wo;
    wo.comments = s.flip();
    Writer w(s, wo);
    while (n < 2 || s.more(n, 12, 5))
    {
        if (n++)
            doc += U',';
        U k = gen_key(s);
        if (!all.empty() && s.flip())
        {
            auto it = all.begin();
            std::advance(it, static_cast<long>(s.draw(all.size())));
            k = it->first;
        }
        TreeOpts to;
        to.budget = 6;
        to.big    = false;
        M v       = gen_tree(s, to);
        // names are compared by meaning: the spelling may differ
        doc += w.doc(M::str(k)) + U":" + w.doc(v) + (s.chance(1, 6) ? U"\n" : U"");
        if (wo.comments)
            doc += U'\n';  // may have ended in a line comment
        all[k].push_back(v);
    }
    doc += U'}';
    // line comments of the names
    std::string text = utf8(doc);
    c.note(printable(text));
    auto ref = Reader::read(doc);
    if (ref.v != Reader::Accept)
        throw eng::Discard();
    Read r = reading([&] { return json::parse(text); });
    if (!r.ok)
        fail("rejected with \"" + r.error + "\"");
    if (r.m.k != M::Obj)
        fail("not an object");
    if (r.m.o.size() != all.size())
        fail(fmt("%zu different names, but %zu members", all.size(), r.m.o.size()));
    bool dup = false;
    for (auto& x : all)
    {
        auto it = r.m.o.find(x.first);
        if (it == r.m.o.end())
            fail("member \"" + show(x.first) + "\" is missing");
        bool any = false;
        for (auto& v : x.second)
            any = any || diff(v, it->second).empty();
        if (!any)
            fail("member \"" + show(x.first) + "\" is none of the values given: " + show(it->second));
        dup = dup || x.second.size() > 1;
    }
    c.inner(all.size());
    if (dup)
        c.nontrivial(eng::hash_str(text));
}

// every way to write one character in a string
PROP_ENUM(escapes, 0x10000, 0x10000)
{
    uint32_t cp = static_cast<uint32_t>(index);
    if (!is_scalar(cp))
        return;
    static const char* const fmts[] = { "\\u%04x", "\\u%04X" };
    M                        want   = M::str(U{ static_cast<char32_t>(cp) });
    for (auto f : fmts)
    {
        std::string t = "\"" + fmt(f, cp) + "\"";
        Read        r = reading([&] { return json::parse(t); });
        expect_read(r, want, "parse", t);
        std::wstring wt(t.begin(), t.end());
        r = reading([&] { return wjson::parse(wt); });
        expect_read(r, want, "parse of wide text", t);
    }
    // raw, except control characters, quote and backslash
    if (cp >= 0x20 && cp != '"' && cp != '\\')
    {
        U    u = { U'"', static_cast<char32_t>(cp), U'"' };
        auto t = utf8(u);
        Read r = reading([&] { return json::parse(t); });
        expect_read(r, want, "parse", printable(t));
    }
    c.inner(5);
    c.nontrivial(cp);
}

// the inputs of the defects found here and repaired, and corner spellings
PROP_ENUM(regressions, 34, 34)
{
    static const struct
    {
        const char* text;
        const char* canon;
    } T[] = {
        { "/***/1", "1" },
        { "/****/1", "1" },
        { "/** **/1/***/", "1" },
        { "/* * */ [ /***/ ] /*/*/", "[]" },
        { "[1,/*a*//*b*/2]//", "[1,2]" },
        { "//\n//\r\n1", "1" },
        { "1//", "1" },
        { "1/**/", "1" },
        { "-9223372036854775808", "-9223372036854775808" },
        { "9223372036854775807", "9223372036854775807" },
        { "-0", "0" },
        { "[-0.0]", "[0.0]" },
        { "0.0e+0", "0.0" },
        { "1E+05", "100000.0" },
        { "1e-05", "0.00001" },
        { "1.5E-03", "0.0015" },
        { "12e2", "1200.0" },
        { "1e22", "10000000000000000000000.0" },
        { "\"\\/\"", "\"/\"" },
        { "\"\\uD83D\\uDE00\"", "\"\\ud83d\\ude00\"" },
        { "\"\\u0000\"", "\"\\u0000\"" },
        { "\"/*\"", "\"/*\"" },
        { "\"//\"", "\"//\"" },
        { "{\"//\":\"/**/\"}", "{\"//\":\"/**/\"}" },
        { " \t\r\n[ \t\r\n1 \t\r\n, \t\r\n2 \t\r\n] \t\r\n", "[1,2]" },
        { "{ \"a\" : { } , \"b\" : [ ] }", "{\"a\":{},\"b\":[]}" },
        { "{\"\":\"\"}", "{\"\":\"\"}" },
        { "[[[[[]]]]]", "[[[[[]]]]]" },
        { "[true,false,null]", "[true,false,null]" },
        { "{\"a\":/**/1/**/,/**/\"b\"/**/:2}", "{\"a\":1,\"b\":2}" },
        { "18446744073709551616", "18446744073709551616.0" },
        { "[1e300]", "[1.0e+300]" },
        { "\"\x7f\"", "\"\\u007f\"" },
        { "0.1e1", "1.0" },
    };
    auto& t = T[index];
    c.note(t.text);
    auto ref = Reader::read(ascii(t.canon));
    if (ref.v != Reader::Accept)
        fail("harness: the reference rejects " + std::string(t.canon));
    expect_read(reading([&] { return json::parse(t.text); }), ref.m, "parse", t.text);
    std::wstring w(t.text, t.text + std::strlen(t.text));
    expect_read(reading([&] { return wjson::parse(w); }), ref.m, "parse of wide text", t.text);
    c.nontrivial(index);
}
