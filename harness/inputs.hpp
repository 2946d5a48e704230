// Generators of documents that are not (quite) documents.
#pragma once
#include "model.hpp"

namespace md
{

inline const std::vector<std::string>& tokens()
{
    static const std::vector<std::string> t = {
        "[", "]", "{", "}", ":", ",", "null", "true", "false", "nul", "tru", "fals", "nulll", "True", "NULL", "nan", "NaN", "inf", "Infinity",
        "0", "1", "-", "+", "-1", "00", "01", "-01", "1.", ".5", "1.5", "1e", "1e5", "1e+", "1E-", "1e+5", "1.e1", "-.5", "0x10", "1_0", "1,5",
        "0.", "0.0", "-0", "--1", "+-1", "1-", "1+1", "1e1.5", "1.2.3", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
        "-9223372036854775809", "99999999999999999999999", "1e999", "-1e999", "1e-999", "1e99999999999", "\"\"", "\"a\"", "\"", "\\", "\\\"",
        "'a'", "a", "\"a\":", "\"a\":1", "\"\\u", "\"\\u00\"", "\"\\uD800\"", "\"\\uDC00\"", "\"\\uD800\\uDC00\"", "\"\\uD800\\u0041\"",
        "\"\\uDC00\\uD800\"", "\"\\uD800a\"", "\"\\uD800\\n\"", "\"\\x41\"", "\"\\a\"", "\"\\0\"", "\"\\u12G4\"", "\"\\u 123\"", "\"\\u-123\"",
        "\"\\U0041\"", "\"\n\"", "\"\t\"", "\"\x1f\"", "//", "/*", "*/", "/", "/**/", "/***/", "// c\n", "/* c */", "#", " ", "\n", "\t", "\r",
        "\v", "\f", "\xC2\xA0", "\xE2\x80\xA8", "\xE3\x80\x80", "\xEF\xBB\xBF", "\xC4\xB1", "\xC4\xB0", "\xEF\xBC\x91", "\xD9\xA1", "\xC5\x9B",
        "\xC8\xA2", "undefined", "[]", "{}", "[1]", "{\"a\":1}", "[,]", "[1,]", "{,}", "{\"a\":1,}", "[1 2]", "{\"a\" 1}", "{a:1}", "{1:2}",
        "{\"a\":}", "[1,,2]", "[[", "]]", "}}", "{\"a\":{", "\\u0031", "\xF0\x9F\x98\x80", "e", "E", ".", "0e1", "1e05", "+1", "0e", "1e0" };
    return t;
}

inline std::string bad_bytes(Src& s)
{
    static const std::vector<std::string> b = { "\x80", "\xBF", "\xC0", "\xC0\x80", "\xC1\xBF", "\xC2", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF",
                                                "\xE4\xB8", "\xE4", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF0\x90\x80", "\xF0\x90", "\xF8\x88\x80\x80\x80",
                                                "\xFC\x84\x80\x80\x80\x80", "\xFE", "\xFF", "\xC3\x28", "\xE2\x28\xA1", "\xF0\x28\x8C\xBC", "\xED\xA0\xBD\xED\xB8\x80" };
    if (s.flip())
        return s.pick(b);
    std::string r;
    do
        r += static_cast<char>(s.draw(256));
    while (s.more(r.size(), 5, 3));
    return r;
}

inline void mutate(Src& s, std::string& t)
{
    size_t at = static_cast<size_t>(s.draw(t.size() + 1));
    switch (s.weighted({ 4, 4, 4, 3, 3, 2, 2, 2, 2 }))
    {
    case 0:  // delete a little
        if (at < t.size())
            t.erase(at, 1 + static_cast<size_t>(s.draw(3)));
        break;
    case 1:
        t.insert(at, s.pick(tokens()));
        break;
    case 2:  // replace a character by an interesting one
    {
        static const char cs[] = "\"\\/[]{}:,0123456789+-.eEtfnu \n\t\rabxX*\x01\x7f'";
        if (at < t.size())
            t[at] = cs[s.draw(sizeof cs - 1)];
        break;
    }
    case 3:  // flip bits
        if (at < t.size())
            t[at] = static_cast<char>(t[at] ^ (1 << s.draw(8)));
        break;
    case 4:  // truncate
        t.resize(at);
        break;
    case 5:  // copy a slice elsewhere
    {
        std::string x = t.substr(at, static_cast<size_t>(s.draw(12)));
        t.insert(static_cast<size_t>(s.draw(t.size() + 1)), x);
        break;
    }
    case 6:
        t.insert(at, bad_bytes(s));
        break;
    case 7:  // swap two characters
        if (!t.empty() && at < t.size())
            std::swap(t[at], t[static_cast<size_t>(s.draw(t.size()))]);
        break;
    default:  // move on to the next of a structural character and drop it
    {
        size_t p = t.find_first_of("\"[]{}:,\\", at);
        if (p != std::string::npos)
            t.erase(p, 1);
        break;
    }
    }
}

inline std::string gen_number_soup(Src& s)
{
    static const char cs[] = "0123456789+-.eE";
    std::string       t;
    do
        t += s.chance(1, 3) ? cs[s.draw(sizeof cs - 1)] : static_cast<char>('0' + s.draw(10));
    while (s.more(t.size(), 24, 8));
    return t;
}

inline std::string gen_string_soup(Src& s)
{
    static const std::vector<std::string> p = { "a", "\\", "u", "\\u", "0", "D8", "DC", "00", "\\uD83D", "\\uDE00", "\\u0041", "\\n", "\\\"", "\\\\", "\\/", "\"", "F", "f", "g", "\xC3\xA9",
                                                "\xF0\x9F\x98\x80", "\x01", "\n", "\x7f", "\\uDFFF", "\\uD800", "\\uDBFF", "\\uDC00", "\\uE000", "\\uFFFF", "\\u0000", " ", "'", "\\b\\f\\r\\t", "\\U", "\\x" };
    std::string                           t = "\"";
    while (s.more(t.size(), 40, 8))
        t += s.pick(p);
    if (!s.chance(1, 6))
        t += "\"";
    return t;
}

inline std::string in_context(Src& s, const std::string& x)
{
    static const char* const pre[]  = { "", "[", "[1,", "{\"a\":", " ", "[[", "//\n", "{", "/**/" };
    static const char* const post[] = { "", "]", ",1]", "}", " ", "]]", "//", ":1}", "/**/" };
    size_t                   i      = static_cast<size_t>(s.draw(9));
    return pre[i] + x + (s.chance(1, 6) ? s.pick(post) : post[i]);
}

// UTF-8 text, possibly ill-formed
inline std::string gen_input(Src& s, size_t* kind = nullptr)
{
    size_t k = s.weighted({ 8, 4, 3, 3, 2, 1 });
    if (kind)
        *kind = k;
    switch (k)
    {
    case 0:
    {
        TreeOpts to;
        to.budget = 14;
        to.big    = false;
        WriteOpts wo;
        wo.comments   = s.flip();
        Writer      w(s, wo);
        std::string t = utf8(w.doc(gen_tree(s, to)));
        size_t      n = 0;
        do
        {
            mutate(s, t);
            ++n;
        } while (s.more(n, 4, 3));
        return t;
    }
    case 1:
    {
        std::string t;
        size_t      n = 0;
        do
        {
            t += s.pick(tokens());
            ++n;
        } while (s.more(n, 14, 8));
        return t;
    }
    case 2:
        return in_context(s, gen_number_soup(s));
    case 3:
        return in_context(s, gen_string_soup(s));
    case 4:
    {
        // a shorter grammar: structural characters only
        static const char cs[] = "[]{}:,\"a1 ";
        std::string       t;
        do
            t += cs[s.draw(sizeof cs - 1)];
        while (s.more(t.size(), 20, 10));
        return t;
    }
    default:
    {
        std::string t;
        do
            t += static_cast<char>(s.draw(256));
        while (s.more(t.size(), 60, 20));
        return t;
    }
    }
}

}  // namespace md
