// C04: whatever is parsed, the outcome is a value or a deserialization error; malformed input is an error, well-formed input is not.
#include "inputs.hpp"
#include "lib.hpp"
#include "longdoc.hpp"
using namespace lib;

PROPERTY_INFO("C04", "a case is non-trivial if the reference reader decides (accept or reject) an input of at least two bytes; cases are distinct "
                     "by the bytes of the input");

namespace
{
// ends with NUL, like the adapters of the library's own tests
struct NulAdapter : public configor::iadapter
{
    explicit NulAdapter(const std::string& s)
        : s_(s)
    {
    }
    virtual char read() override
    {
        return i_ < s_.size() ? s_[i_++] : '\0';
    }
    std::string s_;
    size_t      i_ = 0;
};

void judge(const Reader::Result& ref, const Read& r, const char* how, const std::string& shown)
{
    if (ref.v == Reader::DontCare)
        return;
    if (ref.v == Reader::Reject)
    {
        if (r.ok)
            fail(std::string(how) + ": malformed input (" + ref.why + ") was accepted as " + show(r.m) + "\n  input: " + shown);
        return;
    }
    if (!r.ok)
        fail(std::string(how) + ": a document was rejected with \"" + r.error + "\"\n  input: " + shown);
    if (ref.dup)
        return;
    std::string d = diff(ref.m, r.m);
    if (!d.empty())
        fail(std::string(how) + ": " + d + "\n  input: " + shown);
}

Reader::Result reference(const std::string& t)
{
    U u;
    if (from8(t, u))
        return Reader::read(u);
    Reader::Result r;
    r.v   = t.find('\0') == std::string::npos ? Reader::Reject : Reader::DontCare;
    r.why = "ill-formed UTF-8";
    return r;
}

// a target that held something and is used again after the error
Read reuse(const std::string& t)
{
    json::value v = json::array{ 1, "x", json::object{ { "k", nullptr } } };
    Read        r = reading([&]() -> json::value {
        json::parse(v, t);
        return v;
    });
    // whatever is left in it is a value
    json::value copy = v;
    json::dump(copy);
    v = 1;
    REQUIRE(v == 1);
    return r;
}

void everything(const std::string& t, Ctx& c)
{
    std::string shown = printable(t);
    auto        ref   = reference(t);
    judge(ref, reading([&] { return json::parse(t); }), "string", shown);
    judge(ref, reuse(t), "string into a used value", shown);
    {
        std::istringstream is(t);
        judge(ref, reading([&] { return json::parse(is); }), "istream", shown);
    }
    c.inner(3);
    std::string cut  = t.substr(0, t.find('\0'));
    auto        cref = cut.size() == t.size() ? ref : reference(cut);
    judge(cref, reading([&] { return json::parse(cut.c_str()); }), "C string", shown);
    c.inner();
    {
        NulAdapter              a(cut);
        configor::iadapterstream is(a);
        Read                    r = reading([&] { return json::parse(is); });
        if (cut.find('\xFF') == std::string::npos)
            judge(cref, r, "NUL-terminated adapter", shown);
    }
    U u;
    if (from8(t, u))
    {
        std::wstring w = wide(u);
        judge(ref, reading([&] { return wjson::parse(w); }), "wide string, wide value", shown);
        judge(ref, reading([&] { return json::parse(w); }), "wide string", shown);
        judge(ref, reading([&] { return wjson::parse(t); }), "string, wide value", shown);
        judge(ref, reading([&] { return json::parse(std::u32string(u)); }), "char32_t string", shown);
        if (u.find(char32_t(0xFFFF)) == U::npos)
            judge(ref, reading([&] { return json::parse(utf16(u)); }), "char16_t string", shown);
        c.inner(5);
    }
    c.label(ref.v == Reader::Accept ? "accept" : ref.v == Reader::Reject ? "reject" : "left open");
    if (ref.v != Reader::DontCare && t.size() >= 2)
        c.nontrivial(eng::hash_str(t));
}
}  // namespace

PROP(inputs, 200000, 1500000)
{
    size_t      kind = 0;
    std::string t    = gen_input(s, &kind);
    if (c.verbose())
        c.note(printable(t));
    static const char* const kinds[] = { "mutated document", "token soup", "number soup", "string soup", "brackets", "raw bytes" };
    c.label(kinds[kind]);
    everything(t, c);
}

// any units of the wider types, also ill-formed ones
PROP(wide_units, 60000, 400000)
{
    U    u;
    bool ok8 = from8(gen_input(s), u);
    if (!ok8)
        u = ascii("[\"a\"]");
    if (s.flip())
    {
        std::u32string t = u;
        size_t         n = 0;
        do
        {
            static const uint32_t bad[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0x100000022u & 0xFFFFFFFFu, 0x10022, 0x10FFFF, 0x130, 0x122 };
            size_t at = static_cast<size_t>(s.draw(t.size() + 1));
            t.insert(at, 1, static_cast<char32_t>(s.flip() ? s.pick(bad) : static_cast<uint32_t>(s.draw(0x200000))));
            ++n;
        } while (s.more(n, 3, 3));
        bool good = true;
        for (uint32_t x : t)
            good = good && is_scalar(x);
        std::wstring w(t.begin(), t.end());
        std::string  shown = printable(w);
        c.note(shown);
        Reader::Result ref;
        if (good)
            ref = Reader::read(t);
        else
        {
            ref.v   = t.find(U'\0') == U::npos ? Reader::Reject : Reader::DontCare;
            ref.why = "ill-formed UTF-32";
        }
        judge(ref, reading([&] { return wjson::parse(w); }), "wide string, wide value", shown);
        judge(ref, reading([&] { return json::parse(w); }), "wide string", shown);
        judge(ref, reading([&] { return json::parse(t); }), "char32_t string", shown);
        c.label(good ? "well-formed UTF-32" : "ill-formed UTF-32");
        c.nontrivial(eng::hash_bytes(t.data(), t.size() * 4));
    }
    else
    {
        std::u16string t = utf16(u);
        size_t         n = 0;
        do
        {
            static const uint16_t bad[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00, 0xE000, 0xFFFE, 0x122, 0x130 };
            size_t at = static_cast<size_t>(s.draw(t.size() + 1));
            if (s.chance(1, 4) && at < t.size())
                t.erase(at, 1);
            else
                t.insert(at, 1, static_cast<char16_t>(s.flip() ? s.pick(bad) : static_cast<uint16_t>(s.draw(0xFFFF))));
            ++n;
        } while (s.more(n, 3, 3));
        for (auto& x : t)
            if (x == 0xFFFF)
                x = u'x';
        U              d;
        bool           good = from16(t, d);
        Reader::Result ref;
        if (good)
            ref = Reader::read(d);
        else
        {
            ref.v   = t.find(u'\0') == std::u16string::npos ? Reader::Reject : Reader::DontCare;
            ref.why = "ill-formed UTF-16";
        }
        std::string shown = printable(std::wstring(t.begin(), t.end()));
        c.note(shown);
        judge(ref, reading([&] { return json::parse(t); }), "char16_t string", shown);
        judge(ref, reading([&] { return wjson::parse(t); }), "char16_t string, wide value", shown);
        c.label(good ? "well-formed UTF-16" : "ill-formed UTF-16");
        c.nontrivial(eng::hash_bytes(t.data(), t.size() * 2));
    }
    c.inner(3);
}

// every truncation of a document, and every single deletion, is judged
PROP(truncations, 2500, 20000)
{
    TreeOpts to;
    to.budget = 12;
    to.big    = false;
    WriteOpts wo;
    wo.comments   = s.flip();
    Writer      w(s, wo);
    std::string t = utf8(w.doc(gen_tree(s, to)));
    if (t.size() > 300)
        t.resize(300);
    c.note("all prefixes and single deletions of " + printable(t));
    for (size_t i = 0; i < t.size(); ++i)
    {
        std::string p = t.substr(0, i), q = p + t.substr(i + 1);
        judge(reference(p), reading([&] { return json::parse(p); }), "prefix", printable(p));
        judge(reference(q), reading([&] { return json::parse(q); }), "deletion", printable(q));
        c.inner(2);
    }
    c.nontrivial(eng::hash_str(t));
}

// long documents with one small disturbance
PROP(long_disturbed, 6000, 60000)
{
    LongDoc     g(s, 300 + static_cast<size_t>(s.draw(s.chance(1, 10) ? 100000 : 6000)), s.flip());
    std::string t = g.doc();
    for (unsigned n = 1 + static_cast<unsigned>(s.draw(8) / 7); n; --n)
        disturb(s, t);
    c.note(printable(t));
    const auto        ref   = reference(t);
    const std::string shown = printable(t.size() > 400 ? t.substr(0, 200) + " ... " + t.substr(t.size() - 200) : t, 1000);
    judge(ref, reading([&] { return json::parse(t); }), "string", shown);
    U u;
    if (s.chance(1, 4) && from8(t, u))
        judge(ref, reading([&] { return wjson::parse(wide(u)); }), "wide string, wide value", shown);
    c.label(ref.v == Reader::Accept ? "accept" : ref.v == Reader::Reject ? "reject" : "left open");
    c.inner(2);
    if (ref.v != Reader::DontCare)
        c.nontrivial(eng::hash_str(t));
}

// long runs: no recursion, no quadratic blow-up, no overflow
PROP(long_runs, 60, 600)
{
    static const char* const unit[] = { "/**/", "//\n", " ", "/* */ //\n", "\n\t", "/***/", "//*/\r\n" };
    size_t                   n      = static_cast<size_t>(s.range(1, 40000));
    std::string              pad;
    const char*              u1 = s.pick(unit);
    const char*              u2 = s.pick(unit);
    for (size_t i = 0; i < n; ++i)
        pad += i % 2 ? u2 : u1;
    unsigned    where = static_cast<unsigned>(s.draw(4));
    std::string t     = where == 0 ? pad + "[1]" : where == 1 ? "[" + pad + "1]" : where == 2 ? "[1" + pad + "]" : "[1]" + pad;
    c.note(fmt("%zu blanks or comments, ", n) + printable(t, 60));
    M want = M::arr();
    want.a.push_back(M::integer(1));
    expect_read(reading([&] { return json::parse(t); }), want, "parse", printable(t, 60));
    // digits, nesting and keys
    size_t      k   = static_cast<size_t>(s.range(1, 400));
    std::string d   = std::string(k, '[') + std::string(k, ']');
    auto        ref = reference(d);
    judge(ref, reading([&] { return json::parse(d); }), "nesting", fmt("%zu brackets", k));
    judge(reference(d + "]"), reading([&] { return json::parse(d + "]"); }), "nesting", fmt("%zu brackets and one more", k));
    d.pop_back();
    judge(reference(d), reading([&] { return json::parse(d); }), "nesting", fmt("%zu brackets, one missing", k));
    std::string num = std::string(k * 20, static_cast<char>('0' + s.draw(10)));
    std::string f   = "[0." + num + "]";
    judge(reference(f), reading([&] { return json::parse(f); }), "digits", printable(f));
    std::string st = "[\"" + std::string(k * 500, 'x') + "\"]";
    judge(reference(st), reading([&] { return json::parse(st); }), "string", fmt("%zu characters", k * 500));
    c.inner(6);
    c.nontrivial(n * 1000 + k);
}

static const char* const REJECTED[] = { "-", "+", "[-]", "[+]", "-a", "1e+", "1e-", "[1e+]", "1e+a", "\xC4\xB1", "t\xC5\xB2ue", "[\xC4\xB0]", "[\xC4\xB1]", "1\xC4\xB0", "1.\xC4\xB5",
                                     "1e\xC4\xB5", "/*", "/**", "/*/", "/* *", "/", "[/]", "[1/2]", "//\n", "", " ", "[", "{", "[1", "{\"a\"", "{\"a\":", "{\"a\":1", "\"", "\"\\",
                                     "\"\\u", "\"\\uD800\\", "\"\\uD800\\u", "\"\xED\xA0\x80\"", "\"\xC0\x80\"", "\"\xE4\xB8\"", "\"\xFF\"", "[1]2", "[1][", "nul", "{\"a\"}", "{\"\"}", "{\"a\":1,\"b\"}", "{\"a\":}", "[,]", "{,}", "{1:2}" };

PROP_ENUM(regressions, sizeof(REJECTED) / sizeof(REJECTED[0]), sizeof(REJECTED) / sizeof(REJECTED[0]))
{
    c.note(printable(REJECTED[index]));
    auto ref = reference(REJECTED[index]);
    if (ref.v != Reader::Reject)
        fail("harness: the reference does not reject it");
    everything(REJECTED[index], c);
}

// characters that look like, or share bits with, the ones the grammar knows, wherever these are expected
PROP_ENUM(look_alikes, 0x110000 / 256, 2 * 0x110000 / 256)
{
    const bool every = index >= 0x110000 / 256;
    if (every)
        index -= 0x110000 / 256;
    static const char32_t* const before[] = { U"", U"[", U"[1", U"[1.", U"[1e", U"[1e-", U"[-", U"[1", U"t", U"{\"a\"", U"{\"a\":1", U"{", U"{\"a", U"\"\\", U"\"\\u00", U"[1//", U"[1/*", U"[1/*/" };
    static const char32_t* const after[]  = { U"", U"1]", U"]", U"]", U"]", U"1]", U"1]", U"2]", U"ue", U"1}", U"\"b\":2}", U"a\":1}", U":1}", U"\"", U"1\"", U"2]\n]", U"/]", U"*/]" };
    // beyond the first plane only now and then in the first round
    const bool   sparse = index >= 0x100 && !every;
    const size_t step   = sparse ? 17 : 1;
    c.note(fmt("U+%04zX to U+%04zX", index * 256, index * 256 + 255));
    for (size_t i = sparse ? index % step : 0; i < 256; i += step)
    {
        const char32_t cp = static_cast<char32_t>(index * 256 + i);
        if (!is_scalar(cp) || cp < 0x80)
            continue;
        for (size_t k = 0; k < sizeof before / sizeof *before; ++k)
        {
            const U    t   = U(before[k]) + cp + after[k];
            const auto ref = Reader::read(t);
            const auto x   = (cp + k) % 3;
            judge(ref,
                  x == 0 ? reading([&] { return json::parse(utf8(t)); }) : x == 1 ? reading([&] { return wjson::parse(wide(t)); }) : reading([&] { return json::parse(wide(t)); }),
                  x == 0 ? "string" : x == 1 ? "wide string, wide value" : "wide string", printable(wide(t)));
            c.inner();
        }
    }
    c.nontrivial(index * 2 + every);
}
