// C15: error handlers decide about errors and about nothing else.
#include "inputs.hpp"
#include "lib.hpp"

#include <cstdio>
#include <sstream>
using namespace lib;

PROPERTY_INFO("C15", "a case is non-trivial if it has a call that fails; cases are distinct by the sequence of texts or values and handlers");

namespace
{
using configor::error_policy;
using Strict = configor::error_handler_with<error_policy::strict>;
using Record = configor::error_handler_with<error_policy::record>;
using Ignore = configor::error_handler_with<error_policy::ignore>;

// the way a call ended
struct End
{
    enum Kind
    {
        Fine,
        Parse,
        Dump,
        Own,
        Foreign
    } kind = Fine;
    std::string what;
    bool        operator==(const End& o) const
    {
        return kind == o.kind && what == o.what;
    }
    std::string show() const
    {
        static const char* const n[] = { "no exception", "configor_deserialization_error", "configor_serialization_error", "the handler's own exception", "the encoding's exception" };
        return std::string(n[kind]) + (kind == Fine ? "" : " \"" + what + "\"");
    }
};

struct OwnError
{
    std::string what;
};

struct ForeignError : std::exception
{
    const char* what() const noexcept override
    {
        return "foreign";
    }
};
int g_foreign = 0;

template <class F>
End ending(F f)
{
    End e;
    try
    {
        f();
    }
    catch (const configor::configor_deserialization_error& x)
    {
        e.kind = End::Parse;
        e.what = x.what();
    }
    catch (const configor::configor_serialization_error& x)
    {
        e.kind = End::Dump;
        e.what = x.what();
    }
    catch (const OwnError& x)
    {
        e.kind = End::Own;
        e.what = x.what;
    }
    catch (const std::runtime_error& x)
    {
        if (!g_foreign)
            throw;
        e.kind = End::Foreign;
        e.what = x.what();
    }
    catch (const ForeignError& x)
    {
        e.kind = End::Foreign;
        e.what = x.what();
    }
    catch (int x)
    {
        e.kind = End::Foreign;
        e.what = fmt("int %d", x);
    }
    return e;
}

// an encoding that fails in its own way at some character
int g_after = 0;
void perhaps()
{
    if (g_after-- != 0)
        return;
    switch (g_foreign)
    {
    case 1:
        throw ForeignError();
    case 2:
        throw 7;
    case 3:
        throw std::runtime_error("foreign runtime_error");
    case 4:
        throw configor::configor_deserialization_error("foreign");
    case 5:
        throw configor::configor_serialization_error("foreign");
    default:
        throw std::ios_base::failure("foreign failure");
    }
}
template <class C>
struct Failing
{
    static bool decode(std::basic_istream<C>& is, uint32_t& cp)
    {
        perhaps();
        return configor::encoding::auto_utf<C>::decode(is, cp);
    }
    static void encode(std::basic_ostream<C>& os, uint32_t cp)
    {
        perhaps();
        configor::encoding::auto_utf<C>::encode(os, cp);
    }
};

struct Counting : configor::error_handler
{
    explicit Counting(int then)
        : then_(then)
    {
    }
    void handle(std::exception_ptr p) override
    {
        ++calls;
        if (!p)
        {
            last = End();
            return;
        }
        last = ending([&] { std::rethrow_exception(p); });
        if (then_ == 1)
            throw OwnError{ "own: " + last.what };
        if (then_ == 2)
            std::rethrow_exception(p);
        // calls of the library from within a handler are ordinary calls
        if (then_ == 3)
        {
            if (json::dump(json::parse("[1,{\"a\":null}]")) != "[1,{\"a\":null}]")
                fail("a call from within the handler went wrong");
        }
    }
    int then_;
    int calls = 0;
    End last;
};

// all handlers, shared by the calls of one case
struct Handlers
{
    Strict      strict;
    Record      record;
    Ignore      ignore;
    Counting    quiet{ 0 }, own{ 1 }, again{ 2 }, nested{ 3 };
    std::string recorded;  // what the recording handler should hold
};
// given before another one: never to be asked
struct Former : configor::error_handler
{
    int  calls = 0;
    bool given = false;
    void handle(std::exception_ptr) override
    {
        ++calls;
    }
};
thread_local Former g_former;
// an option that gives it first
template <class P, class O>
O replacing(O last)
{
    if (!g_former.given)
        return last;
    return [=](P& p) {
        P::with_error_handler(&g_former)(p);
        last(p);
    };
}

const char* const names[] = { "no handler (null)", "strict", "record", "ignore", "counting", "throwing", "rethrowing", "nesting" };

// f(handler) makes the call; `ref` is how it ends without a handler.  Returns whether f() ran to its end
template <class F>
void judge(Handlers& h, int which, const End& ref, const std::string& what, F f)
{
    configor::error_handler* eh[] = { nullptr, &h.strict, &h.record, &h.ignore, &h.quiet, &h.own, &h.again, &h.nested };
    Counting*                ct   = which == 4 ? &h.quiet : which == 5 ? &h.own : which == 6 ? &h.again : which == 7 ? &h.nested : nullptr;
    int                      before = ct ? ct->calls : 0;
    g_former.calls                  = 0;
    End                      got    = ending([&] { f(eh[which]); });
    End                      want   = ref;
    if (ref.kind != End::Fine)
    {
        if (which == 5)
        {
            want.kind = End::Own;
            want.what = "own: " + ref.what;
        }
        else if (which >= 2 && which != 6 && !(which == 2 && ref.kind == End::Foreign))
            want = End();
        if (which == 2 && ref.kind != End::Foreign)
            h.recorded = ref.what;
    }
    // what a recording handler does with an error that is not the library's is left open
    if (which == 2 && ref.kind == End::Foreign && got == End())
    {
        h.recorded = h.record.error;
        return;
    }
    std::string how = what + " with handler \"" + names[which] + (g_former.given ? "\" instead of another: " : "\": ");
    if (g_former.calls)
        fail(how + "the other one was called");
    if (!(got == want))
        fail(how + got.show() + ", expected " + want.show());
    if (ct)
    {
        int calls = ct->calls - before;
        if (calls != (ref.kind != End::Fine))
            fail(how + fmt("the handler was called %d times", calls) + (ref.kind == End::Fine ? " though nothing failed" : " for one error"));
        if (calls && !(ct->last == ref))
            fail(how + "the handler was given " + ct->last.show() + ", expected " + ref.show());
    }
    if (h.record.error != h.recorded)
        fail(how + "the recording handler holds \"" + h.record.error + "\", expected \"" + h.recorded + "\"");
}

// whatever happened to it, a value can be looked at, copied, written to and destroyed
template <class V>
size_t walk(const V& v)
{
    size_t n = 1;
    if (v.is_array() || v.is_object())
        for (auto it = v.begin(); it != v.end(); ++it)
            n += walk(*it);
    else if (v.is_string())
        n += v.template get<typename V::string_type>().size();
    return n;
}
template <class J>
void usable(Src& s, typename J::value& v, const std::string& what)
{
    using V  = typename J::value;
    size_t n = walk(v);
    {
        V w(v);
        if (walk(w) != n || !(w == v) || w != v)
            fail(what + ": the value left behind is not equal to its copy");
        V x;
        x = v;
        x = std::move(w);
        if (walk(x) != n)
            fail(what + ": moving a copy of the value left behind changed it");
    }
    ending([&] { J::dump(v); });
    switch (s.draw(4))
    {
    case 0:
        v = build<V>(M::str(U"x"));
        break;
    case 1:
        if (v.is_array())
            v.push_back(V(1));
        else if (v.is_object())
            v[enc<V>(U"fresh")] = V(true);
        else
            v = V(nullptr);
        if (walk(v) == 0)
            fail("?");
        break;
    case 2:
        v.clear();
        break;
    default:
    {
        J::parse(v, chars<typename V::char_type>::enc(U"[1,{\"a\":[null]}]"));
        if (!diff(M::arr(), extract(v), Tol(0)).empty() && J::dump(v) != chars<typename V::char_type>::enc(U"[1,{\"a\":[null]}]"))
            fail(what + ": parsing into the value left behind gives a wrong value");
    }
    }
}

// ---------------------------------------------------------------- parse

template <class J, class S>
typename J::template parser_option<S> with(configor::error_handler* eh)
{
    using P = typename J::template parser_type<S>;
    return replacing<P>(P::with_error_handler(eh));
}

// the sources of a document; J::parse of source i with these options
template <class J, class S>
void parse_from(int i, typename J::value& v, bool fresh, const std::basic_string<S>& t, configor::error_handler* eh, int enc_opt, bool bare)
{
    using P = typename J::template parser_type<S>;
    auto call = [&](std::function<typename J::value()> ret, std::function<void(typename J::value&)> into) {
        if (fresh)
            v = ret();
        else
            into(v);
    };
#define FROM(...)                                                                                                                                       \
    if (bare)                                                                                                                                           \
        call([&] { return J::parse(__VA_ARGS__); }, [&](typename J::value& x) { J::parse(x, __VA_ARGS__); });                                           \
    else if (enc_opt == 0)                                                                                                                              \
        call([&] { return J::parse(__VA_ARGS__, { with<J, S>(eh) }); }, [&](typename J::value& x) { J::parse(x, __VA_ARGS__, { with<J, S>(eh) }); });   \
    else if (enc_opt == 1)                                                                                                                              \
        call([&] { return J::parse(__VA_ARGS__, { P::template with_encoding<configor::encoding::auto_utf>(), with<J, S>(eh) }); },                      \
             [&](typename J::value& x) { J::parse(x, __VA_ARGS__, { P::template with_encoding<configor::encoding::auto_utf>(), with<J, S>(eh) }); });   \
    else                                                                                                                                                \
        call([&] { return J::parse(__VA_ARGS__, { with<J, S>(eh), P::template with_source_encoding<configor::encoding::auto_utf>() }); },               \
             [&](typename J::value& x) { J::parse(x, __VA_ARGS__, { with<J, S>(eh), P::template with_source_encoding<configor::encoding::auto_utf>() }); })
    switch (i)
    {
    case 0:
        FROM(t);
        break;
    case 1:
        FROM(t.c_str());
        break;
    default:
    {
        std::basic_istringstream<S> is(t);
        FROM(is);
        break;
    }
    }
#undef FROM
}
template <class J>
void parse_file(typename J::value& v, bool fresh, const std::string& t, configor::error_handler* eh, bool bare)
{
    std::string copy = t;
    std::FILE*  f    = fmemopen(&copy[0], copy.size(), "rb");
    if (!f)
        fail("harness: no FILE");
    struct Close
    {
        std::FILE* f;
        ~Close()
        {
            std::fclose(f);
        }
    } close{ f };
    if (bare)
        fresh ? v = J::template parse<char>(f) : (J::template parse<char>(v, f), v);
    else if (fresh)
        v = J::template parse<char>(f, { with<J, char>(eh) });
    else
        J::template parse<char>(v, f, { with<J, char>(eh) });
}

template <class S>
std::basic_string<S> units(const std::string& t);
template <>
std::string units<char>(const std::string& t)
{
    return t;
}
template <>
std::wstring units<wchar_t>(const std::string& t)
{
    U u;
    if (from8(t, u))
        return wide(u);
    std::wstring w;
    for (char c : t)
        w += static_cast<wchar_t>(static_cast<unsigned char>(c));
    return w;
}

std::string some_text(Src& s)
{
    if (s.chance(1, 4))
    {
        TreeOpts to;
        to.budget = 8;
        to.big    = false;
        WriteOpts wo;
        Writer    w(s, wo);
        return utf8(w.doc(gen_tree(s, to)));
    }
    return gen_input(s);
}

template <class V>
V used_value(Src& s)
{
    TreeOpts to;
    to.budget = 5;
    to.depth  = 3;
    to.big    = false;
    return build<V>(gen_tree(s, to));
}


template <class J, class S>
void parsing(Src& s, Ctx& c)
{
    using V = typename J::value;
    Handlers    h;
    g_former.given = s.chance(1, 4);
    size_t      n        = 0;
    bool        failing  = false;
    uint64_t    key      = 3;
    do
    {
        std::string          bytes = some_text(s);
        std::basic_string<S> t     = units<S>(bytes);
        int                  src   = static_cast<int>(s.draw(3));
        int                  enc_o = static_cast<int>(s.draw(3));
        std::string          shown = printable(t);
        c.note("parse " + shown);
        V   ref_v;
        End ref = ending([&] { parse_from<J, S>(src, ref_v, false, t, nullptr, 0, true); });
        failing = failing || ref.kind != End::Fine;
        key     = eng::hash_str(bytes, key * 31 + static_cast<uint64_t>(src * 3 + enc_o));
        for (int which = 0; which < 8; ++which)
        {
            if (which && s.chance(1, 3))
                continue;
            c.inner();
            bool        fresh = s.flip();
            V           v     = used_value<V>(s);
            std::string what  = "parsing " + shown;
            judge(h, which, ref, what, [&](configor::error_handler* eh) { parse_from<J, S>(src, v, fresh, t, eh, enc_o, false); });
            if (ref.kind == End::Fine)
            {
                std::string d = diff(extract(ref_v), extract(v), Tol(0));
                if (!d.empty())
                    fail(what + " with handler \"" + names[which] + "\" gives another value: " + d);
            }
            usable<J>(s, v, what + " with handler \"" + names[which] + "\"");
            key = key * 31 + static_cast<uint64_t>(which);
        }
        ++n;
    } while (s.more(n, 6, 3));
    c.label(fmt("%zu calls", n));
    if (failing)
        c.nontrivial(key);
}

// ---------------------------------------------------------------- dump

// a sink that takes n units only
template <class C>
class Limited : public std::basic_streambuf<C>
{
public:
    explicit Limited(size_t n)
        : left_(n)
    {
    }
    std::basic_string<C> text;

protected:
    using TR = std::char_traits<C>;
    typename TR::int_type overflow(typename TR::int_type ch) override
    {
        if (!left_ || TR::eq_int_type(ch, TR::eof()))
            return TR::eof();
        --left_;
        text += TR::to_char_type(ch);
        return ch;
    }

private:
    size_t left_;
};

// strings that no encoding accepts, somewhere in the value
template <class V>
struct Spoil;
template <>
struct Spoil<json::value>
{
    static std::string bad(Src& s)
    {
        static const char* const b[] = { "\x80", "\xC3", "ok\xFF", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xC0\x80", "a\xE4\xB8", "\xC3\xA9\xC3" };
        return s.pick(b);
    }
};
template <>
struct Spoil<wjson::value>
{
    static std::wstring bad(Src& s)
    {
        static const wchar_t b[] = { wchar_t(0xD800), wchar_t(0xDFFF), wchar_t(0x110000), wchar_t(0x7FFFFFFF) };
        return std::wstring(s.draw(3), L'a') + s.pick(b);
    }
};
template <class V>
void spoil(Src& s, V& v)
{
    if (v.is_array() && v.size() && s.chance(3, 4))
        return spoil(s, v[static_cast<size_t>(s.draw(v.size()))]);
    if (v.is_object() && v.size() && s.chance(3, 4))
    {
        auto it = v.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(s.draw(v.size())));
        return spoil(s, *it);
    }
    if (v.is_object() && s.flip())
        v[Spoil<V>::bad(s)] = V(1);
    else if (v.is_array())
        v.push_back(V(Spoil<V>::bad(s)));
    else
        v = V(Spoil<V>::bad(s));
}

template <class J, class T>
void dump_to(int sink, const typename J::value& v, const DOpt& o, configor::error_handler* eh, bool bare, size_t limit, std::basic_string<T>& out)
{
    using SZ = typename J::template serializer_type<T>;
    auto x   = options<J, T>(o);
    auto e   = replacing<SZ>(SZ::with_error_handler(eh));
    auto p   = o.mode ? x[2] : x[1];
#define TO(...)                                                     \
    if (bare)                                                       \
        J::template dump<T>(__VA_ARGS__, v, { x[0], x[1], p });     \
    else                                                            \
        J::template dump<T>(__VA_ARGS__, v, { x[0], e, x[1], p })
    switch (sink)
    {
    case 0:
        if (bare)
            out = J::template dump<T>(v, { x[0], x[1], p });
        else
            out = J::template dump<T>(v, { e, x[0], x[1], p });
        break;
    case 1:
        TO(out);
        break;
    case 2:
    {
        std::basic_ostringstream<T> os;
        struct Keep
        {
            std::basic_ostringstream<T>& os;
            std::basic_string<T>&        out;
            ~Keep()
            {
                out = os.str();
            }
        } keep{ os, out };
        TO(os);
        break;
    }
    default:
    {
        Limited<T>            buf(limit);
        std::basic_ostream<T> os(&buf);
        struct Keep
        {
            Limited<T>&           buf;
            std::basic_string<T>& out;
            ~Keep()
            {
                out = buf.text;
            }
        } keep{ buf, out };
        TO(os);
        break;
    }
    }
#undef TO
}

template <class J, class T>
void dumping(Src& s, Ctx& c)
{
    using V = typename J::value;
    Handlers h;
    g_former.given = s.chance(1, 4);
    size_t   n       = 0;
    bool     failing = false;
    uint64_t key     = 5;
    do
    {
        TreeOpts to;
        to.budget = 8;
        to.big    = false;
        M    m    = gen_tree(s, to);
        V    v    = build<V>(m);
        DOpt o    = gen_dopt(s, m);
        if (o.indent > 8)
            o.indent = 3;
        bool   spoiled = s.flip();
        if (spoiled)
            spoil(s, v);
        const V     keep(v);
        int         sink  = static_cast<int>(s.draw(4));
        size_t      limit = static_cast<size_t>(s.draw(s.flip() ? 8 : 120));
        std::string shown = show(m) + (spoiled ? " with an ill-formed string" : "") + fmt(" to sink %d", sink) + (sink == 3 ? fmt(" of %zu units", limit) : "") + ", " + o.show();
        c.note("dump " + shown);
        std::basic_string<T> ref_t;
        End                  ref = ending([&] { dump_to<J, T>(sink, v, o, nullptr, true, limit, ref_t); });
        failing                  = failing || ref.kind != End::Fine;
        key                      = md::hash(m, key * 31 + static_cast<uint64_t>(sink)) + o.key() + spoiled;
        for (int which = 0; which < 8; ++which)
        {
            if (which && s.chance(1, 3))
                continue;
            c.inner();
            std::string          what = "dumping " + shown;
            std::basic_string<T> out;
            judge(h, which, ref, what, [&](configor::error_handler* eh) { dump_to<J, T>(sink, v, o, eh, false, limit, out); });
            std::string how = what + " with handler \"" + names[which] + "\": ";
            if (ref.kind == End::Fine && out != ref_t)
                fail(how + "the text is " + printable(out) + "\n  without a handler " + printable(ref_t));
            if (v != keep)
                fail(how + "the value was changed");
            key = key * 31 + static_cast<uint64_t>(which);
        }
        ++n;
    } while (s.more(n, 5, 2));
    c.label(fmt("%zu calls", n));
    if (failing)
        c.nontrivial(key);
}

void parsing_files(Src& s, Ctx& c)
{
    Handlers h;
    g_former.given = s.chance(1, 4);
    size_t   n       = 0;
    bool     failing = false;
    uint64_t key     = 7;
    do
    {
        std::string t = some_text(s);
        if (t.empty())
            t = " ";
        std::string shown = printable(t);
        c.note("parse " + shown);
        json::value ref_v;
        End         ref = ending([&] { parse_file<json>(ref_v, false, t, nullptr, true); });
        failing         = failing || ref.kind != End::Fine;
        key             = eng::hash_str(t, key);
        for (int which = 0; which < 8; ++which)
        {
            c.inner();
            json::value v     = used_value<json::value>(s);
            bool        fresh = s.flip();
            std::string what  = "parsing a file of " + shown;
            judge(h, which, ref, what, [&](configor::error_handler* eh) { parse_file<json>(v, fresh, t, eh, false); });
            if (ref.kind == End::Fine && !diff(extract(ref_v), extract(v), Tol(0)).empty())
                fail(what + " with handler \"" + names[which] + "\" gives another value");
            usable<json>(s, v, what);
        }
        ++n;
    } while (s.more(n, 3, 1));
    if (failing)
        c.nontrivial(key);
}

// errors of any type
template <class J, class C>
void foreign(Src& s, Ctx& c)
{
    using V = typename J::value;
    using P = typename J::template parser_type<C>;
    using Z = typename J::template serializer_type<C>;
    struct Off
    {
        ~Off()
        {
            g_foreign = 0;
        }
    } off;
    Handlers h;
    g_former.given = s.chance(1, 4);
    size_t   n       = 0;
    bool     failing = false;
    uint64_t key     = 11;
    do
    {
        TreeOpts to;
        to.budget         = 6;
        to.big            = false;
        const M   m       = gen_tree(s, to);
        const V   v       = build<V>(m);
        auto      text    = J::template dump<C>(v);
        const int type    = static_cast<int>(s.range(1, 6));
        const int after   = static_cast<int>(s.draw(s.flip() ? 6 : 60));
        const int what    = static_cast<int>(s.draw(4));
        const bool stream = s.flip();
        static const char* const whats[] = { "decoding while parsing", "encoding while parsing", "decoding while dumping", "encoding while dumping" };
        std::string shown = std::string(whats[what]) + fmt(" fails at character %d with error %d: ", after, type) + printable(text);
        c.note(shown);
        auto call = [&](configor::error_handler* eh) {
            g_after   = after;
            g_foreign = type;
            if (what < 2)
            {
                V                             w;
                std::basic_istringstream<C>   is(text);
                auto                          e = replacing<P>(P::with_error_handler(eh));
                auto                          x = what == 0 ? P::template with_source_encoding<Failing>() : P::template with_target_encoding<Failing>();
                if (stream)
                    eh ? J::parse(w, is, { x, e }) : J::parse(w, is, { x });
                else
                    eh ? J::parse(w, text, { e, x }) : J::parse(w, text, { x });
                usable<J>(s, w, shown);
            }
            else
            {
                auto e = replacing<Z>(Z::with_error_handler(eh));
                auto x = what == 2 ? Z::template with_source_encoding<Failing>() : Z::template with_target_encoding<Failing>();
                auto u = Z::with_unicode_escaping(false);
                std::basic_ostringstream<C> os;
                if (stream)
                    eh ? J::template dump<C>(os, v, { x, u, e }) : J::template dump<C>(os, v, { x, u });
                else
                    eh ? J::template dump<C>(v, { e, x, u }) : J::template dump<C>(v, { x, u });
            }
        };
        End ref = ending([&] { call(nullptr); });
        failing = failing || ref.kind != End::Fine;
        key     = md::hash(m, key * 31 + static_cast<uint64_t>(type * 1000 + after * 10 + what));
        for (int which = 0; which < 8; ++which)
        {
            c.inner();
            judge(h, which, ref, shown, call);
            key = key * 31 + static_cast<uint64_t>(which);
        }
        g_foreign = 0;
        c.label(std::string(whats[what]) + (ref.kind == End::Fine ? ", fine" : ", failing"));
        ++n;
    } while (s.more(n, 3, 1));
    if (failing)
        c.nontrivial(key);
}
}  // namespace

PROP(foreign, 6000, 100000)
{
    if (s.flip())
        foreign<json, char>(s, c);
    else
        foreign<wjson, wchar_t>(s, c);
}
PROP(parse_narrow, 15000, 300000)
{
    parsing<json, char>(s, c);
}
PROP(parse_wide, 10000, 200000)
{
    if (s.flip())
        parsing<wjson, wchar_t>(s, c);
    else if (s.flip())
        parsing<json, wchar_t>(s, c);
    else
        parsing<wjson, char>(s, c);
}
PROP(parse_file, 4000, 60000)
{
    parsing_files(s, c);
}
PROP(dump_narrow, 10000, 200000)
{
    dumping<json, char>(s, c);
}
PROP(dump_wide, 8000, 160000)
{
    if (s.flip())
        dumping<wjson, wchar_t>(s, c);
    else if (s.flip())
        dumping<json, wchar_t>(s, c);
    else
        dumping<wjson, char>(s, c);
}
