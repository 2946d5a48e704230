// C23: a format built on the generic reader and writer gives and gets exactly the value.
#include "lib.hpp"

#include <cstdio>
#include <cstring>
#include <functional>
#include <locale>
#include <sstream>
#include <stdexcept>
using namespace lib;
using configor::token_type;

PROPERTY_INFO("C23", "a case is non-trivial if at least two tokens are read or written; cases are distinct by the sequence of tokens and by how it is read or written");

namespace
{
struct own_error : std::runtime_error
{
    explicit own_error(const char* m)
        : std::runtime_error(m)
    {
    }
};

// ---------------------------------------------------------------- a format: one letter per token, payloads end with a ';'
//   T F N [ ] { } : ,   the tokens;  E the end;  U a token that means nothing;  X throws an error of its own
//   I1;  an integer    D1;  a float by its bits    S...;  a string (% before ; and %)    IX DX SX  throw when the content is taken

template <class V, class C>
class token_parser : public configor::detail::basic_parser<V, C>
{
    using base = configor::detail::basic_parser<V, C>;

public:
    using option = std::function<void(token_parser&)>;

    static option with_error_handler(configor::error_handler* eh)
    {
        return [=](token_parser& p) { p.set_error_handler(eh); };
    }

    template <template <class> class E>
    static option with_encoding()
    {
        return [=](token_parser& p) { p.template set_source_encoding<E>(); p.template set_target_encoding<E>(); };
    }

    explicit token_parser(std::basic_istream<C>& is)
        : base(is)
    {
    }

    void prepare(std::initializer_list<option> os)
    {
        for (auto& o : os)
            o(*this);
    }

    virtual token_type scan() override
    {
        uint32_t c;
        if (!next(c))
            return token_type::end_of_input;
        switch (c)
        {
        case 'T': return token_type::literal_true;
        case 'F': return token_type::literal_false;
        case 'N': return token_type::literal_null;
        case 'I': return token_type::value_integer;
        case 'D': return token_type::value_float;
        case 'S': return token_type::value_string;
        case '[': return token_type::begin_array;
        case ']': return token_type::end_array;
        case '{': return token_type::begin_object;
        case '}': return token_type::end_object;
        case ':': return token_type::name_separator;
        case ',': return token_type::value_separator;
        case 'E': return token_type::end_of_input;
        case 'U': return token_type::uninitialized;
        case 'X': throw own_error("scan");
        default: throw own_error("content left where a token is expected");
        }
    }

    virtual void get_integer(typename V::integer_type& out) override
    {
        out = number();
    }

    virtual void get_float(typename V::float_type& out) override
    {
        const int64_t n = number();
        std::memcpy(&out, &n, sizeof n);
    }

    virtual void get_string(typename V::string_type& out) override
    {
        std::basic_ostringstream<typename V::char_type> os;
        uint32_t                                        c;
        for (bool first = true;; first = false)
        {
            take(c);
            if (c == 'X' && first)
                throw own_error("string");
            if (c == ';')
                break;
            if (c == '%')
                take(c);
            this->target_encoder_(os, c);
            if (!os.good())
                throw configor::configor_deserialization_error("encoding");
        }
        out = os.str();
    }

private:
    bool next(uint32_t& c)
    {
        if (!this->source_decoder_(this->is_, c))
            return false;
        if (!this->is_.good())
            throw configor::configor_deserialization_error("decoding");
        return true;
    }

    void take(uint32_t& c)
    {
        if (!next(c))
            throw configor::configor_deserialization_error("cut off");
    }

    int64_t number()
    {
        uint64_t n   = 0;
        bool     neg = false;
        uint32_t c;
        while (true)
        {
            take(c);
            if (c == 'X')
                throw own_error("number");
            if (c == ';')
                break;
            if (c == '-')
                neg = true;
            else
                n = n * 10 + (c - '0');
        }
        return static_cast<int64_t>(neg ? 0 - n : n);
    }
};

template <class V, class C>
class token_serializer : public configor::detail::basic_serializer<V, C>
{
    using base = configor::detail::basic_serializer<V, C>;

public:
    using option = std::function<void(token_serializer&)>;

    static option with_error_handler(configor::error_handler* eh)
    {
        return [=](token_serializer& p) { p.set_error_handler(eh); };
    }

    template <template <class> class E>
    static option with_encoding()
    {
        return [=](token_serializer& p) { p.template set_source_encoding<E>(); p.template set_target_encoding<E>(); };
    }

    // throws at the n-th token, or marks the output as failed
    static option marking_at(long n, std::ios_base::iostate bits)
    {
        return [=](token_serializer& p) {
            p.fail_at_ = n;
            p.bits_    = bits;
        };
    }

    explicit token_serializer(std::basic_ostream<C>& os)
        : base(os)
    {
    }

    void prepare(std::initializer_list<option> os)
    {
        for (auto& o : os)
            o(*this);
    }

    virtual void next(token_type t) override
    {
        if (fail_at_-- == 0)
        {
            if (bits_ == std::ios_base::goodbit)
                throw own_error("next");
            this->os_.setstate(bits_);
        }
        const char* p = "";
        switch (t)
        {
        case token_type::literal_true: p = "T"; break;
        case token_type::literal_false: p = "F"; break;
        case token_type::literal_null: p = "N"; break;
        case token_type::value_integer: p = "I"; break;
        case token_type::value_float: p = "D"; break;
        case token_type::value_string: p = "S"; break;
        case token_type::begin_array: p = "["; break;
        case token_type::end_array: p = "]"; break;
        case token_type::begin_object: p = "{"; break;
        case token_type::end_object: p = "}"; break;
        case token_type::name_separator: p = ":"; break;
        case token_type::value_separator: p = ","; break;
        case token_type::end_of_input: p = "E"; break;
        default: p = "U"; break;
        }
        this->os_ << p;
    }

    virtual void put_integer(typename V::integer_type i) override
    {
        this->os_ << i << ';';
    }

    virtual void put_float(typename V::float_type f) override
    {
        int64_t n;
        std::memcpy(&n, &f, sizeof n);
        this->os_ << n << ';';
    }

    virtual void put_string(const typename V::string_type& str) override
    {
        std::basic_istringstream<typename V::char_type> is(str);
        uint32_t                                        c;
        while (this->source_decoder_(is, c))
        {
            if (!is.good())
                throw configor::configor_serialization_error("decoding");
            if (c == ';' || c == '%' || c == 'X')
                this->os_ << '%';
            this->target_encoder_(this->os_, c);
        }
        this->os_ << ';';
    }

private:
    long                   fail_at_ = -1;
    std::ios_base::iostate bits_    = std::ios_base::goodbit;
};

template <class Args, template <class> class Enc = configor::encoding::auto_utf>
class basic_token final
    : public configor::detail::serializable<Args, token_serializer, Enc>
    , public configor::detail::parsable<Args, token_parser, Enc>
    , public configor::detail::value_maker<configor::basic_value<Args>>
    , public configor::detail::iostream_wrapper_maker<basic_token<Args, Enc>, configor::basic_value<Args>>
{
public:
    using value = configor::basic_value<Args>;
};

using tok  = basic_token<configor::value_tplargs>;
using wtok = basic_token<configor::wvalue_tplargs>;

// ---------------------------------------------------------------- the reference: the tokens of a model, and a model of tokens

struct Tok
{
    char    t = 'N';
    int64_t n = 0;
    U       s;
    bool    fails = false;
};

Tok tk(char t)
{
    Tok r;
    r.t = t;
    return r;
}

int64_t bits(double d)
{
    int64_t n;
    std::memcpy(&n, &d, sizeof n);
    return n;
}

void tokens(const M& m, std::vector<Tok>& o)
{
    switch (m.k)
    {
    case M::Null: o.push_back(tk('N')); break;
    case M::Bool: o.push_back(tk(m.b ? 'T' : 'F')); break;
    case M::Int: o.push_back(tk('I')); o.back().n = m.i; break;
    case M::Flt: o.push_back(tk('D')); o.back().n = bits(m.f); break;
    case M::Str: o.push_back(tk('S')); o.back().s = m.s; break;
    case M::Arr:
    {
        o.push_back(tk('['));
        bool first = true;
        for (auto& e : m.a)
        {
            if (!first)
                o.push_back(tk(','));
            first = false;
            tokens(e, o);
        }
        o.push_back(tk(']'));
        break;
    }
    case M::Obj:
    {
        o.push_back(tk('{'));
        bool first = true;
        for (auto& e : m.o)
        {
            if (!first)
                o.push_back(tk(','));
            first = false;
            o.push_back(tk('S'));
            o.back().s = e.first;
            o.push_back(tk(':'));
            tokens(e.second, o);
        }
        o.push_back(tk('}'));
        break;
    }
    }
}

U spell(const std::vector<Tok>& v)
{
    U o;
    for (auto& t : v)
    {
        o += static_cast<char32_t>(t.t);
        if (t.t == 'I' || t.t == 'D')
            o += t.fails ? ascii("X") : ascii(std::to_string(t.n) + ";");
        if (t.t == 'S')
        {
            if (t.fails)
                o += U"X";
            else
            {
                for (char32_t c : t.s)
                {
                    if (c == ';' || c == '%' || c == 'X')
                        o += U'%';
                    o += c;
                }
                o += U';';
            }
        }
    }
    return o;
}

enum Outcome
{
    Value,
    Rejected,
    Own
};

struct Reference
{
    const std::vector<Tok>& v;
    size_t                  at        = 0;
    bool                    duplicate = false;

    explicit Reference(const std::vector<Tok>& tokens)
        : v(tokens)
    {
    }

    struct reject
    {
    };
    struct own
    {
    };

    char scan()
    {
        if (at == v.size())
            return 'E';
        const char t = v[at++].t;
        if (t == 'X')
            throw own();
        return t;
    }

    const Tok& content()
    {
        if (v[at - 1].fails)
            throw own();
        return v[at - 1];
    }

    M value(char t)
    {
        switch (t)
        {
        case 'T': return M::boolean(true);
        case 'F': return M::boolean(false);
        case 'N': return M::null();
        case 'I': return M::integer(content().n);
        case 'D':
        {
            double  d;
            int64_t n = content().n;
            std::memcpy(&d, &n, sizeof d);
            return M::flt(d);
        }
        case 'S': return M::str(content().s);
        case '[':
        {
            M m = M::arr();
            while (true)
            {
                t = scan();
                if (t == ']')
                    return m;
                m.a.push_back(value(t));
                t = scan();
                if (t == ']')
                    return m;
                if (t != ',')
                    throw reject();
            }
        }
        case '{':
        {
            M m = M::obj();
            while (true)
            {
                t = scan();
                if (t == '}')
                    return m;
                if (t != 'S')
                    throw reject();
                const U k = content().s;
                if (scan() != ':')
                    throw reject();
                M x = value(scan());
                if (!m.o.insert({ k, x }).second)
                    duplicate = true;
                t = scan();
                if (t == '}')
                    return m;
                if (t != ',')
                    throw reject();
            }
        }
        default: throw reject();
        }
    }

    Outcome run(M& out)
    {
        try
        {
            out = value(scan());
            if (scan() != 'E')
                throw reject();
            return Value;
        }
        catch (const reject&)
        {
            return Rejected;
        }
        catch (const own&)
        {
            return Own;
        }
    }
};

struct counting_handler : configor::error_handler
{
    int                calls = 0;
    std::exception_ptr error;

    virtual void handle(std::exception_ptr e) override
    {
        ++calls;
        error = e;
    }
};

Outcome kind_of(std::exception_ptr e, bool writing)
{
    try
    {
        std::rethrow_exception(e);
    }
    catch (const own_error& x)
    {
        if (std::string(x.what()).find("left") != std::string::npos)
            fail("the content of a token was not taken before the next token");
        return Own;
    }
    catch (const configor::configor_deserialization_error&)
    {
        if (!writing)
            return Rejected;
        fail("a deserialization error while writing");
    }
    catch (const configor::configor_serialization_error&)
    {
        if (writing)
            return Rejected;
        fail("a serialization error while reading");
    }
    catch (...)
    {
        fail("an error of another type");
    }
    return Rejected;
}

const char* const OUT[] = { "a value", "an error of the library", "an error of the format" };

// floats by their bits, NaN and infinities too
std::string exactly(const M& want, const M& got)
{
    std::vector<Tok> a, b;
    tokens(want, a);
    tokens(got, b);
    return spell(a) == spell(b) ? "" : "expected " + show(want) + " got " + show(got);
}

// a FILE is read as characters of char and wchar_t only
template <class F>
void from_file(typename F::value& target, const std::string& t, int)
{
    struct File
    {
        std::FILE* f;
        ~File()
        {
            std::fclose(f);
        }
    } file{ std::tmpfile() };
    std::fwrite(t.data(), 1, t.size(), file.f);
    std::rewind(file.f);
    F::template parse<char>(target, file.f);
}

template <class F, class T>
void from_file(typename F::value& target, const T& t, long)
{
    F::template parse<typename T::value_type>(target, t);
}

template <class F, class C>
void read_text(Src& s, const std::vector<Tok>& v, const U& u, Outcome want, const M& m, bool either)
{
    using V                      = typename F::value;
    const std::basic_string<C> t = chars<C>::enc(u);
    const unsigned             h = static_cast<unsigned>(s.draw(4)), how = static_cast<unsigned>(s.draw(6));
    const bool                 object = how == 3 && s.flip();
    V                          target = s.flip() ? V(std::vector<int>{ 1, 2 }) : V(true);
    counting_handler           handler;
    configor::error_handler_with<configor::error_policy::ignore> ignore;
    configor::error_handler_with<configor::error_policy::strict> strict;
    using P = token_parser<V, C>;
    std::exception_ptr                            error;
    configor::error_handler*                      eh   = h == 0 ? nullptr : h == 1 ? static_cast<configor::error_handler*>(&handler) : h == 2 ? static_cast<configor::error_handler*>(&ignore) : &strict;
    const bool                                    nul  = t.find(C()) != t.npos;
    bool                                          plain = false;
    try
    {
        switch (how)
        {
        case 0:
            F::template parse<C>(target, t, { P::with_error_handler(eh) });
            break;
        case 1:
        {
            std::basic_stringbuf<C> b(t);
            std::basic_istream<C>   is(&b);
            F::template parse<C>(target, is, { P::with_error_handler(eh), P::template with_encoding<configor::encoding::auto_utf>() });
            break;
        }
        case 2:
            if (!nul)
            {
                F::template parse<C>(target, t.c_str(), { P::with_error_handler(eh) });
                break;
            }
            // fallthrough
        case 3:
        {
            plain = true;
            std::basic_stringbuf<C> b(t);
            std::basic_istream<C>   is(&b);
            if (std::is_same<C, char>::value || std::is_same<C, wchar_t>::value)
            {
                is.flags(std::ios_base::hex | std::ios_base::skipws);
                extract_wrapped<F>(is, target, object);
                if (t.empty() && !is)
                    throw configor::configor_deserialization_error("nothing to extract");
            }
            else
                target = F::template parse<C>(is);
            break;
        }
        case 4:
            plain  = true;
            target = F::template parse<C>(t);
            break;
        default:
        {
            plain = true;
            from_file<F>(target, t, 0);
            break;
        }
        }
    }
    catch (...)
    {
        error = std::current_exception();
    }
    const bool      handled = !plain && (h == 1 || h == 2);
    if (handled && error)
        fail("a handler is set, but the error is thrown");
    if (!plain && h == 1)
    {
        if (handler.calls != (want == Value ? 0 : 1))
            fail(fmt("the handler was called %d times, where the outcome is %s", handler.calls, OUT[want]));
        error = handler.error;
    }
    if (plain || h != 2)
    {
        const Outcome got = error ? kind_of(error, false) : Value;
        if (got != want && !(either && got == Own && want == Rejected))
            fail(std::string("the tokens denote ") + OUT[want] + ", but reading them gives " + OUT[got]);
    }
    if (want == Value)
    {
        const std::string d = exactly(m, extract(target));
        if (!d.empty())
            fail("the value read differs: " + d);
    }
    // the target is a value, whatever happened
    V copy(target);
    if (!(extract(target).k == extract(copy).k))
        fail("the target is not usable");
    target = V(5);
    if (target.template get<int>() != 5)
        fail("the target cannot be reused");
    (void)v;
}

template <class C>
struct grouping : std::numpunct<C>
{
    virtual C do_thousands_sep() const override
    {
        return C('\'');
    }
    virtual std::string do_grouping() const override
    {
        return "\1";
    }
};

template <class F, class C>
void write_text(Src& s, const M& m, const U& want_u, size_t ntok)
{
    using V                      = typename F::value;
    using S                      = token_serializer<V, C>;
    const std::basic_string<C> w = chars<C>::enc(want_u);
    const V                    v = build<V>(m);
    const unsigned             h = static_cast<unsigned>(s.draw(4)), how = static_cast<unsigned>(s.draw(5));
    const int                  way = how == 2 ? static_cast<int>(s.draw(4)) : 0;
    counting_handler           handler;
    configor::error_handler_with<configor::error_policy::ignore> ignore;
    configor::error_handler_with<configor::error_policy::strict> strict;
    configor::error_handler*   eh = h == 0 ? nullptr : h == 1 ? static_cast<configor::error_handler*>(&handler) : h == 2 ? static_cast<configor::error_handler*>(&ignore) : &strict;
    const bool                 fails = s.chance(1, 3);
    const long                 at    = fails ? static_cast<long>(s.draw(ntok)) : -1;
    const std::ios_base::iostate bits = s.chance(1, 3) ? s.flip() ? std::ios_base::failbit : std::ios_base::badbit : std::ios_base::goodbit;
    std::basic_string<C>       got;
    std::exception_ptr         error;
    bool                       plain = false;
    try
    {
        switch (how)
        {
        case 0:
            F::template dump<C>(got, v, { S::with_error_handler(eh), S::marking_at(at, bits) });
            break;
        case 1:
        {
            std::basic_ostringstream<C> os;
            os << std::hex << std::showpos << std::uppercase;
            os.imbue(std::locale(std::locale::classic(), new grouping<C>));
            os.fill(C('#'));
            struct Keep
            {
                std::basic_ostringstream<C>& os;
                std::basic_string<C>&        o;
                ~Keep()
                {
                    o = os.str();
                }
            } keep{ os, got };
            F::template dump<C>(os, v, { S::marking_at(at, bits), S::with_error_handler(eh), S::template with_encoding<configor::encoding::auto_utf>() });
            break;
        }
        case 2:
        {
            plain = true;
            std::basic_ostringstream<C> os;
            insert_wrapped<F>(static_cast<std::basic_ostream<C>&>(os), v, way);
            got = os.str();
            break;
        }
        case 3:
            plain = true;
            got   = F::template dump<C>(v);
            break;
        default:
            plain = true;
            F::template dump<C>(got, v);
        }
    }
    catch (...)
    {
        error = std::current_exception();
    }
    const bool failing = fails && !plain;
    if (!failing)
    {
        if (error || handler.calls)
            fail("writing fails");
        if (got != w)
            fail("the tokens written are " + printable(got) + "\n  expected " + printable(w));
    }
    else
    {
        if (h == 1)
        {
            if (handler.calls != 1)
                fail(fmt("the handler was called %d times for a failing token", handler.calls));
            if (error)
                fail("a handler is set, but the error is thrown");
            error = handler.error;
        }
        if (h == 2 ? static_cast<bool>(error) : !error || kind_of(error, true) != (bits == std::ios_base::goodbit ? Own : Rejected))
            fail("the error of a token is not the one reported");
        if (got.size() >= w.size() || w.compare(0, got.size(), got) != 0)
            fail("what was written before a failing token is " + printable(got) + "\n  which does not start " + printable(w));
    }
    if (!exactly(m, extract(v)).empty())
        fail("writing changed the value");
}

M gen(Src& s)
{
    TreeOpts o;
    return s.chance(1, 100) ? gen_long(s, 2100) : gen_tree(s, o);
}

template <class F>
void reading_prop(Src& s, Ctx& c)
{
    std::vector<Tok> v;
    tokens(gen(s), v);
    // disturb
    unsigned n = s.chance(1, 3) ? 0 : 1 + static_cast<unsigned>(s.draw(3));
    for (; n; --n)
    {
        static const char all[] = "TFNIDS[]{}:,,EUX";
        const size_t      i     = static_cast<size_t>(s.draw(v.size() + 1));
        switch (s.draw(6))
        {
        case 0:
            if (i < v.size())
                v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
            break;
        case 1: v.insert(v.begin() + static_cast<std::ptrdiff_t>(i), tk(all[s.draw(16)])); break;
        case 2:
            if (i < v.size())
                v[i] = tk(all[s.draw(16)]);
            break;
        case 3:
            if (i + 1 < v.size())
                std::swap(v[i], v[i + 1]);
            break;
        case 4: v.resize(i); break;
        default:
            if (i < v.size())
                v[i].fails = v[i].t == 'I' || v[i].t == 'D' || v[i].t == 'S';
            break;
        }
    }
    Reference     r(v);
    M             m;
    const Outcome want = r.run(m);
    if (r.duplicate)
        throw eng::Discard();
    const U u = spell(v);
    c.note(show(u));
    c.label(OUT[want]);
    bool either = false;
    for (size_t i = r.at; i < v.size(); ++i)
        either = either || v[i].t == 'X' || v[i].fails;
    if (r.at && r.at <= v.size())
        either = either || v[r.at - 1].fails;
    unsigned width = static_cast<unsigned>(s.draw(4));
    if (width == 2)
        for (char32_t x : u)
            if (x == 0xFFFF)
                width = 0;
    const uint64_t key = eng::hash_str(utf8(u)) * 4 + width;
    switch (width)
    {
    case 0: read_text<F, char>(s, v, u, want, m, either); break;
    case 1: read_text<F, wchar_t>(s, v, u, want, m, either); break;
    case 2: read_text<F, char16_t>(s, v, u, want, m, either); break;
    default: read_text<F, char32_t>(s, v, u, want, m, either); break;
    }
    c.inner(5);
    if (v.size() > 1)
        c.nontrivial(key);
}

template <class F>
void writing_prop(Src& s, Ctx& c)
{
    const M          m = gen(s);
    std::vector<Tok> v;
    tokens(m, v);
    v.push_back(tk('E'));
    const U u = spell(v);
    c.note(show(m));
    const bool wide_text = s.flip();
    if (wide_text)
        write_text<F, wchar_t>(s, m, u, v.size());
    else
        write_text<F, char>(s, m, u, v.size());
    // and back
    using V = typename F::value;
    const V x = F::template parse<char>(F::template dump<char>(build<V>(m)));
    if (!exactly(m, extract(x)).empty())
        fail("reading what was written gives " + show(extract(x)));
    c.inner(4);
    if (v.size() > 2)
        c.nontrivial(eng::hash_str(utf8(u)) * 2 + wide_text);
}

// ---------------------------------------------------------------- a format derived of the library's own

template <class V, class C>
class odd_parser : public configor::detail::json_parser<V, C>
{
    using base = configor::detail::json_parser<V, C>;

public:
    using base::base;

    virtual void get_integer(typename V::integer_type& out) override
    {
        base::get_integer(out);
        out ^= 1;
    }
    virtual void get_float(typename V::float_type& out) override
    {
        base::get_float(out);
        out = -out;
    }
    virtual void get_string(typename V::string_type& out) override
    {
        base::get_string(out);
        out += typename V::char_type('!');
    }
};

template <class V, class C>
class odd_serializer : public configor::detail::json_serializer<V, C>
{
    using base = configor::detail::json_serializer<V, C>;

public:
    using base::base;

    virtual void put_integer(typename V::integer_type i) override
    {
        base::put_integer(i ^ 1);
    }
    virtual void put_float(typename V::float_type f) override
    {
        base::put_float(-f);
    }
    virtual void put_string(const typename V::string_type& str) override
    {
        base::put_string(str + typename V::char_type('?'));
    }
};

template <class Args>
class basic_odd final
    : public configor::detail::serializable<Args, odd_serializer, configor::encoding::auto_utf>
    , public configor::detail::parsable<Args, odd_parser, configor::encoding::auto_utf>
    , public configor::detail::iostream_wrapper_maker<basic_odd<Args>, configor::basic_value<Args>>
{
public:
    using value = configor::basic_value<Args>;
};

M mapped(const M& m, char32_t mark)
{
    M r = m;
    switch (m.k)
    {
    case M::Int: r.i ^= 1; break;
    case M::Flt: r.f = -r.f; break;
    case M::Str: r.s += mark; break;
    case M::Arr:
        for (auto& e : r.a)
            e = mapped(e, mark);
        break;
    case M::Obj:
        r.o.clear();
        for (auto& e : m.o)
            r.o[e.first + mark] = mapped(e.second, mark);
        break;
    default: break;
    }
    return r;
}

template <class J, class O, class C>
void derived_prop(Src& s, Ctx& c)
{
    using V = typename J::value;
    M m     = s.chance(1, 100) ? gen_long(s, 2100) : gen_tree(s);
    if (has_kind(m, M::Flt))
    {
        // the shortest text that is exact is not guaranteed
        struct Round
        {
            static void go(M& x)
            {
                if (x.k == M::Flt)
                    x.f = static_cast<double>(static_cast<int64_t>(bits(x.f) % 4000)) / 4;
                for (auto& e : x.a)
                    go(e);
                for (auto& e : x.o)
                    go(e.second);
            }
        };
        Round::go(m);
    }
    const V                v = build<V>(m);
    const uint8_t in   = static_cast<uint8_t>(s.draw(4));
    const bool    esc  = s.flip();
    using S            = configor::detail::json_serializer<V, C>;
    // what the library's own format writes for the mapped value
    const auto want = J::template dump<C>(build<V>(mapped(m, U'?')), { S::with_indent(in), S::with_unicode_escaping(esc) });
    const auto got  = O::template dump<C>(v, { S::with_indent(in), S::with_unicode_escaping(esc) });
    c.note(printable(got));
    // the members keep the order of their own names
    if (got.size() != want.size() || !exactly(extract(J::template parse<C>(want)), extract(J::template parse<C>(got))).empty())
        fail("the derived format writes " + printable(got) + "\n  expected " + printable(want));
    const auto text = J::template dump<C>(v, { S::with_indent(in), S::with_unicode_escaping(esc) });
    const V    back = O::template parse<C>(text);
    const M    wm   = mapped(m, U'!');
    if (!diff(wm, extract(back), Tol(1e-9)).empty())
        fail("the derived format reads " + show(extract(back)) + "\n  expected " + show(wm));
    V                           w;
    std::basic_istringstream<C> is(text);
    auto                        wr = O::wrap(w);
    is >> wr;
    if (!diff(wm, extract(w), Tol(1e-9)).empty())
        fail("the derived format extracts " + show(extract(w)) + "\n  expected " + show(wm));
    c.inner(3);
    if (nodes(m) > 1)
        c.nontrivial(hash(m) * 8 + in * 2 + esc);
}
}  // namespace

PROP(tokens_read, 40000, 500000)
{
    if (s.chance(2, 3))
        reading_prop<tok>(s, c);
    else
        reading_prop<wtok>(s, c);
}

PROP(tokens_written, 25000, 300000)
{
    if (s.chance(2, 3))
        writing_prop<tok>(s, c);
    else
        writing_prop<wtok>(s, c);
}

PROP(derived, 12000, 150000)
{
    if (s.chance(1, 2))
        derived_prop<json, basic_odd<configor::value_tplargs>, char>(s, c);
    else
        derived_prop<wjson, basic_odd<configor::wvalue_tplargs>, wchar_t>(s, c);
}
