// Long documents: runs of everything that can repeat, up to sizes that ordinary generators never reach.
#pragma once
#include "inputs.hpp"

namespace md
{

class LongDoc
{
public:
    LongDoc(Src& s, size_t budget, bool comments)
        : s_(s), budget_(budget), comments_(comments)
    {
    }

    // a document as UTF-8, well-formed
    std::string doc()
    {
        out_.clear();
        left_ = budget_;
        gap();
        value(3, true);
        gap();
        return out_;
    }

private:
    size_t run()
    {
        static const unsigned ns[] = { 5, 9, 15, 17, 20, 25, 31, 33, 40, 50, 63, 65, 80, 100, 127, 129, 200, 255, 257, 400, 511, 513, 700, 1000, 1023, 1025, 2047, 2049, 3000, 4095, 4097, 5000, 8193, 10000, 16385, 33000, 66000 };
        size_t                n    = s_.pick(ns);
        return std::max<size_t>(1, std::min(n, left_));
    }

    void add(const std::string& t)
    {
        out_ += t;
        left_ -= std::min(left_, t.size());
    }

    void gap()
    {
        if (!s_.chance(1, 12))
            return;
        static const char* const sp[] = { " ", "\n", "\t", "\r", " \n", "\r\n" };
        static const char* const bd[] = { "x", "*", "/", "\"", " ", "\xC3\xA9", "\xF0\x9F\x98\x80", "\\", "[", "}", "* ", "/ *", "\xE2\x80\xA8", "//" };
        std::string              t;
        switch (s_.draw(comments_ ? 4 : 1))
        {
        case 0: t = repeat(s_.pick(sp), run()); break;
        case 1: t = "/*" + body(repeat(s_.pick(bd), run())) + "*/"; break;
        case 2: t = "//" + repeat(s_.pick(bd), run()) + (s_.flip() ? "\n" : "\r"); break;
        default:
        {
            static const char* const cs[] = { "/**/", "//\n", "/***/ ", "//*/\r", "/*/*/", "/* x */\n" };
            t                             = repeat(s_.pick(cs), run() / 4 + 1);
        }
        }
        add(t);
    }

    static std::string body(std::string t)
    {
        for (size_t p; (p = t.find("*/")) != t.npos;)
            t[p + 1] = '.';
        return t;
    }

    std::string repeat(const std::string& u, size_t n)
    {
        std::string r;
        for (size_t i = 0; i < n && r.size() < left_; ++i)
            r += u;
        return r.empty() ? u : r;
    }

    void text(size_t n)
    {
        static const char* const units[] = { "a", "\\n", "\\u0041", "\\\"", "\\\\", "\\/", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\\uD83D\\uDE00", "\\u00e9", "\\uFFFD", "/", "\x7F", " ", "{", "\\t", "\\b\\f" };
        std::string              a = s_.pick(units), b = s_.pick(units), t = "\"";
        const size_t             odd = static_cast<size_t>(s_.draw(n + 1));
        for (size_t i = 0; i < n && t.size() < left_ + 2; ++i)
            t += i == odd ? b : a;
        add(t + "\"");
    }

    void digits(size_t n, bool first)
    {
        std::string t;
        const char  d = static_cast<char>('0' + s_.draw(10));
        for (size_t i = 0; i < n; ++i)
            t += first && i == 0 && d == '0' && n > 1 ? '1' : d;
        add(t);
    }

    void scalar(bool big)
    {
        switch (s_.draw(big ? 7 : 5))
        {
        case 0: add("null"); break;
        case 1: add(s_.flip() ? "true" : "false"); break;
        case 2: add(std::to_string(gen_int(s_))); break;
        case 3: add(s_.flip() ? "1.5" : "-2.25e1"); break;
        case 4: text(static_cast<size_t>(s_.draw(4))); break;
        case 5: text(run()); break;
        default:
        {
            if (s_.flip())
                add("-");
            digits(s_.flip() ? std::min<size_t>(run(), 280) : 1, true);
            if (s_.flip())
            {
                add(".");
                digits(std::min<size_t>(run(), 280), false);
            }
            if (s_.chance(1, 3) && out_.size() > 1 && !(out_.back() == '0' && !(out_[out_.size() - 2] >= '0' && out_[out_.size() - 2] <= '9')))
            {
                add(s_.flip() ? "e" : "E");
                add(s_.flip() ? "+" : "-");
                add(std::string(static_cast<size_t>(s_.flip() ? 0 : s_.draw(60)), '0') + std::to_string(s_.draw(20)));
            }
        }
        }
    }

    // few different elements, many times
    void value(unsigned depth, bool big)
    {
        if (depth == 0 || left_ == 0 || s_.chance(1, 6))
        {
            scalar(big);
            return;
        }
        const unsigned what = static_cast<unsigned>(s_.draw(5));
        if (what == 2)
        {
            // nested
            const size_t   n = std::min<size_t>(run(), 440);
            const unsigned p = static_cast<unsigned>(s_.draw(4));
            std::string    close;
            for (size_t i = 0; i < n; ++i)
            {
                const bool arr = p == 0 || (p > 1 && i % p);
                add(arr ? "[" : "{\"k\":");
                if (i % 50 == 7)
                    gap();
                close += arr ? ']' : '}';
            }
            value(0, false);
            add(std::string(close.rbegin(), close.rend()));
            return;
        }
        const bool   arr = what < 2 || what == 3;
        const size_t n   = big ? run() : 1 + static_cast<size_t>(s_.draw(4));
        std::string  e[3];
        for (auto& x : e)
        {
            // elements are small against the budget: they are repeated
            std::string  keep;
            const size_t left = left_;
            left_             = left_ / 8;
            std::swap(keep, out_);
            value(depth - 1, s_.chance(1, 3));
            std::swap(x, out_);
            std::swap(keep, out_);
            left_ = left;
        }
        const std::string prefix = s_.flip() ? "" : s_.flip() ? "key" : std::string(40, 'k');
        add(arr ? "[" : "{");
        for (size_t i = 0; i < n; ++i)
        {
            if (i)
                add(",");
            if (i % 97 == 3)
                gap();
            if (!arr)
                add("\"" + prefix + std::to_string(i * 7) + "\":");
            add(e[i % 3]);
            if (left_ == 0)
                break;
        }
        add(arr ? "]" : "}");
    }

    Src&        s_;
    size_t      budget_, left_ = 0;
    bool        comments_;
    std::string out_;
};

// one small disturbance of a long document, mostly of its structure
inline void disturb(Src& s, std::string& t)
{
    static const char marks[] = "[]{}:,\"\\/*eE.-";
    size_t            at      = static_cast<size_t>(s.draw(t.size() + 1));
    switch (s.draw(4))
    {
    case 0: at = t.size() - static_cast<size_t>(s.draw(std::min<size_t>(t.size() + 1, 40))); break;  // near the end
    case 1:
    case 2:
    {
        // at a mark
        const size_t p = t.find_first_of(marks, at);
        if (p != t.npos)
            at = p;
        break;
    }
    default: break;
    }
    static const std::vector<std::string> in = { "]", "}", "[", "{", ",", ":", "\"", "\\", "/", "/*", "*/", "//", "1", "x", "\x01", "\n", "e", ".", "-", "\\u", "\xFF", "\xC0\x80", "\xED\xA0\x80", "null", "\\uD800" };
    switch (s.draw(6))
    {
    case 0: t.resize(at); break;
    case 1: t.insert(at, s.pick(in)); break;
    case 2:
        if (at < t.size())
            t.erase(at, 1);
        break;
    case 3:
        if (at < t.size())
            t.replace(at, 1, s.pick(in));
        break;
    case 4:
        if (at < t.size())
        {
            const char* const from = "[]{},:";
            const char* const to   = "{}[]:,";
            const char* const p    = std::strchr(from, t[at]);
            t[at]                  = p && *p ? to[p - from] : '}';
        }
        break;
    default: t += s.pick(in); break;
    }
}

}  // namespace md
