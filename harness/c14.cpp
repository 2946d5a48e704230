// C14: bound structs are stored and restored field by field.
#include "c14.hpp"
#include <tuple>
using namespace c14;

PROPERTY_INFO("C14", "a case is non-trivial if at least one field differs from its default; cases are distinct by the number of fields and the content "
                     "that is written");

namespace
{
// only optional fields, only required fields, structs within structs
struct AllOptional
{
    int                a{};
    std::string        b{};
    Inner              in{};
    std::vector<Inner> list{};
    template <class F>
    void each(F& f)
    {
        f(a, "a", false);
        f(b, "b", false);
        f(in, "in", false);
        f(list, "the list", false);
    }
    bool operator==(const AllOptional& o) const
    {
        return !(*this != o);
    }
    bool operator!=(const AllOptional& o) const
    {
        return a != o.a || b != o.b || in != o.in || list != o.list;
    }
    bool operator<(const AllOptional& o) const
    {
        return std::tie(a, b, in, list) < std::tie(o.a, o.b, o.in, o.list);
    }
    bool operator>(const AllOptional& o) const
    {
        return o < *this;
    }
    bool operator<=(const AllOptional& o) const
    {
        return !(o < *this);
    }
    bool operator>=(const AllOptional& o) const
    {
        return !(*this < o);
    }
    CONFIGOR_BIND(json::value, AllOptional, OPTIONAL(a), OPTIONAL(b), OPTIONAL(in), OPTIONAL(list, "the list"))
};
}  // namespace
namespace c13
{
template <>
struct Kind<json::value, AllOptional> : BoundKind<json::value, AllOptional>
{
};
}  // namespace c13
namespace
{
struct Deep
{
    AllOptional                        o{};
    std::map<std::string, AllOptional> m{};
    std::shared_ptr<AllOptional>       p{};
    std::vector<std::vector<Inner>>    v{};
    double                             d{};
    unsigned                           u{};
    template <class F>
    void each(F& f)
    {
        f(o, "o", true);
        f(m, "m", true);
        f(p, "p", false);
        f(v, "v", false);
        f(d, "d", false);
        f(u, "u", true);
    }
    CONFIGOR_BIND(json::value, Deep, REQUIRED(o), REQUIRED(m), OPTIONAL(p), OPTIONAL(v), OPTIONAL(d), REQUIRED(u))
};
}  // namespace

PROP(small, 4000, 60000)
{
    s.flip() ? bound<json::value, Inner>(s, c) : bound<wjson::value, WInner>(s, c);
}
PROP(deep, 5000, 80000)
{
    s.flip() ? bound<json::value, AllOptional>(s, c) : bound<json::value, Deep>(s, c);
}
