// C19: other object and array containers, another binder
#define ENGINE_NO_MAIN
#ifdef OMITTED
#include "engine.hpp"
namespace c19
{
void containers(eng::Src&, eng::Ctx&)
{
    throw eng::Discard();
}
}  // namespace c19
#else
#include "c19.hpp"

namespace c19
{
namespace
{
template <class Base = configor::value_tplargs>
struct Fifo : Base
{
    template <class K, class T, class... A>
    using object_type = FifoMap<K, T>;
};
template <class Base = configor::value_tplargs>
struct Hashed : Base
{
    template <class K, class T, class... A>
    using object_type = std::unordered_map<K, T>;
};
template <class Base = configor::value_tplargs>
struct Dequed : Base
{
    template <class T, class... A>
    using array_type = Deque<T>;
};
template <class T>
using J = configor::basic_json<T>;
}  // namespace

void containers(Src& s, Ctx& c)
{
#ifdef REDUCED
    return suite<J<Hashed<>>, char>(s, c, "hashed", Some, false);
#else
    switch (s.draw(5))
    {
    case 0:
        return suite<J<Fifo<>>, char>(s, c, "insertion-ordered", Added, false);
    case 1:
        return suite<J<Hashed<>>, char>(s, c, "hashed", Some, false);
    case 2:
        return suite<J<Dequed<>>, char>(s, c, "deque", Sorted, true);
    case 3:
        return suite<J<Fifo<Dequed<configor::wvalue_tplargs>>>, wchar_t>(s, c, "wide insertion-ordered deque", Added, false);
    default:
        return suite<J<Fifo<>>, wchar_t>(s, c, "insertion-ordered with wide text", Added, false);
    }
#endif
}
}  // namespace c19
#endif
