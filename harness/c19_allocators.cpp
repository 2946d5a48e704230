// C19: other allocators
#define ENGINE_NO_MAIN
#ifdef OMITTED
#include "engine.hpp"
namespace c19
{
void allocators(eng::Src&, eng::Ctx&)
{
    throw eng::Discard();
}
}  // namespace c19
#else
#include "c19.hpp"

namespace c19
{
namespace
{
// the JSON reader writes into ordinary strings, so these keep their allocator
struct Alloc : configor::value_tplargs
{
    template <class C, class... A>
    using string_type = std::basic_string<C>;
    template <class T>
    using allocator_type = Counting<T>;
};
struct WAlloc : Alloc
{
    using char_type = wchar_t;
};
// without text, strings too
struct Whole : configor::value_tplargs
{
    template <class T>
    using allocator_type = Counting<T>;
};
struct WholeJ
{
    using value  = configor::basic_value<Whole>;
    using array  = configor::detail::value_maker<value>::array;
    using object = configor::detail::value_maker<value>::object;
};
}  // namespace

void allocators(Src& s, Ctx& c)
{
    ledger()           = Ledger();
    const long before  = eng::alloc().live;
    (void)before;
#ifdef REDUCED
    suite<configor::basic_json<Alloc>, char>(s, c, "counting allocator", Sorted, true);
#else
    switch (s.draw(3))
    {
    case 0:
        suite<configor::basic_json<Alloc>, char>(s, c, "counting allocator", Sorted, true);
        break;
    case 1:
        suite<configor::basic_json<WAlloc>, wchar_t>(s, c, "wide counting allocator", Sorted, true);
        break;
    default:
        if (s.flip())
            values<WholeJ>(s, c, "counting allocator, strings too", Sorted);
        else
            history<WholeJ>(s, c, "counting allocator, strings too", Sorted);
    }
#endif
    if (ledger().bad)
        fail("a block was returned to the allocator that it did not hand out like this");
    if (ledger().blocks != 0)
        fail(fmt("%ld blocks of the allocator are still allocated after all values are destroyed", ledger().blocks));
}
}  // namespace c19
#endif
