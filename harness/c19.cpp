// C19: the guarantees hold for custom value types.
#include "c19.hpp"

PROPERTY_INFO("C19", "a case is non-trivial if it has a container, a number of more than one digit or at least three operations; cases are distinct by "
                     "instantiation and content");

PROP(containers, 30000, 600000)
{
    c19::containers(s, c);
}
PROP(numbers, 40000, 800000)
{
    c19::numbers(s, c);
}
PROP(characters, 20000, 400000)
{
    c19::characters(s, c);
}
PROP(allocators, 16000, 320000)
{
    c19::allocators(s, c);
}
PROP(floats, 10000, 200000)
{
    c19::floats(s, c);
}
PROP(binders, 12000, 240000)
{
    c19::binders(s, c);
}
