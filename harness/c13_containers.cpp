// C13: containers of the standard library and their nestings, narrow values
#define ENGINE_NO_MAIN
#include "c13.hpp"
using namespace c13;
using N = json::value;

PROP(sequences, 40000, 400000)
{
    static const Case<N> cases[] = {
        TYPE(N, std::vector<int>),
        TYPE(N, std::vector<bool>),
        TYPE(N, std::vector<std::string>),
        TYPE(N, std::vector<N>),
        TYPE(N, std::vector<double>),
        TYPE(N, std::deque<int>),
        TYPE(N, std::deque<std::string>),
        TYPE(N, std::list<int>),
        TYPE(N, std::list<std::string>),
        TYPE(N, std::list<float>),
        TYPE(N, std::forward_list<int>),
        TYPE(N, std::forward_list<std::string>),
        TYPE(N, std::array<int, 3>),
        TYPE(N, std::array<std::string, 2>),
        TYPE(N, std::array<bool, 1>),
        TYPE(N, std::array<int64_t, 40>),
        TYPE(N, std::array<int, 270>),
        TYPE(N, std::set<int>),
        TYPE(N, std::set<std::string>),
        TYPE(N, std::unordered_set<int>),
        TYPE(N, std::unordered_set<std::string>),
    };
    auto& k = cases[s.draw(sizeof cases / sizeof *cases)];
    k.fn(s, c, k.name, false);
}
