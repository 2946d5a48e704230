// C13: maps, smart pointers and nested containers, narrow values
#define ENGINE_NO_MAIN
#include "c13.hpp"
using namespace c13;
using N = json::value;

PROP(nested, 40000, 400000)
{
    static const Case<N> cases[] = {
        TYPE(N, std::map<std::string, int>),
        TYPE(N, std::map<std::string, std::string>),
        TYPE(N, std::map<std::string, N>),
        TYPE(N, std::unordered_map<std::string, int>),
        TYPE(N, std::unordered_map<std::string, double>),
        TYPE(N, std::unique_ptr<int>),
        TYPE(N, std::unique_ptr<std::string>),
        TYPE(N, std::shared_ptr<double>),
        TYPE(N, std::shared_ptr<std::vector<int>>),
        TYPE(N, std::vector<std::vector<int>>),
        TYPE(N, std::vector<std::unique_ptr<int>>),
        TYPE(N, std::list<std::shared_ptr<std::string>>),
        TYPE(N, std::map<std::string, std::vector<std::string>>),
        TYPE(N, std::map<std::string, std::map<std::string, bool>>),
        TYPE(N, std::deque<std::forward_list<int>>),
        TYPE(N, std::vector<std::set<int>>),
        TYPE(N, std::unordered_map<std::string, std::list<double>>),
        TYPE(N, std::array<std::array<int, 2>, 2>),
        TYPE(N, std::set<std::vector<int>>),
        TYPE(N, std::map<std::string, std::unique_ptr<std::map<std::string, int>>>),
    };
    auto& k = cases[s.draw(sizeof cases / sizeof *cases)];
    k.fn(s, c, k.name, false);
}
