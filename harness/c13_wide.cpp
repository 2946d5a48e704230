// C13: wide values
#define ENGINE_NO_MAIN
#include "c13.hpp"
using namespace c13;
using W = wjson::value;

PROP(wide, 25000, 250000)
{
    static const Case<W> cases[] = {
        TYPE(W, bool),
        TYPE(W, int),
        TYPE(W, unsigned long long),
        TYPE(W, double),
        TYPE(W, std::wstring),
        TYPE(W, std::vector<int>),
        TYPE(W, std::vector<W>),
        TYPE(W, std::list<std::wstring>),
        TYPE(W, std::deque<bool>),
        TYPE(W, std::forward_list<double>),
        TYPE(W, std::array<std::wstring, 3>),
        TYPE(W, std::set<std::wstring>),
        TYPE(W, std::unordered_set<std::wstring>),
        TYPE(W, std::map<std::wstring, int>),
        TYPE(W, std::map<std::wstring, W>),
        TYPE(W, std::unordered_map<std::wstring, std::vector<std::wstring>>),
        TYPE(W, std::unique_ptr<std::wstring>),
        TYPE(W, std::shared_ptr<int>),
        TYPE(W, std::vector<std::shared_ptr<std::wstring>>),
    };
    auto& k = cases[s.draw(sizeof cases / sizeof *cases)];
    k.fn(s, c, k.name, false);
}
