// written by gen_c14.py
#define ENGINE_NO_MAIN
#include "c14.hpp"
using namespace c14;
namespace
{
struct W1
{
    std::wstring f0{};
    template <class F>
    void each(F& f)
    {
        f(f0, L"name 0", true);
    }
    CONFIGOR_BIND(wjson::value, W1, REQUIRED(f0, L"name 0"))
};

struct W2
{
    bool f0{};
    std::list<WInner> f1{};
    template <class F>
    void each(F& f)
    {
        f(f0, L"name 0", false);
        f(f1, L"n\"1", false);
    }
    CONFIGOR_BIND(wjson::value, W2, OPTIONAL(f0, L"name 0"),
                  OPTIONAL(f1, L"n\"1"))
};

struct W3
{
    double f0{};
    int f1{};
    std::map<std::wstring, std::wstring> f2{};
    template <class F>
    void each(F& f)
    {
        f(f0, L"n\"0", false);
        f(f1, L"\u00e91", true);
        f(f2, L"2", true);
    }
    CONFIGOR_BIND(wjson::value, W3, OPTIONAL(f0, L"n\"0"),
                  REQUIRED(f1, L"\u00e91"),
                  REQUIRED(f2, L"2"))
};

struct W7
{
    std::map<std::wstring, std::wstring> f0{};
    std::vector<int> f1{};
    std::wstring f2{};
    int64_t f3{};
    WInner f4{};
    bool f5{};
    std::list<WInner> f6{};
    template <class F>
    void each(F& f)
    {
        f(f0, L"\u00e90", true);
        f(f1, L"1", false);
        f(f2, L"name 2", true);
        f(f3, L"n\"3", true);
        f(f4, L"\u00e94", false);
        f(f5, L"5", true);
        f(f6, L"name 6", true);
    }
    CONFIGOR_BIND(wjson::value, W7, REQUIRED(f0, L"\u00e90"),
                  OPTIONAL(f1, L"1"),
                  REQUIRED(f2, L"name 2"),
                  REQUIRED(f3, L"n\"3"),
                  OPTIONAL(f4, L"\u00e94"),
                  REQUIRED(f5, L"5"),
                  REQUIRED(f6, L"name 6"))
};

struct W12
{
    bool f0{};
    std::list<WInner> f1{};
    std::shared_ptr<int> f2{};
    double f3{};
    int f4{};
    std::map<std::wstring, std::wstring> f5{};
    std::vector<int> f6{};
    std::wstring f7{};
    int64_t f8{};
    WInner f9{};
    bool f10{};
    std::list<WInner> f11{};
    template <class F>
    void each(F& f)
    {
        f(f0, L"name 0", false);
        f(f1, L"n\"1", true);
        f(f2, L"\u00e92", true);
        f(f3, L"3", false);
        f(f4, L"name 4", true);
        f(f5, L"n\"5", true);
        f(f6, L"\u00e96", false);
        f(f7, L"7", true);
        f(f8, L"name 8", true);
        f(f9, L"n\"9", false);
        f(f10, L"\u00e910", true);
        f(f11, L"11", true);
    }
    CONFIGOR_BIND(wjson::value, W12, OPTIONAL(f0, L"name 0"),
                  REQUIRED(f1, L"n\"1"),
                  REQUIRED(f2, L"\u00e92"),
                  OPTIONAL(f3, L"3"),
                  REQUIRED(f4, L"name 4"),
                  REQUIRED(f5, L"n\"5"),
                  OPTIONAL(f6, L"\u00e96"),
                  REQUIRED(f7, L"7"),
                  REQUIRED(f8, L"name 8"),
                  OPTIONAL(f9, L"n\"9"),
                  REQUIRED(f10, L"\u00e910"),
                  REQUIRED(f11, L"11"))
};

struct W50
{
    int f0{};
    std::map<std::wstring, std::wstring> f1{};
    std::vector<int> f2{};
    std::wstring f3{};
    int64_t f4{};
    WInner f5{};
    bool f6{};
    std::list<WInner> f7{};
    std::shared_ptr<int> f8{};
    double f9{};
    int f10{};
    std::map<std::wstring, std::wstring> f11{};
    std::vector<int> f12{};
    std::wstring f13{};
    int64_t f14{};
    WInner f15{};
    bool f16{};
    std::list<WInner> f17{};
    std::shared_ptr<int> f18{};
    double f19{};
    int f20{};
    std::map<std::wstring, std::wstring> f21{};
    std::vector<int> f22{};
    std::wstring f23{};
    int64_t f24{};
    WInner f25{};
    bool f26{};
    std::list<WInner> f27{};
    std::shared_ptr<int> f28{};
    double f29{};
    int f30{};
    std::map<std::wstring, std::wstring> f31{};
    std::vector<int> f32{};
    std::wstring f33{};
    int64_t f34{};
    WInner f35{};
    bool f36{};
    std::list<WInner> f37{};
    std::shared_ptr<int> f38{};
    double f39{};
    int f40{};
    std::map<std::wstring, std::wstring> f41{};
    std::vector<int> f42{};
    std::wstring f43{};
    int64_t f44{};
    WInner f45{};
    bool f46{};
    std::list<WInner> f47{};
    std::shared_ptr<int> f48{};
    double f49{};
    template <class F>
    void each(F& f)
    {
        f(f0, L"name 0", true);
        f(f1, L"n\"1", true);
        f(f2, L"\u00e92", false);
        f(f3, L"3", true);
        f(f4, L"name 4", true);
        f(f5, L"n\"5", false);
        f(f6, L"\u00e96", true);
        f(f7, L"7", true);
        f(f8, L"name 8", false);
        f(f9, L"n\"9", true);
        f(f10, L"\u00e910", true);
        f(f11, L"", false);
        f(f12, L"name 12", true);
        f(f13, L"n\"13", true);
        f(f14, L"\u00e914", false);
        f(f15, L"15", true);
        f(f16, L"name 16", true);
        f(f17, L"n\"17", false);
        f(f18, L"\u00e918", true);
        f(f19, L"19", true);
        f(f20, L"name 20", false);
        f(f21, L"n\"21", true);
        f(f22, L"\u00e922", true);
        f(f23, L"23", false);
        f(f24, L"name 24", true);
        f(f25, L"n\"25", true);
        f(f26, L"\u00e926", false);
        f(f27, L"27", true);
        f(f28, L"name 28", true);
        f(f29, L"n\"29", false);
        f(f30, L"\u00e930", true);
        f(f31, L"31", true);
        f(f32, L"name 32", false);
        f(f33, L"n\"33", true);
        f(f34, L"\u00e934", true);
        f(f35, L"35", false);
        f(f36, L"name 36", true);
        f(f37, L"n\"37", true);
        f(f38, L"\u00e938", false);
        f(f39, L"39", true);
        f(f40, L"name 40", true);
        f(f41, L"n\"41", false);
        f(f42, L"\u00e942", true);
        f(f43, L"43", true);
        f(f44, L"name 44", false);
        f(f45, L"n\"45", true);
        f(f46, L"\u00e946", true);
        f(f47, L"47", false);
        f(f48, L"name 48", true);
        f(f49, L"n\"49", true);
    }
    CONFIGOR_BIND(wjson::value, W50, REQUIRED(f0, L"name 0"),
                  REQUIRED(f1, L"n\"1"),
                  OPTIONAL(f2, L"\u00e92"),
                  REQUIRED(f3, L"3"),
                  REQUIRED(f4, L"name 4"),
                  OPTIONAL(f5, L"n\"5"),
                  REQUIRED(f6, L"\u00e96"),
                  REQUIRED(f7, L"7"),
                  OPTIONAL(f8, L"name 8"),
                  REQUIRED(f9, L"n\"9"),
                  REQUIRED(f10, L"\u00e910"),
                  OPTIONAL(f11, L""),
                  REQUIRED(f12, L"name 12"),
                  REQUIRED(f13, L"n\"13"),
                  OPTIONAL(f14, L"\u00e914"),
                  REQUIRED(f15, L"15"),
                  REQUIRED(f16, L"name 16"),
                  OPTIONAL(f17, L"n\"17"),
                  REQUIRED(f18, L"\u00e918"),
                  REQUIRED(f19, L"19"),
                  OPTIONAL(f20, L"name 20"),
                  REQUIRED(f21, L"n\"21"),
                  REQUIRED(f22, L"\u00e922"),
                  OPTIONAL(f23, L"23"),
                  REQUIRED(f24, L"name 24"),
                  REQUIRED(f25, L"n\"25"),
                  OPTIONAL(f26, L"\u00e926"),
                  REQUIRED(f27, L"27"),
                  REQUIRED(f28, L"name 28"),
                  OPTIONAL(f29, L"n\"29"),
                  REQUIRED(f30, L"\u00e930"),
                  REQUIRED(f31, L"31"),
                  OPTIONAL(f32, L"name 32"),
                  REQUIRED(f33, L"n\"33"),
                  REQUIRED(f34, L"\u00e934"),
                  OPTIONAL(f35, L"35"),
                  REQUIRED(f36, L"name 36"),
                  REQUIRED(f37, L"n\"37"),
                  OPTIONAL(f38, L"\u00e938"),
                  REQUIRED(f39, L"39"),
                  REQUIRED(f40, L"name 40"),
                  OPTIONAL(f41, L"n\"41"),
                  REQUIRED(f42, L"\u00e942"),
                  REQUIRED(f43, L"43"),
                  OPTIONAL(f44, L"name 44"),
                  REQUIRED(f45, L"n\"45"),
                  REQUIRED(f46, L"\u00e946"),
                  OPTIONAL(f47, L"47"),
                  REQUIRED(f48, L"name 48"),
                  REQUIRED(f49, L"n\"49"))
};

}  // namespace
PROP(structs_7, 720, 18000)
{
    static void (*const fn[])(Src&, Ctx&) = { &bound<wjson::value, W1>, &bound<wjson::value, W2>, &bound<wjson::value, W3>, &bound<wjson::value, W7>, &bound<wjson::value, W12>, &bound<wjson::value, W50> };
    fn[s.draw(6)](s, c);
}
