// written by gen_c14.py
#define ENGINE_NO_MAIN
#include "c14.hpp"
using namespace c14;
namespace
{
struct S40
{
    int f0{};
    std::map<std::string, std::string> f1{};
    std::vector<int> f2{};
    std::string f3{};
    int64_t f4{};
    Inner f5{};
    bool f6{};
    std::list<Inner> f7{};
    std::shared_ptr<int> f8{};
    double f9{};
    int f10{};
    std::map<std::string, std::string> f11{};
    std::vector<int> f12{};
    std::string f13{};
    int64_t f14{};
    Inner f15{};
    bool f16{};
    std::list<Inner> f17{};
    std::shared_ptr<int> f18{};
    double f19{};
    int f20{};
    std::map<std::string, std::string> f21{};
    std::vector<int> f22{};
    std::string f23{};
    int64_t f24{};
    Inner f25{};
    bool f26{};
    std::list<Inner> f27{};
    std::shared_ptr<int> f28{};
    double f29{};
    int f30{};
    std::map<std::string, std::string> f31{};
    std::vector<int> f32{};
    std::string f33{};
    int64_t f34{};
    Inner f35{};
    bool f36{};
    std::list<Inner> f37{};
    std::shared_ptr<int> f38{};
    double f39{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "", false);
        f(f2, "2", true);
        f(f3, "f3", true);
        f(f4, "f4", false);
        f(f5, "\303\2515", true);
        f(f6, "6", true);
        f(f7, "f7", false);
        f(f8, "f8", true);
        f(f9, "\303\2519", true);
        f(f10, "10", false);
        f(f11, "f11", true);
        f(f12, "f12", true);
        f(f13, "\303\25113", false);
        f(f14, "14", true);
        f(f15, "f15", true);
        f(f16, "f16", false);
        f(f17, "\303\25117", true);
        f(f18, "18", true);
        f(f19, "f19", false);
        f(f20, "f20", true);
        f(f21, "\303\25121", true);
        f(f22, "22", false);
        f(f23, "f23", true);
        f(f24, "f24", true);
        f(f25, "\303\25125", false);
        f(f26, "26", true);
        f(f27, "f27", true);
        f(f28, "f28", false);
        f(f29, "\303\25129", true);
        f(f30, "30", true);
        f(f31, "f31", false);
        f(f32, "f32", true);
        f(f33, "\303\25133", true);
        f(f34, "34", false);
        f(f35, "f35", true);
        f(f36, "f36", true);
        f(f37, "\303\25137", false);
        f(f38, "38", true);
        f(f39, "f39", true);
    }
    CONFIGOR_BIND(json::value, S40, REQUIRED(f0),
                  OPTIONAL(f1, ""),
                  REQUIRED(f2, "2"),
                  REQUIRED(f3),
                  OPTIONAL(f4),
                  REQUIRED(f5, "\303\2515"),
                  REQUIRED(f6, "6"),
                  OPTIONAL(f7),
                  REQUIRED(f8),
                  REQUIRED(f9, "\303\2519"),
                  OPTIONAL(f10, "10"),
                  REQUIRED(f11),
                  REQUIRED(f12),
                  OPTIONAL(f13, "\303\25113"),
                  REQUIRED(f14, "14"),
                  REQUIRED(f15),
                  OPTIONAL(f16),
                  REQUIRED(f17, "\303\25117"),
                  REQUIRED(f18, "18"),
                  OPTIONAL(f19),
                  REQUIRED(f20),
                  REQUIRED(f21, "\303\25121"),
                  OPTIONAL(f22, "22"),
                  REQUIRED(f23),
                  REQUIRED(f24),
                  OPTIONAL(f25, "\303\25125"),
                  REQUIRED(f26, "26"),
                  REQUIRED(f27),
                  OPTIONAL(f28),
                  REQUIRED(f29, "\303\25129"),
                  REQUIRED(f30, "30"),
                  OPTIONAL(f31),
                  REQUIRED(f32),
                  REQUIRED(f33, "\303\25133"),
                  OPTIONAL(f34, "34"),
                  REQUIRED(f35),
                  REQUIRED(f36),
                  OPTIONAL(f37, "\303\25137"),
                  REQUIRED(f38, "38"),
                  REQUIRED(f39))
};

struct S41
{
    std::string f0{};
    int64_t f1{};
    Inner f2{};
    bool f3{};
    std::list<Inner> f4{};
    std::shared_ptr<int> f5{};
    double f6{};
    int f7{};
    std::map<std::string, std::string> f8{};
    std::vector<int> f9{};
    std::string f10{};
    int64_t f11{};
    Inner f12{};
    bool f13{};
    std::list<Inner> f14{};
    std::shared_ptr<int> f15{};
    double f16{};
    int f17{};
    std::map<std::string, std::string> f18{};
    std::vector<int> f19{};
    std::string f20{};
    int64_t f21{};
    Inner f22{};
    bool f23{};
    std::list<Inner> f24{};
    std::shared_ptr<int> f25{};
    double f26{};
    int f27{};
    std::map<std::string, std::string> f28{};
    std::vector<int> f29{};
    std::string f30{};
    int64_t f31{};
    Inner f32{};
    bool f33{};
    std::list<Inner> f34{};
    std::shared_ptr<int> f35{};
    double f36{};
    int f37{};
    std::map<std::string, std::string> f38{};
    std::vector<int> f39{};
    std::string f40{};
    template <class F>
    void each(F& f)
    {
        f(f0, "n\"0", true);
        f(f1, "\303\2511", true);
        f(f2, "f2", false);
        f(f3, "f3", true);
        f(f4, "n\"4", true);
        f(f5, "\303\2515", false);
        f(f6, "f6", true);
        f(f7, "f7", true);
        f(f8, "n\"8", false);
        f(f9, "\303\2519", true);
        f(f10, "f10", true);
        f(f11, "f11", false);
        f(f12, "n\"12", true);
        f(f13, "\303\25113", true);
        f(f14, "f14", false);
        f(f15, "f15", true);
        f(f16, "n\"16", true);
        f(f17, "\303\25117", false);
        f(f18, "f18", true);
        f(f19, "f19", true);
        f(f20, "n\"20", false);
        f(f21, "\303\25121", true);
        f(f22, "f22", true);
        f(f23, "f23", false);
        f(f24, "n\"24", true);
        f(f25, "\303\25125", true);
        f(f26, "f26", false);
        f(f27, "f27", true);
        f(f28, "n\"28", true);
        f(f29, "\303\25129", false);
        f(f30, "f30", true);
        f(f31, "f31", true);
        f(f32, "n\"32", false);
        f(f33, "\303\25133", true);
        f(f34, "f34", true);
        f(f35, "f35", false);
        f(f36, "n\"36", true);
        f(f37, "\303\25137", true);
        f(f38, "f38", false);
        f(f39, "f39", true);
        f(f40, "n\"40", true);
    }
    CONFIGOR_BIND(json::value, S41, REQUIRED(f0, "n\"0"),
                  REQUIRED(f1, "\303\2511"),
                  OPTIONAL(f2),
                  REQUIRED(f3),
                  REQUIRED(f4, "n\"4"),
                  OPTIONAL(f5, "\303\2515"),
                  REQUIRED(f6),
                  REQUIRED(f7),
                  OPTIONAL(f8, "n\"8"),
                  REQUIRED(f9, "\303\2519"),
                  REQUIRED(f10),
                  OPTIONAL(f11),
                  REQUIRED(f12, "n\"12"),
                  REQUIRED(f13, "\303\25113"),
                  OPTIONAL(f14),
                  REQUIRED(f15),
                  REQUIRED(f16, "n\"16"),
                  OPTIONAL(f17, "\303\25117"),
                  REQUIRED(f18),
                  REQUIRED(f19),
                  OPTIONAL(f20, "n\"20"),
                  REQUIRED(f21, "\303\25121"),
                  REQUIRED(f22),
                  OPTIONAL(f23),
                  REQUIRED(f24, "n\"24"),
                  REQUIRED(f25, "\303\25125"),
                  OPTIONAL(f26),
                  REQUIRED(f27),
                  REQUIRED(f28, "n\"28"),
                  OPTIONAL(f29, "\303\25129"),
                  REQUIRED(f30),
                  REQUIRED(f31),
                  OPTIONAL(f32, "n\"32"),
                  REQUIRED(f33, "\303\25133"),
                  REQUIRED(f34),
                  OPTIONAL(f35),
                  REQUIRED(f36, "n\"36"),
                  REQUIRED(f37, "\303\25137"),
                  OPTIONAL(f38),
                  REQUIRED(f39),
                  REQUIRED(f40, "n\"40"))
};

struct S42
{
    bool f0{};
    std::list<Inner> f1{};
    std::shared_ptr<int> f2{};
    double f3{};
    int f4{};
    std::map<std::string, std::string> f5{};
    std::vector<int> f6{};
    std::string f7{};
    int64_t f8{};
    Inner f9{};
    bool f10{};
    std::list<Inner> f11{};
    std::shared_ptr<int> f12{};
    double f13{};
    int f14{};
    std::map<std::string, std::string> f15{};
    std::vector<int> f16{};
    std::string f17{};
    int64_t f18{};
    Inner f19{};
    bool f20{};
    std::list<Inner> f21{};
    std::shared_ptr<int> f22{};
    double f23{};
    int f24{};
    std::map<std::string, std::string> f25{};
    std::vector<int> f26{};
    std::string f27{};
    int64_t f28{};
    Inner f29{};
    bool f30{};
    std::list<Inner> f31{};
    std::shared_ptr<int> f32{};
    double f33{};
    int f34{};
    std::map<std::string, std::string> f35{};
    std::vector<int> f36{};
    std::string f37{};
    int64_t f38{};
    Inner f39{};
    bool f40{};
    std::list<Inner> f41{};
    template <class F>
    void each(F& f)
    {
        f(f0, "\303\2510", false);
        f(f1, "f1", true);
        f(f2, "f2", true);
        f(f3, "", false);
        f(f4, "\303\2514", true);
        f(f5, "f5", true);
        f(f6, "f6", false);
        f(f7, "n\"7", true);
        f(f8, "\303\2518", true);
        f(f9, "f9", false);
        f(f10, "f10", true);
        f(f11, "n\"11", true);
        f(f12, "\303\25112", false);
        f(f13, "f13", true);
        f(f14, "f14", true);
        f(f15, "n\"15", false);
        f(f16, "\303\25116", true);
        f(f17, "f17", true);
        f(f18, "f18", false);
        f(f19, "n\"19", true);
        f(f20, "\303\25120", true);
        f(f21, "f21", false);
        f(f22, "f22", true);
        f(f23, "n\"23", true);
        f(f24, "\303\25124", false);
        f(f25, "f25", true);
        f(f26, "f26", true);
        f(f27, "n\"27", false);
        f(f28, "\303\25128", true);
        f(f29, "f29", true);
        f(f30, "f30", false);
        f(f31, "n\"31", true);
        f(f32, "\303\25132", true);
        f(f33, "f33", false);
        f(f34, "f34", true);
        f(f35, "n\"35", true);
        f(f36, "\303\25136", false);
        f(f37, "f37", true);
        f(f38, "f38", true);
        f(f39, "n\"39", false);
        f(f40, "\303\25140", true);
        f(f41, "f41", true);
    }
    CONFIGOR_BIND(json::value, S42, OPTIONAL(f0, "\303\2510"),
                  REQUIRED(f1),
                  REQUIRED(f2),
                  OPTIONAL(f3, ""),
                  REQUIRED(f4, "\303\2514"),
                  REQUIRED(f5),
                  OPTIONAL(f6),
                  REQUIRED(f7, "n\"7"),
                  REQUIRED(f8, "\303\2518"),
                  OPTIONAL(f9),
                  REQUIRED(f10),
                  REQUIRED(f11, "n\"11"),
                  OPTIONAL(f12, "\303\25112"),
                  REQUIRED(f13),
                  REQUIRED(f14),
                  OPTIONAL(f15, "n\"15"),
                  REQUIRED(f16, "\303\25116"),
                  REQUIRED(f17),
                  OPTIONAL(f18),
                  REQUIRED(f19, "n\"19"),
                  REQUIRED(f20, "\303\25120"),
                  OPTIONAL(f21),
                  REQUIRED(f22),
                  REQUIRED(f23, "n\"23"),
                  OPTIONAL(f24, "\303\25124"),
                  REQUIRED(f25),
                  REQUIRED(f26),
                  OPTIONAL(f27, "n\"27"),
                  REQUIRED(f28, "\303\25128"),
                  REQUIRED(f29),
                  OPTIONAL(f30),
                  REQUIRED(f31, "n\"31"),
                  REQUIRED(f32, "\303\25132"),
                  OPTIONAL(f33),
                  REQUIRED(f34),
                  REQUIRED(f35, "n\"35"),
                  OPTIONAL(f36, "\303\25136"),
                  REQUIRED(f37),
                  REQUIRED(f38),
                  OPTIONAL(f39, "n\"39"),
                  REQUIRED(f40, "\303\25140"),
                  REQUIRED(f41))
};

struct S43
{
    double f0{};
    int f1{};
    std::map<std::string, std::string> f2{};
    std::vector<int> f3{};
    std::string f4{};
    int64_t f5{};
    Inner f6{};
    bool f7{};
    std::list<Inner> f8{};
    std::shared_ptr<int> f9{};
    double f10{};
    int f11{};
    std::map<std::string, std::string> f12{};
    std::vector<int> f13{};
    std::string f14{};
    int64_t f15{};
    Inner f16{};
    bool f17{};
    std::list<Inner> f18{};
    std::shared_ptr<int> f19{};
    double f20{};
    int f21{};
    std::map<std::string, std::string> f22{};
    std::vector<int> f23{};
    std::string f24{};
    int64_t f25{};
    Inner f26{};
    bool f27{};
    std::list<Inner> f28{};
    std::shared_ptr<int> f29{};
    double f30{};
    int f31{};
    std::map<std::string, std::string> f32{};
    std::vector<int> f33{};
    std::string f34{};
    int64_t f35{};
    Inner f36{};
    bool f37{};
    std::list<Inner> f38{};
    std::shared_ptr<int> f39{};
    double f40{};
    int f41{};
    std::map<std::string, std::string> f42{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", false);
        f(f2, "name 2", true);
        f(f3, "n\"3", true);
        f(f4, "f4", false);
        f(f5, "f5", true);
        f(f6, "name 6", true);
        f(f7, "n\"7", false);
        f(f8, "f8", true);
        f(f9, "f9", true);
        f(f10, "name 10", false);
        f(f11, "n\"11", true);
        f(f12, "f12", true);
        f(f13, "f13", false);
        f(f14, "name 14", true);
        f(f15, "n\"15", true);
        f(f16, "f16", false);
        f(f17, "f17", true);
        f(f18, "name 18", true);
        f(f19, "n\"19", false);
        f(f20, "f20", true);
        f(f21, "f21", true);
        f(f22, "name 22", false);
        f(f23, "n\"23", true);
        f(f24, "f24", true);
        f(f25, "f25", false);
        f(f26, "name 26", true);
        f(f27, "n\"27", true);
        f(f28, "f28", false);
        f(f29, "f29", true);
        f(f30, "name 30", true);
        f(f31, "n\"31", false);
        f(f32, "f32", true);
        f(f33, "f33", true);
        f(f34, "name 34", false);
        f(f35, "n\"35", true);
        f(f36, "f36", true);
        f(f37, "f37", false);
        f(f38, "name 38", true);
        f(f39, "n\"39", true);
        f(f40, "f40", false);
        f(f41, "f41", true);
        f(f42, "name 42", true);
    }
    CONFIGOR_BIND(json::value, S43, REQUIRED(f0),
                  OPTIONAL(f1),
                  REQUIRED(f2, "name 2"),
                  REQUIRED(f3, "n\"3"),
                  OPTIONAL(f4),
                  REQUIRED(f5),
                  REQUIRED(f6, "name 6"),
                  OPTIONAL(f7, "n\"7"),
                  REQUIRED(f8),
                  REQUIRED(f9),
                  OPTIONAL(f10, "name 10"),
                  REQUIRED(f11, "n\"11"),
                  REQUIRED(f12),
                  OPTIONAL(f13),
                  REQUIRED(f14, "name 14"),
                  REQUIRED(f15, "n\"15"),
                  OPTIONAL(f16),
                  REQUIRED(f17),
                  REQUIRED(f18, "name 18"),
                  OPTIONAL(f19, "n\"19"),
                  REQUIRED(f20),
                  REQUIRED(f21),
                  OPTIONAL(f22, "name 22"),
                  REQUIRED(f23, "n\"23"),
                  REQUIRED(f24),
                  OPTIONAL(f25),
                  REQUIRED(f26, "name 26"),
                  REQUIRED(f27, "n\"27"),
                  OPTIONAL(f28),
                  REQUIRED(f29),
                  REQUIRED(f30, "name 30"),
                  OPTIONAL(f31, "n\"31"),
                  REQUIRED(f32),
                  REQUIRED(f33),
                  OPTIONAL(f34, "name 34"),
                  REQUIRED(f35, "n\"35"),
                  REQUIRED(f36),
                  OPTIONAL(f37),
                  REQUIRED(f38, "name 38"),
                  REQUIRED(f39, "n\"39"),
                  OPTIONAL(f40),
                  REQUIRED(f41),
                  REQUIRED(f42, "name 42"))
};

struct S44
{
    std::vector<int> f0{};
    std::string f1{};
    int64_t f2{};
    Inner f3{};
    bool f4{};
    std::list<Inner> f5{};
    std::shared_ptr<int> f6{};
    double f7{};
    int f8{};
    std::map<std::string, std::string> f9{};
    std::vector<int> f10{};
    std::string f11{};
    int64_t f12{};
    Inner f13{};
    bool f14{};
    std::list<Inner> f15{};
    std::shared_ptr<int> f16{};
    double f17{};
    int f18{};
    std::map<std::string, std::string> f19{};
    std::vector<int> f20{};
    std::string f21{};
    int64_t f22{};
    Inner f23{};
    bool f24{};
    std::list<Inner> f25{};
    std::shared_ptr<int> f26{};
    double f27{};
    int f28{};
    std::map<std::string, std::string> f29{};
    std::vector<int> f30{};
    std::string f31{};
    int64_t f32{};
    Inner f33{};
    bool f34{};
    std::list<Inner> f35{};
    std::shared_ptr<int> f36{};
    double f37{};
    int f38{};
    std::map<std::string, std::string> f39{};
    std::vector<int> f40{};
    std::string f41{};
    int64_t f42{};
    Inner f43{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "1", true);
        f(f2, "name 2", false);
        f(f3, "f3", true);
        f(f4, "f4", true);
        f(f5, "", false);
        f(f6, "name 6", true);
        f(f7, "f7", true);
        f(f8, "f8", false);
        f(f9, "9", true);
        f(f10, "name 10", true);
        f(f11, "f11", false);
        f(f12, "f12", true);
        f(f13, "13", true);
        f(f14, "name 14", false);
        f(f15, "f15", true);
        f(f16, "f16", true);
        f(f17, "17", false);
        f(f18, "name 18", true);
        f(f19, "f19", true);
        f(f20, "f20", false);
        f(f21, "21", true);
        f(f22, "name 22", true);
        f(f23, "f23", false);
        f(f24, "f24", true);
        f(f25, "25", true);
        f(f26, "name 26", false);
        f(f27, "f27", true);
        f(f28, "f28", true);
        f(f29, "29", false);
        f(f30, "name 30", true);
        f(f31, "f31", true);
        f(f32, "f32", false);
        f(f33, "33", true);
        f(f34, "name 34", true);
        f(f35, "f35", false);
        f(f36, "f36", true);
        f(f37, "37", true);
        f(f38, "name 38", false);
        f(f39, "f39", true);
        f(f40, "f40", true);
        f(f41, "41", false);
        f(f42, "name 42", true);
        f(f43, "f43", true);
    }
    CONFIGOR_BIND(json::value, S44, REQUIRED(f0),
                  REQUIRED(f1, "1"),
                  OPTIONAL(f2, "name 2"),
                  REQUIRED(f3),
                  REQUIRED(f4),
                  OPTIONAL(f5, ""),
                  REQUIRED(f6, "name 6"),
                  REQUIRED(f7),
                  OPTIONAL(f8),
                  REQUIRED(f9, "9"),
                  REQUIRED(f10, "name 10"),
                  OPTIONAL(f11),
                  REQUIRED(f12),
                  REQUIRED(f13, "13"),
                  OPTIONAL(f14, "name 14"),
                  REQUIRED(f15),
                  REQUIRED(f16),
                  OPTIONAL(f17, "17"),
                  REQUIRED(f18, "name 18"),
                  REQUIRED(f19),
                  OPTIONAL(f20),
                  REQUIRED(f21, "21"),
                  REQUIRED(f22, "name 22"),
                  OPTIONAL(f23),
                  REQUIRED(f24),
                  REQUIRED(f25, "25"),
                  OPTIONAL(f26, "name 26"),
                  REQUIRED(f27),
                  REQUIRED(f28),
                  OPTIONAL(f29, "29"),
                  REQUIRED(f30, "name 30"),
                  REQUIRED(f31),
                  OPTIONAL(f32),
                  REQUIRED(f33, "33"),
                  REQUIRED(f34, "name 34"),
                  OPTIONAL(f35),
                  REQUIRED(f36),
                  REQUIRED(f37, "37"),
                  OPTIONAL(f38, "name 38"),
                  REQUIRED(f39),
                  REQUIRED(f40),
                  OPTIONAL(f41, "41"),
                  REQUIRED(f42, "name 42"),
                  REQUIRED(f43))
};

}  // namespace
PROP(structs_4, 600, 15000)
{
    static void (*const fn[])(Src&, Ctx&) = { &bound<json::value, S40>, &bound<json::value, S41>, &bound<json::value, S42>, &bound<json::value, S43>, &bound<json::value, S44> };
    fn[s.draw(5)](s, c);
}
