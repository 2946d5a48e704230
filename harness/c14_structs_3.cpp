// written by gen_c14.py
#define ENGINE_NO_MAIN
#include "c14.hpp"
using namespace c14;
namespace
{
struct S34
{
    std::vector<int> f0{};
    std::string f1{};
    int64_t f2{};
    Inner f3{};
    bool f4{};
    std::list<Inner> f5{};
    std::shared_ptr<int> f6{};
    double f7{};
    int f8{};
    std::map<std::string, std::string> f9{};
    std::vector<int> f10{};
    std::string f11{};
    int64_t f12{};
    Inner f13{};
    bool f14{};
    std::list<Inner> f15{};
    std::shared_ptr<int> f16{};
    double f17{};
    int f18{};
    std::map<std::string, std::string> f19{};
    std::vector<int> f20{};
    std::string f21{};
    int64_t f22{};
    Inner f23{};
    bool f24{};
    std::list<Inner> f25{};
    std::shared_ptr<int> f26{};
    double f27{};
    int f28{};
    std::map<std::string, std::string> f29{};
    std::vector<int> f30{};
    std::string f31{};
    int64_t f32{};
    Inner f33{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", true);
        f(f1, "f1", false);
        f(f2, "f2", true);
        f(f3, "\303\2513", true);
        f(f4, "4", false);
        f(f5, "f5", true);
        f(f6, "f6", true);
        f(f7, "\303\2517", false);
        f(f8, "", true);
        f(f9, "f9", true);
        f(f10, "f10", false);
        f(f11, "\303\25111", true);
        f(f12, "12", true);
        f(f13, "f13", false);
        f(f14, "f14", true);
        f(f15, "\303\25115", true);
        f(f16, "16", false);
        f(f17, "f17", true);
        f(f18, "f18", true);
        f(f19, "\303\25119", false);
        f(f20, "20", true);
        f(f21, "f21", true);
        f(f22, "f22", false);
        f(f23, "\303\25123", true);
        f(f24, "24", true);
        f(f25, "f25", false);
        f(f26, "f26", true);
        f(f27, "\303\25127", true);
        f(f28, "28", false);
        f(f29, "f29", true);
        f(f30, "f30", true);
        f(f31, "\303\25131", false);
        f(f32, "32", true);
        f(f33, "f33", true);
    }
    CONFIGOR_BIND(json::value, S34, REQUIRED(f0, "0"),
                  OPTIONAL(f1),
                  REQUIRED(f2),
                  REQUIRED(f3, "\303\2513"),
                  OPTIONAL(f4, "4"),
                  REQUIRED(f5),
                  REQUIRED(f6),
                  OPTIONAL(f7, "\303\2517"),
                  REQUIRED(f8, ""),
                  REQUIRED(f9),
                  OPTIONAL(f10),
                  REQUIRED(f11, "\303\25111"),
                  REQUIRED(f12, "12"),
                  OPTIONAL(f13),
                  REQUIRED(f14),
                  REQUIRED(f15, "\303\25115"),
                  OPTIONAL(f16, "16"),
                  REQUIRED(f17),
                  REQUIRED(f18),
                  OPTIONAL(f19, "\303\25119"),
                  REQUIRED(f20, "20"),
                  REQUIRED(f21),
                  OPTIONAL(f22),
                  REQUIRED(f23, "\303\25123"),
                  REQUIRED(f24, "24"),
                  OPTIONAL(f25),
                  REQUIRED(f26),
                  REQUIRED(f27, "\303\25127"),
                  OPTIONAL(f28, "28"),
                  REQUIRED(f29),
                  REQUIRED(f30),
                  OPTIONAL(f31, "\303\25131"),
                  REQUIRED(f32, "32"),
                  REQUIRED(f33))
};

struct S35
{
    Inner f0{};
    bool f1{};
    std::list<Inner> f2{};
    std::shared_ptr<int> f3{};
    double f4{};
    int f5{};
    std::map<std::string, std::string> f6{};
    std::vector<int> f7{};
    std::string f8{};
    int64_t f9{};
    Inner f10{};
    bool f11{};
    std::list<Inner> f12{};
    std::shared_ptr<int> f13{};
    double f14{};
    int f15{};
    std::map<std::string, std::string> f16{};
    std::vector<int> f17{};
    std::string f18{};
    int64_t f19{};
    Inner f20{};
    bool f21{};
    std::list<Inner> f22{};
    std::shared_ptr<int> f23{};
    double f24{};
    int f25{};
    std::map<std::string, std::string> f26{};
    std::vector<int> f27{};
    std::string f28{};
    int64_t f29{};
    Inner f30{};
    bool f31{};
    std::list<Inner> f32{};
    std::shared_ptr<int> f33{};
    double f34{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", true);
        f(f2, "n\"2", false);
        f(f3, "\303\2513", true);
        f(f4, "f4", true);
        f(f5, "f5", false);
        f(f6, "n\"6", true);
        f(f7, "\303\2517", true);
        f(f8, "f8", false);
        f(f9, "f9", true);
        f(f10, "n\"10", true);
        f(f11, "\303\25111", false);
        f(f12, "f12", true);
        f(f13, "f13", true);
        f(f14, "n\"14", false);
        f(f15, "\303\25115", true);
        f(f16, "f16", true);
        f(f17, "f17", false);
        f(f18, "n\"18", true);
        f(f19, "\303\25119", true);
        f(f20, "f20", false);
        f(f21, "f21", true);
        f(f22, "n\"22", true);
        f(f23, "\303\25123", false);
        f(f24, "f24", true);
        f(f25, "f25", true);
        f(f26, "n\"26", false);
        f(f27, "\303\25127", true);
        f(f28, "f28", true);
        f(f29, "f29", false);
        f(f30, "n\"30", true);
        f(f31, "\303\25131", true);
        f(f32, "f32", false);
        f(f33, "f33", true);
        f(f34, "n\"34", true);
    }
    CONFIGOR_BIND(json::value, S35, REQUIRED(f0),
                  REQUIRED(f1),
                  OPTIONAL(f2, "n\"2"),
                  REQUIRED(f3, "\303\2513"),
                  REQUIRED(f4),
                  OPTIONAL(f5),
                  REQUIRED(f6, "n\"6"),
                  REQUIRED(f7, "\303\2517"),
                  OPTIONAL(f8),
                  REQUIRED(f9),
                  REQUIRED(f10, "n\"10"),
                  OPTIONAL(f11, "\303\25111"),
                  REQUIRED(f12),
                  REQUIRED(f13),
                  OPTIONAL(f14, "n\"14"),
                  REQUIRED(f15, "\303\25115"),
                  REQUIRED(f16),
                  OPTIONAL(f17),
                  REQUIRED(f18, "n\"18"),
                  REQUIRED(f19, "\303\25119"),
                  OPTIONAL(f20),
                  REQUIRED(f21),
                  REQUIRED(f22, "n\"22"),
                  OPTIONAL(f23, "\303\25123"),
                  REQUIRED(f24),
                  REQUIRED(f25),
                  OPTIONAL(f26, "n\"26"),
                  REQUIRED(f27, "\303\25127"),
                  REQUIRED(f28),
                  OPTIONAL(f29),
                  REQUIRED(f30, "n\"30"),
                  REQUIRED(f31, "\303\25131"),
                  OPTIONAL(f32),
                  REQUIRED(f33),
                  REQUIRED(f34, "n\"34"))
};

struct S36
{
    std::shared_ptr<int> f0{};
    double f1{};
    int f2{};
    std::map<std::string, std::string> f3{};
    std::vector<int> f4{};
    std::string f5{};
    int64_t f6{};
    Inner f7{};
    bool f8{};
    std::list<Inner> f9{};
    std::shared_ptr<int> f10{};
    double f11{};
    int f12{};
    std::map<std::string, std::string> f13{};
    std::vector<int> f14{};
    std::string f15{};
    int64_t f16{};
    Inner f17{};
    bool f18{};
    std::list<Inner> f19{};
    std::shared_ptr<int> f20{};
    double f21{};
    int f22{};
    std::map<std::string, std::string> f23{};
    std::vector<int> f24{};
    std::string f25{};
    int64_t f26{};
    Inner f27{};
    bool f28{};
    std::list<Inner> f29{};
    std::shared_ptr<int> f30{};
    double f31{};
    int f32{};
    std::map<std::string, std::string> f33{};
    std::vector<int> f34{};
    std::string f35{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "n\"1", true);
        f(f2, "\303\2512", true);
        f(f3, "f3", false);
        f(f4, "f4", true);
        f(f5, "n\"5", true);
        f(f6, "\303\2516", false);
        f(f7, "f7", true);
        f(f8, "f8", true);
        f(f9, "n\"9", false);
        f(f10, "", true);
        f(f11, "f11", true);
        f(f12, "f12", false);
        f(f13, "n\"13", true);
        f(f14, "\303\25114", true);
        f(f15, "f15", false);
        f(f16, "f16", true);
        f(f17, "n\"17", true);
        f(f18, "\303\25118", false);
        f(f19, "f19", true);
        f(f20, "f20", true);
        f(f21, "n\"21", false);
        f(f22, "\303\25122", true);
        f(f23, "f23", true);
        f(f24, "f24", false);
        f(f25, "n\"25", true);
        f(f26, "\303\25126", true);
        f(f27, "f27", false);
        f(f28, "f28", true);
        f(f29, "n\"29", true);
        f(f30, "\303\25130", false);
        f(f31, "f31", true);
        f(f32, "f32", true);
        f(f33, "n\"33", false);
        f(f34, "\303\25134", true);
        f(f35, "f35", true);
    }
    CONFIGOR_BIND(json::value, S36, OPTIONAL(f0),
                  REQUIRED(f1, "n\"1"),
                  REQUIRED(f2, "\303\2512"),
                  OPTIONAL(f3),
                  REQUIRED(f4),
                  REQUIRED(f5, "n\"5"),
                  OPTIONAL(f6, "\303\2516"),
                  REQUIRED(f7),
                  REQUIRED(f8),
                  OPTIONAL(f9, "n\"9"),
                  REQUIRED(f10, ""),
                  REQUIRED(f11),
                  OPTIONAL(f12),
                  REQUIRED(f13, "n\"13"),
                  REQUIRED(f14, "\303\25114"),
                  OPTIONAL(f15),
                  REQUIRED(f16),
                  REQUIRED(f17, "n\"17"),
                  OPTIONAL(f18, "\303\25118"),
                  REQUIRED(f19),
                  REQUIRED(f20),
                  OPTIONAL(f21, "n\"21"),
                  REQUIRED(f22, "\303\25122"),
                  REQUIRED(f23),
                  OPTIONAL(f24),
                  REQUIRED(f25, "n\"25"),
                  REQUIRED(f26, "\303\25126"),
                  OPTIONAL(f27),
                  REQUIRED(f28),
                  REQUIRED(f29, "n\"29"),
                  OPTIONAL(f30, "\303\25130"),
                  REQUIRED(f31),
                  REQUIRED(f32),
                  OPTIONAL(f33, "n\"33"),
                  REQUIRED(f34, "\303\25134"),
                  REQUIRED(f35))
};

struct S37
{
    std::map<std::string, std::string> f0{};
    std::vector<int> f1{};
    std::string f2{};
    int64_t f3{};
    Inner f4{};
    bool f5{};
    std::list<Inner> f6{};
    std::shared_ptr<int> f7{};
    double f8{};
    int f9{};
    std::map<std::string, std::string> f10{};
    std::vector<int> f11{};
    std::string f12{};
    int64_t f13{};
    Inner f14{};
    bool f15{};
    std::list<Inner> f16{};
    std::shared_ptr<int> f17{};
    double f18{};
    int f19{};
    std::map<std::string, std::string> f20{};
    std::vector<int> f21{};
    std::string f22{};
    int64_t f23{};
    Inner f24{};
    bool f25{};
    std::list<Inner> f26{};
    std::shared_ptr<int> f27{};
    double f28{};
    int f29{};
    std::map<std::string, std::string> f30{};
    std::vector<int> f31{};
    std::string f32{};
    int64_t f33{};
    Inner f34{};
    bool f35{};
    std::list<Inner> f36{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", true);
        f(f1, "n\"1", false);
        f(f2, "f2", true);
        f(f3, "f3", true);
        f(f4, "name 4", false);
        f(f5, "n\"5", true);
        f(f6, "f6", true);
        f(f7, "f7", false);
        f(f8, "name 8", true);
        f(f9, "n\"9", true);
        f(f10, "f10", false);
        f(f11, "f11", true);
        f(f12, "name 12", true);
        f(f13, "n\"13", false);
        f(f14, "f14", true);
        f(f15, "f15", true);
        f(f16, "name 16", false);
        f(f17, "n\"17", true);
        f(f18, "f18", true);
        f(f19, "f19", false);
        f(f20, "name 20", true);
        f(f21, "n\"21", true);
        f(f22, "f22", false);
        f(f23, "f23", true);
        f(f24, "name 24", true);
        f(f25, "n\"25", false);
        f(f26, "f26", true);
        f(f27, "f27", true);
        f(f28, "name 28", false);
        f(f29, "n\"29", true);
        f(f30, "f30", true);
        f(f31, "f31", false);
        f(f32, "name 32", true);
        f(f33, "n\"33", true);
        f(f34, "f34", false);
        f(f35, "f35", true);
        f(f36, "name 36", true);
    }
    CONFIGOR_BIND(json::value, S37, REQUIRED(f0, "name 0"),
                  OPTIONAL(f1, "n\"1"),
                  REQUIRED(f2),
                  REQUIRED(f3),
                  OPTIONAL(f4, "name 4"),
                  REQUIRED(f5, "n\"5"),
                  REQUIRED(f6),
                  OPTIONAL(f7),
                  REQUIRED(f8, "name 8"),
                  REQUIRED(f9, "n\"9"),
                  OPTIONAL(f10),
                  REQUIRED(f11),
                  REQUIRED(f12, "name 12"),
                  OPTIONAL(f13, "n\"13"),
                  REQUIRED(f14),
                  REQUIRED(f15),
                  OPTIONAL(f16, "name 16"),
                  REQUIRED(f17, "n\"17"),
                  REQUIRED(f18),
                  OPTIONAL(f19),
                  REQUIRED(f20, "name 20"),
                  REQUIRED(f21, "n\"21"),
                  OPTIONAL(f22),
                  REQUIRED(f23),
                  REQUIRED(f24, "name 24"),
                  OPTIONAL(f25, "n\"25"),
                  REQUIRED(f26),
                  REQUIRED(f27),
                  OPTIONAL(f28, "name 28"),
                  REQUIRED(f29, "n\"29"),
                  REQUIRED(f30),
                  OPTIONAL(f31),
                  REQUIRED(f32, "name 32"),
                  REQUIRED(f33, "n\"33"),
                  OPTIONAL(f34),
                  REQUIRED(f35),
                  REQUIRED(f36, "name 36"))
};

struct S38
{
    int64_t f0{};
    Inner f1{};
    bool f2{};
    std::list<Inner> f3{};
    std::shared_ptr<int> f4{};
    double f5{};
    int f6{};
    std::map<std::string, std::string> f7{};
    std::vector<int> f8{};
    std::string f9{};
    int64_t f10{};
    Inner f11{};
    bool f12{};
    std::list<Inner> f13{};
    std::shared_ptr<int> f14{};
    double f15{};
    int f16{};
    std::map<std::string, std::string> f17{};
    std::vector<int> f18{};
    std::string f19{};
    int64_t f20{};
    Inner f21{};
    bool f22{};
    std::list<Inner> f23{};
    std::shared_ptr<int> f24{};
    double f25{};
    int f26{};
    std::map<std::string, std::string> f27{};
    std::vector<int> f28{};
    std::string f29{};
    int64_t f30{};
    Inner f31{};
    bool f32{};
    std::list<Inner> f33{};
    std::shared_ptr<int> f34{};
    double f35{};
    int f36{};
    std::map<std::string, std::string> f37{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", true);
        f(f1, "f1", true);
        f(f2, "f2", false);
        f(f3, "3", true);
        f(f4, "name 4", true);
        f(f5, "f5", false);
        f(f6, "f6", true);
        f(f7, "7", true);
        f(f8, "name 8", false);
        f(f9, "f9", true);
        f(f10, "f10", true);
        f(f11, "11", false);
        f(f12, "", true);
        f(f13, "f13", true);
        f(f14, "f14", false);
        f(f15, "15", true);
        f(f16, "name 16", true);
        f(f17, "f17", false);
        f(f18, "f18", true);
        f(f19, "19", true);
        f(f20, "name 20", false);
        f(f21, "f21", true);
        f(f22, "f22", true);
        f(f23, "23", false);
        f(f24, "name 24", true);
        f(f25, "f25", true);
        f(f26, "f26", false);
        f(f27, "27", true);
        f(f28, "name 28", true);
        f(f29, "f29", false);
        f(f30, "f30", true);
        f(f31, "31", true);
        f(f32, "name 32", false);
        f(f33, "f33", true);
        f(f34, "f34", true);
        f(f35, "35", false);
        f(f36, "name 36", true);
        f(f37, "f37", true);
    }
    CONFIGOR_BIND(json::value, S38, REQUIRED(f0, "name 0"),
                  REQUIRED(f1),
                  OPTIONAL(f2),
                  REQUIRED(f3, "3"),
                  REQUIRED(f4, "name 4"),
                  OPTIONAL(f5),
                  REQUIRED(f6),
                  REQUIRED(f7, "7"),
                  OPTIONAL(f8, "name 8"),
                  REQUIRED(f9),
                  REQUIRED(f10),
                  OPTIONAL(f11, "11"),
                  REQUIRED(f12, ""),
                  REQUIRED(f13),
                  OPTIONAL(f14),
                  REQUIRED(f15, "15"),
                  REQUIRED(f16, "name 16"),
                  OPTIONAL(f17),
                  REQUIRED(f18),
                  REQUIRED(f19, "19"),
                  OPTIONAL(f20, "name 20"),
                  REQUIRED(f21),
                  REQUIRED(f22),
                  OPTIONAL(f23, "23"),
                  REQUIRED(f24, "name 24"),
                  REQUIRED(f25),
                  OPTIONAL(f26),
                  REQUIRED(f27, "27"),
                  REQUIRED(f28, "name 28"),
                  OPTIONAL(f29),
                  REQUIRED(f30),
                  REQUIRED(f31, "31"),
                  OPTIONAL(f32, "name 32"),
                  REQUIRED(f33),
                  REQUIRED(f34),
                  OPTIONAL(f35, "35"),
                  REQUIRED(f36, "name 36"),
                  REQUIRED(f37))
};

struct S39
{
    std::list<Inner> f0{};
    std::shared_ptr<int> f1{};
    double f2{};
    int f3{};
    std::map<std::string, std::string> f4{};
    std::vector<int> f5{};
    std::string f6{};
    int64_t f7{};
    Inner f8{};
    bool f9{};
    std::list<Inner> f10{};
    std::shared_ptr<int> f11{};
    double f12{};
    int f13{};
    std::map<std::string, std::string> f14{};
    std::vector<int> f15{};
    std::string f16{};
    int64_t f17{};
    Inner f18{};
    bool f19{};
    std::list<Inner> f20{};
    std::shared_ptr<int> f21{};
    double f22{};
    int f23{};
    std::map<std::string, std::string> f24{};
    std::vector<int> f25{};
    std::string f26{};
    int64_t f27{};
    Inner f28{};
    bool f29{};
    std::list<Inner> f30{};
    std::shared_ptr<int> f31{};
    double f32{};
    int f33{};
    std::map<std::string, std::string> f34{};
    std::vector<int> f35{};
    std::string f36{};
    int64_t f37{};
    Inner f38{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "f1", true);
        f(f2, "2", true);
        f(f3, "name 3", false);
        f(f4, "f4", true);
        f(f5, "f5", true);
        f(f6, "6", false);
        f(f7, "name 7", true);
        f(f8, "f8", true);
        f(f9, "f9", false);
        f(f10, "10", true);
        f(f11, "name 11", true);
        f(f12, "f12", false);
        f(f13, "f13", true);
        f(f14, "14", true);
        f(f15, "name 15", false);
        f(f16, "f16", true);
        f(f17, "f17", true);
        f(f18, "18", false);
        f(f19, "name 19", true);
        f(f20, "f20", true);
        f(f21, "f21", false);
        f(f22, "22", true);
        f(f23, "name 23", true);
        f(f24, "f24", false);
        f(f25, "f25", true);
        f(f26, "26", true);
        f(f27, "name 27", false);
        f(f28, "f28", true);
        f(f29, "f29", true);
        f(f30, "30", false);
        f(f31, "name 31", true);
        f(f32, "f32", true);
        f(f33, "f33", false);
        f(f34, "34", true);
        f(f35, "name 35", true);
        f(f36, "f36", false);
        f(f37, "f37", true);
        f(f38, "38", true);
    }
    CONFIGOR_BIND(json::value, S39, OPTIONAL(f0),
                  REQUIRED(f1),
                  REQUIRED(f2, "2"),
                  OPTIONAL(f3, "name 3"),
                  REQUIRED(f4),
                  REQUIRED(f5),
                  OPTIONAL(f6, "6"),
                  REQUIRED(f7, "name 7"),
                  REQUIRED(f8),
                  OPTIONAL(f9),
                  REQUIRED(f10, "10"),
                  REQUIRED(f11, "name 11"),
                  OPTIONAL(f12),
                  REQUIRED(f13),
                  REQUIRED(f14, "14"),
                  OPTIONAL(f15, "name 15"),
                  REQUIRED(f16),
                  REQUIRED(f17),
                  OPTIONAL(f18, "18"),
                  REQUIRED(f19, "name 19"),
                  REQUIRED(f20),
                  OPTIONAL(f21),
                  REQUIRED(f22, "22"),
                  REQUIRED(f23, "name 23"),
                  OPTIONAL(f24),
                  REQUIRED(f25),
                  REQUIRED(f26, "26"),
                  OPTIONAL(f27, "name 27"),
                  REQUIRED(f28),
                  REQUIRED(f29),
                  OPTIONAL(f30, "30"),
                  REQUIRED(f31, "name 31"),
                  REQUIRED(f32),
                  OPTIONAL(f33),
                  REQUIRED(f34, "34"),
                  REQUIRED(f35, "name 35"),
                  OPTIONAL(f36),
                  REQUIRED(f37),
                  REQUIRED(f38, "38"))
};

}  // namespace
PROP(structs_3, 720, 18000)
{
    static void (*const fn[])(Src&, Ctx&) = { &bound<json::value, S34>, &bound<json::value, S35>, &bound<json::value, S36>, &bound<json::value, S37>, &bound<json::value, S38>, &bound<json::value, S39> };
    fn[s.draw(6)](s, c);
}
