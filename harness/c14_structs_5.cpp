// written by gen_c14.py
#define ENGINE_NO_MAIN
#include "c14.hpp"
using namespace c14;
namespace
{
struct S45
{
    Inner f0{};
    bool f1{};
    std::list<Inner> f2{};
    std::shared_ptr<int> f3{};
    double f4{};
    int f5{};
    std::map<std::string, std::string> f6{};
    std::vector<int> f7{};
    std::string f8{};
    int64_t f9{};
    Inner f10{};
    bool f11{};
    std::list<Inner> f12{};
    std::shared_ptr<int> f13{};
    double f14{};
    int f15{};
    std::map<std::string, std::string> f16{};
    std::vector<int> f17{};
    std::string f18{};
    int64_t f19{};
    Inner f20{};
    bool f21{};
    std::list<Inner> f22{};
    std::shared_ptr<int> f23{};
    double f24{};
    int f25{};
    std::map<std::string, std::string> f26{};
    std::vector<int> f27{};
    std::string f28{};
    int64_t f29{};
    Inner f30{};
    bool f31{};
    std::list<Inner> f32{};
    std::shared_ptr<int> f33{};
    double f34{};
    int f35{};
    std::map<std::string, std::string> f36{};
    std::vector<int> f37{};
    std::string f38{};
    int64_t f39{};
    Inner f40{};
    bool f41{};
    std::list<Inner> f42{};
    std::shared_ptr<int> f43{};
    double f44{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", false);
        f(f1, "name 1", true);
        f(f2, "f2", true);
        f(f3, "f3", false);
        f(f4, "4", true);
        f(f5, "name 5", true);
        f(f6, "f6", false);
        f(f7, "f7", true);
        f(f8, "8", true);
        f(f9, "name 9", false);
        f(f10, "f10", true);
        f(f11, "f11", true);
        f(f12, "12", false);
        f(f13, "name 13", true);
        f(f14, "f14", true);
        f(f15, "f15", false);
        f(f16, "16", true);
        f(f17, "name 17", true);
        f(f18, "f18", false);
        f(f19, "f19", true);
        f(f20, "20", true);
        f(f21, "name 21", false);
        f(f22, "f22", true);
        f(f23, "f23", true);
        f(f24, "24", false);
        f(f25, "name 25", true);
        f(f26, "f26", true);
        f(f27, "f27", false);
        f(f28, "28", true);
        f(f29, "name 29", true);
        f(f30, "f30", false);
        f(f31, "f31", true);
        f(f32, "32", true);
        f(f33, "name 33", false);
        f(f34, "f34", true);
        f(f35, "f35", true);
        f(f36, "36", false);
        f(f37, "name 37", true);
        f(f38, "f38", true);
        f(f39, "f39", false);
        f(f40, "40", true);
        f(f41, "name 41", true);
        f(f42, "f42", false);
        f(f43, "f43", true);
        f(f44, "44", true);
    }
    CONFIGOR_BIND(json::value, S45, OPTIONAL(f0, "0"),
                  REQUIRED(f1, "name 1"),
                  REQUIRED(f2),
                  OPTIONAL(f3),
                  REQUIRED(f4, "4"),
                  REQUIRED(f5, "name 5"),
                  OPTIONAL(f6),
                  REQUIRED(f7),
                  REQUIRED(f8, "8"),
                  OPTIONAL(f9, "name 9"),
                  REQUIRED(f10),
                  REQUIRED(f11),
                  OPTIONAL(f12, "12"),
                  REQUIRED(f13, "name 13"),
                  REQUIRED(f14),
                  OPTIONAL(f15),
                  REQUIRED(f16, "16"),
                  REQUIRED(f17, "name 17"),
                  OPTIONAL(f18),
                  REQUIRED(f19),
                  REQUIRED(f20, "20"),
                  OPTIONAL(f21, "name 21"),
                  REQUIRED(f22),
                  REQUIRED(f23),
                  OPTIONAL(f24, "24"),
                  REQUIRED(f25, "name 25"),
                  REQUIRED(f26),
                  OPTIONAL(f27),
                  REQUIRED(f28, "28"),
                  REQUIRED(f29, "name 29"),
                  OPTIONAL(f30),
                  REQUIRED(f31),
                  REQUIRED(f32, "32"),
                  OPTIONAL(f33, "name 33"),
                  REQUIRED(f34),
                  REQUIRED(f35),
                  OPTIONAL(f36, "36"),
                  REQUIRED(f37, "name 37"),
                  REQUIRED(f38),
                  OPTIONAL(f39),
                  REQUIRED(f40, "40"),
                  REQUIRED(f41, "name 41"),
                  OPTIONAL(f42),
                  REQUIRED(f43),
                  REQUIRED(f44, "44"))
};

struct S46
{
    std::shared_ptr<int> f0{};
    double f1{};
    int f2{};
    std::map<std::string, std::string> f3{};
    std::vector<int> f4{};
    std::string f5{};
    int64_t f6{};
    Inner f7{};
    bool f8{};
    std::list<Inner> f9{};
    std::shared_ptr<int> f10{};
    double f11{};
    int f12{};
    std::map<std::string, std::string> f13{};
    std::vector<int> f14{};
    std::string f15{};
    int64_t f16{};
    Inner f17{};
    bool f18{};
    std::list<Inner> f19{};
    std::shared_ptr<int> f20{};
    double f21{};
    int f22{};
    std::map<std::string, std::string> f23{};
    std::vector<int> f24{};
    std::string f25{};
    int64_t f26{};
    Inner f27{};
    bool f28{};
    std::list<Inner> f29{};
    std::shared_ptr<int> f30{};
    double f31{};
    int f32{};
    std::map<std::string, std::string> f33{};
    std::vector<int> f34{};
    std::string f35{};
    int64_t f36{};
    Inner f37{};
    bool f38{};
    std::list<Inner> f39{};
    std::shared_ptr<int> f40{};
    double f41{};
    int f42{};
    std::map<std::string, std::string> f43{};
    std::vector<int> f44{};
    std::string f45{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", true);
        f(f1, "f1", false);
        f(f2, "f2", true);
        f(f3, "\303\2513", true);
        f(f4, "4", false);
        f(f5, "f5", true);
        f(f6, "f6", true);
        f(f7, "", false);
        f(f8, "8", true);
        f(f9, "f9", true);
        f(f10, "f10", false);
        f(f11, "\303\25111", true);
        f(f12, "12", true);
        f(f13, "f13", false);
        f(f14, "f14", true);
        f(f15, "\303\25115", true);
        f(f16, "16", false);
        f(f17, "f17", true);
        f(f18, "f18", true);
        f(f19, "\303\25119", false);
        f(f20, "20", true);
        f(f21, "f21", true);
        f(f22, "f22", false);
        f(f23, "\303\25123", true);
        f(f24, "24", true);
        f(f25, "f25", false);
        f(f26, "f26", true);
        f(f27, "\303\25127", true);
        f(f28, "28", false);
        f(f29, "f29", true);
        f(f30, "f30", true);
        f(f31, "\303\25131", false);
        f(f32, "32", true);
        f(f33, "f33", true);
        f(f34, "f34", false);
        f(f35, "\303\25135", true);
        f(f36, "36", true);
        f(f37, "f37", false);
        f(f38, "f38", true);
        f(f39, "\303\25139", true);
        f(f40, "40", false);
        f(f41, "f41", true);
        f(f42, "f42", true);
        f(f43, "\303\25143", false);
        f(f44, "44", true);
        f(f45, "f45", true);
    }
    CONFIGOR_BIND(json::value, S46, REQUIRED(f0, "0"),
                  OPTIONAL(f1),
                  REQUIRED(f2),
                  REQUIRED(f3, "\303\2513"),
                  OPTIONAL(f4, "4"),
                  REQUIRED(f5),
                  REQUIRED(f6),
                  OPTIONAL(f7, ""),
                  REQUIRED(f8, "8"),
                  REQUIRED(f9),
                  OPTIONAL(f10),
                  REQUIRED(f11, "\303\25111"),
                  REQUIRED(f12, "12"),
                  OPTIONAL(f13),
                  REQUIRED(f14),
                  REQUIRED(f15, "\303\25115"),
                  OPTIONAL(f16, "16"),
                  REQUIRED(f17),
                  REQUIRED(f18),
                  OPTIONAL(f19, "\303\25119"),
                  REQUIRED(f20, "20"),
                  REQUIRED(f21),
                  OPTIONAL(f22),
                  REQUIRED(f23, "\303\25123"),
                  REQUIRED(f24, "24"),
                  OPTIONAL(f25),
                  REQUIRED(f26),
                  REQUIRED(f27, "\303\25127"),
                  OPTIONAL(f28, "28"),
                  REQUIRED(f29),
                  REQUIRED(f30),
                  OPTIONAL(f31, "\303\25131"),
                  REQUIRED(f32, "32"),
                  REQUIRED(f33),
                  OPTIONAL(f34),
                  REQUIRED(f35, "\303\25135"),
                  REQUIRED(f36, "36"),
                  OPTIONAL(f37),
                  REQUIRED(f38),
                  REQUIRED(f39, "\303\25139"),
                  OPTIONAL(f40, "40"),
                  REQUIRED(f41),
                  REQUIRED(f42),
                  OPTIONAL(f43, "\303\25143"),
                  REQUIRED(f44, "44"),
                  REQUIRED(f45))
};

struct S47
{
    std::map<std::string, std::string> f0{};
    std::vector<int> f1{};
    std::string f2{};
    int64_t f3{};
    Inner f4{};
    bool f5{};
    std::list<Inner> f6{};
    std::shared_ptr<int> f7{};
    double f8{};
    int f9{};
    std::map<std::string, std::string> f10{};
    std::vector<int> f11{};
    std::string f12{};
    int64_t f13{};
    Inner f14{};
    bool f15{};
    std::list<Inner> f16{};
    std::shared_ptr<int> f17{};
    double f18{};
    int f19{};
    std::map<std::string, std::string> f20{};
    std::vector<int> f21{};
    std::string f22{};
    int64_t f23{};
    Inner f24{};
    bool f25{};
    std::list<Inner> f26{};
    std::shared_ptr<int> f27{};
    double f28{};
    int f29{};
    std::map<std::string, std::string> f30{};
    std::vector<int> f31{};
    std::string f32{};
    int64_t f33{};
    Inner f34{};
    bool f35{};
    std::list<Inner> f36{};
    std::shared_ptr<int> f37{};
    double f38{};
    int f39{};
    std::map<std::string, std::string> f40{};
    std::vector<int> f41{};
    std::string f42{};
    int64_t f43{};
    Inner f44{};
    bool f45{};
    std::list<Inner> f46{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", true);
        f(f2, "n\"2", false);
        f(f3, "\303\2513", true);
        f(f4, "f4", true);
        f(f5, "f5", false);
        f(f6, "n\"6", true);
        f(f7, "\303\2517", true);
        f(f8, "f8", false);
        f(f9, "f9", true);
        f(f10, "n\"10", true);
        f(f11, "\303\25111", false);
        f(f12, "f12", true);
        f(f13, "f13", true);
        f(f14, "n\"14", false);
        f(f15, "\303\25115", true);
        f(f16, "f16", true);
        f(f17, "f17", false);
        f(f18, "n\"18", true);
        f(f19, "\303\25119", true);
        f(f20, "f20", false);
        f(f21, "f21", true);
        f(f22, "n\"22", true);
        f(f23, "\303\25123", false);
        f(f24, "f24", true);
        f(f25, "f25", true);
        f(f26, "n\"26", false);
        f(f27, "\303\25127", true);
        f(f28, "f28", true);
        f(f29, "f29", false);
        f(f30, "n\"30", true);
        f(f31, "\303\25131", true);
        f(f32, "f32", false);
        f(f33, "f33", true);
        f(f34, "n\"34", true);
        f(f35, "\303\25135", false);
        f(f36, "f36", true);
        f(f37, "f37", true);
        f(f38, "n\"38", false);
        f(f39, "\303\25139", true);
        f(f40, "f40", true);
        f(f41, "f41", false);
        f(f42, "n\"42", true);
        f(f43, "\303\25143", true);
        f(f44, "f44", false);
        f(f45, "f45", true);
        f(f46, "n\"46", true);
    }
    CONFIGOR_BIND(json::value, S47, REQUIRED(f0),
                  REQUIRED(f1),
                  OPTIONAL(f2, "n\"2"),
                  REQUIRED(f3, "\303\2513"),
                  REQUIRED(f4),
                  OPTIONAL(f5),
                  REQUIRED(f6, "n\"6"),
                  REQUIRED(f7, "\303\2517"),
                  OPTIONAL(f8),
                  REQUIRED(f9),
                  REQUIRED(f10, "n\"10"),
                  OPTIONAL(f11, "\303\25111"),
                  REQUIRED(f12),
                  REQUIRED(f13),
                  OPTIONAL(f14, "n\"14"),
                  REQUIRED(f15, "\303\25115"),
                  REQUIRED(f16),
                  OPTIONAL(f17),
                  REQUIRED(f18, "n\"18"),
                  REQUIRED(f19, "\303\25119"),
                  OPTIONAL(f20),
                  REQUIRED(f21),
                  REQUIRED(f22, "n\"22"),
                  OPTIONAL(f23, "\303\25123"),
                  REQUIRED(f24),
                  REQUIRED(f25),
                  OPTIONAL(f26, "n\"26"),
                  REQUIRED(f27, "\303\25127"),
                  REQUIRED(f28),
                  OPTIONAL(f29),
                  REQUIRED(f30, "n\"30"),
                  REQUIRED(f31, "\303\25131"),
                  OPTIONAL(f32),
                  REQUIRED(f33),
                  REQUIRED(f34, "n\"34"),
                  OPTIONAL(f35, "\303\25135"),
                  REQUIRED(f36),
                  REQUIRED(f37),
                  OPTIONAL(f38, "n\"38"),
                  REQUIRED(f39, "\303\25139"),
                  REQUIRED(f40),
                  OPTIONAL(f41),
                  REQUIRED(f42, "n\"42"),
                  REQUIRED(f43, "\303\25143"),
                  OPTIONAL(f44),
                  REQUIRED(f45),
                  REQUIRED(f46, "n\"46"))
};

}  // namespace
PROP(structs_5, 360, 9000)
{
    static void (*const fn[])(Src&, Ctx&) = { &bound<json::value, S45>, &bound<json::value, S46>, &bound<json::value, S47> };
    fn[s.draw(3)](s, c);
}
