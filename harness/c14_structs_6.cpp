// written by gen_c14.py
#define ENGINE_NO_MAIN
#include "c14.hpp"
using namespace c14;
namespace
{
struct S48
{
    int64_t f0{};
    Inner f1{};
    bool f2{};
    std::list<Inner> f3{};
    std::shared_ptr<int> f4{};
    double f5{};
    int f6{};
    std::map<std::string, std::string> f7{};
    std::vector<int> f8{};
    std::string f9{};
    int64_t f10{};
    Inner f11{};
    bool f12{};
    std::list<Inner> f13{};
    std::shared_ptr<int> f14{};
    double f15{};
    int f16{};
    std::map<std::string, std::string> f17{};
    std::vector<int> f18{};
    std::string f19{};
    int64_t f20{};
    Inner f21{};
    bool f22{};
    std::list<Inner> f23{};
    std::shared_ptr<int> f24{};
    double f25{};
    int f26{};
    std::map<std::string, std::string> f27{};
    std::vector<int> f28{};
    std::string f29{};
    int64_t f30{};
    Inner f31{};
    bool f32{};
    std::list<Inner> f33{};
    std::shared_ptr<int> f34{};
    double f35{};
    int f36{};
    std::map<std::string, std::string> f37{};
    std::vector<int> f38{};
    std::string f39{};
    int64_t f40{};
    Inner f41{};
    bool f42{};
    std::list<Inner> f43{};
    std::shared_ptr<int> f44{};
    double f45{};
    int f46{};
    std::map<std::string, std::string> f47{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "n\"1", true);
        f(f2, "\303\2512", true);
        f(f3, "f3", false);
        f(f4, "f4", true);
        f(f5, "n\"5", true);
        f(f6, "\303\2516", false);
        f(f7, "f7", true);
        f(f8, "f8", true);
        f(f9, "", false);
        f(f10, "\303\25110", true);
        f(f11, "f11", true);
        f(f12, "f12", false);
        f(f13, "n\"13", true);
        f(f14, "\303\25114", true);
        f(f15, "f15", false);
        f(f16, "f16", true);
        f(f17, "n\"17", true);
        f(f18, "\303\25118", false);
        f(f19, "f19", true);
        f(f20, "f20", true);
        f(f21, "n\"21", false);
        f(f22, "\303\25122", true);
        f(f23, "f23", true);
        f(f24, "f24", false);
        f(f25, "n\"25", true);
        f(f26, "\303\25126", true);
        f(f27, "f27", false);
        f(f28, "f28", true);
        f(f29, "n\"29", true);
        f(f30, "\303\25130", false);
        f(f31, "f31", true);
        f(f32, "f32", true);
        f(f33, "n\"33", false);
        f(f34, "\303\25134", true);
        f(f35, "f35", true);
        f(f36, "f36", false);
        f(f37, "n\"37", true);
        f(f38, "\303\25138", true);
        f(f39, "f39", false);
        f(f40, "f40", true);
        f(f41, "n\"41", true);
        f(f42, "\303\25142", false);
        f(f43, "f43", true);
        f(f44, "f44", true);
        f(f45, "n\"45", false);
        f(f46, "\303\25146", true);
        f(f47, "f47", true);
    }
    CONFIGOR_BIND(json::value, S48, OPTIONAL(f0),
                  REQUIRED(f1, "n\"1"),
                  REQUIRED(f2, "\303\2512"),
                  OPTIONAL(f3),
                  REQUIRED(f4),
                  REQUIRED(f5, "n\"5"),
                  OPTIONAL(f6, "\303\2516"),
                  REQUIRED(f7),
                  REQUIRED(f8),
                  OPTIONAL(f9, ""),
                  REQUIRED(f10, "\303\25110"),
                  REQUIRED(f11),
                  OPTIONAL(f12),
                  REQUIRED(f13, "n\"13"),
                  REQUIRED(f14, "\303\25114"),
                  OPTIONAL(f15),
                  REQUIRED(f16),
                  REQUIRED(f17, "n\"17"),
                  OPTIONAL(f18, "\303\25118"),
                  REQUIRED(f19),
                  REQUIRED(f20),
                  OPTIONAL(f21, "n\"21"),
                  REQUIRED(f22, "\303\25122"),
                  REQUIRED(f23),
                  OPTIONAL(f24),
                  REQUIRED(f25, "n\"25"),
                  REQUIRED(f26, "\303\25126"),
                  OPTIONAL(f27),
                  REQUIRED(f28),
                  REQUIRED(f29, "n\"29"),
                  OPTIONAL(f30, "\303\25130"),
                  REQUIRED(f31),
                  REQUIRED(f32),
                  OPTIONAL(f33, "n\"33"),
                  REQUIRED(f34, "\303\25134"),
                  REQUIRED(f35),
                  OPTIONAL(f36),
                  REQUIRED(f37, "n\"37"),
                  REQUIRED(f38, "\303\25138"),
                  OPTIONAL(f39),
                  REQUIRED(f40),
                  REQUIRED(f41, "n\"41"),
                  OPTIONAL(f42, "\303\25142"),
                  REQUIRED(f43),
                  REQUIRED(f44),
                  OPTIONAL(f45, "n\"45"),
                  REQUIRED(f46, "\303\25146"),
                  REQUIRED(f47))
};

struct S49
{
    std::list<Inner> f0{};
    std::shared_ptr<int> f1{};
    double f2{};
    int f3{};
    std::map<std::string, std::string> f4{};
    std::vector<int> f5{};
    std::string f6{};
    int64_t f7{};
    Inner f8{};
    bool f9{};
    std::list<Inner> f10{};
    std::shared_ptr<int> f11{};
    double f12{};
    int f13{};
    std::map<std::string, std::string> f14{};
    std::vector<int> f15{};
    std::string f16{};
    int64_t f17{};
    Inner f18{};
    bool f19{};
    std::list<Inner> f20{};
    std::shared_ptr<int> f21{};
    double f22{};
    int f23{};
    std::map<std::string, std::string> f24{};
    std::vector<int> f25{};
    std::string f26{};
    int64_t f27{};
    Inner f28{};
    bool f29{};
    std::list<Inner> f30{};
    std::shared_ptr<int> f31{};
    double f32{};
    int f33{};
    std::map<std::string, std::string> f34{};
    std::vector<int> f35{};
    std::string f36{};
    int64_t f37{};
    Inner f38{};
    bool f39{};
    std::list<Inner> f40{};
    std::shared_ptr<int> f41{};
    double f42{};
    int f43{};
    std::map<std::string, std::string> f44{};
    std::vector<int> f45{};
    std::string f46{};
    int64_t f47{};
    Inner f48{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", true);
        f(f1, "n\"1", false);
        f(f2, "f2", true);
        f(f3, "f3", true);
        f(f4, "name 4", false);
        f(f5, "n\"5", true);
        f(f6, "f6", true);
        f(f7, "f7", false);
        f(f8, "name 8", true);
        f(f9, "n\"9", true);
        f(f10, "f10", false);
        f(f11, "f11", true);
        f(f12, "name 12", true);
        f(f13, "n\"13", false);
        f(f14, "f14", true);
        f(f15, "f15", true);
        f(f16, "name 16", false);
        f(f17, "n\"17", true);
        f(f18, "f18", true);
        f(f19, "f19", false);
        f(f20, "name 20", true);
        f(f21, "n\"21", true);
        f(f22, "f22", false);
        f(f23, "f23", true);
        f(f24, "name 24", true);
        f(f25, "n\"25", false);
        f(f26, "f26", true);
        f(f27, "f27", true);
        f(f28, "name 28", false);
        f(f29, "n\"29", true);
        f(f30, "f30", true);
        f(f31, "f31", false);
        f(f32, "name 32", true);
        f(f33, "n\"33", true);
        f(f34, "f34", false);
        f(f35, "f35", true);
        f(f36, "name 36", true);
        f(f37, "n\"37", false);
        f(f38, "f38", true);
        f(f39, "f39", true);
        f(f40, "name 40", false);
        f(f41, "n\"41", true);
        f(f42, "f42", true);
        f(f43, "f43", false);
        f(f44, "name 44", true);
        f(f45, "n\"45", true);
        f(f46, "f46", false);
        f(f47, "f47", true);
        f(f48, "name 48", true);
    }
    CONFIGOR_BIND(json::value, S49, REQUIRED(f0, "name 0"),
                  OPTIONAL(f1, "n\"1"),
                  REQUIRED(f2),
                  REQUIRED(f3),
                  OPTIONAL(f4, "name 4"),
                  REQUIRED(f5, "n\"5"),
                  REQUIRED(f6),
                  OPTIONAL(f7),
                  REQUIRED(f8, "name 8"),
                  REQUIRED(f9, "n\"9"),
                  OPTIONAL(f10),
                  REQUIRED(f11),
                  REQUIRED(f12, "name 12"),
                  OPTIONAL(f13, "n\"13"),
                  REQUIRED(f14),
                  REQUIRED(f15),
                  OPTIONAL(f16, "name 16"),
                  REQUIRED(f17, "n\"17"),
                  REQUIRED(f18),
                  OPTIONAL(f19),
                  REQUIRED(f20, "name 20"),
                  REQUIRED(f21, "n\"21"),
                  OPTIONAL(f22),
                  REQUIRED(f23),
                  REQUIRED(f24, "name 24"),
                  OPTIONAL(f25, "n\"25"),
                  REQUIRED(f26),
                  REQUIRED(f27),
                  OPTIONAL(f28, "name 28"),
                  REQUIRED(f29, "n\"29"),
                  REQUIRED(f30),
                  OPTIONAL(f31),
                  REQUIRED(f32, "name 32"),
                  REQUIRED(f33, "n\"33"),
                  OPTIONAL(f34),
                  REQUIRED(f35),
                  REQUIRED(f36, "name 36"),
                  OPTIONAL(f37, "n\"37"),
                  REQUIRED(f38),
                  REQUIRED(f39),
                  OPTIONAL(f40, "name 40"),
                  REQUIRED(f41, "n\"41"),
                  REQUIRED(f42),
                  OPTIONAL(f43),
                  REQUIRED(f44, "name 44"),
                  REQUIRED(f45, "n\"45"),
                  OPTIONAL(f46),
                  REQUIRED(f47),
                  REQUIRED(f48, "name 48"))
};

struct S50
{
    int f0{};
    std::map<std::string, std::string> f1{};
    std::vector<int> f2{};
    std::string f3{};
    int64_t f4{};
    Inner f5{};
    bool f6{};
    std::list<Inner> f7{};
    std::shared_ptr<int> f8{};
    double f9{};
    int f10{};
    std::map<std::string, std::string> f11{};
    std::vector<int> f12{};
    std::string f13{};
    int64_t f14{};
    Inner f15{};
    bool f16{};
    std::list<Inner> f17{};
    std::shared_ptr<int> f18{};
    double f19{};
    int f20{};
    std::map<std::string, std::string> f21{};
    std::vector<int> f22{};
    std::string f23{};
    int64_t f24{};
    Inner f25{};
    bool f26{};
    std::list<Inner> f27{};
    std::shared_ptr<int> f28{};
    double f29{};
    int f30{};
    std::map<std::string, std::string> f31{};
    std::vector<int> f32{};
    std::string f33{};
    int64_t f34{};
    Inner f35{};
    bool f36{};
    std::list<Inner> f37{};
    std::shared_ptr<int> f38{};
    double f39{};
    int f40{};
    std::map<std::string, std::string> f41{};
    std::vector<int> f42{};
    std::string f43{};
    int64_t f44{};
    Inner f45{};
    bool f46{};
    std::list<Inner> f47{};
    std::shared_ptr<int> f48{};
    double f49{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", true);
        f(f1, "f1", true);
        f(f2, "f2", false);
        f(f3, "3", true);
        f(f4, "name 4", true);
        f(f5, "f5", false);
        f(f6, "f6", true);
        f(f7, "7", true);
        f(f8, "name 8", false);
        f(f9, "f9", true);
        f(f10, "f10", true);
        f(f11, "", false);
        f(f12, "name 12", true);
        f(f13, "f13", true);
        f(f14, "f14", false);
        f(f15, "15", true);
        f(f16, "name 16", true);
        f(f17, "f17", false);
        f(f18, "f18", true);
        f(f19, "19", true);
        f(f20, "name 20", false);
        f(f21, "f21", true);
        f(f22, "f22", true);
        f(f23, "23", false);
        f(f24, "name 24", true);
        f(f25, "f25", true);
        f(f26, "f26", false);
        f(f27, "27", true);
        f(f28, "name 28", true);
        f(f29, "f29", false);
        f(f30, "f30", true);
        f(f31, "31", true);
        f(f32, "name 32", false);
        f(f33, "f33", true);
        f(f34, "f34", true);
        f(f35, "35", false);
        f(f36, "name 36", true);
        f(f37, "f37", true);
        f(f38, "f38", false);
        f(f39, "39", true);
        f(f40, "name 40", true);
        f(f41, "f41", false);
        f(f42, "f42", true);
        f(f43, "43", true);
        f(f44, "name 44", false);
        f(f45, "f45", true);
        f(f46, "f46", true);
        f(f47, "47", false);
        f(f48, "name 48", true);
        f(f49, "f49", true);
    }
    CONFIGOR_BIND(json::value, S50, REQUIRED(f0, "name 0"),
                  REQUIRED(f1),
                  OPTIONAL(f2),
                  REQUIRED(f3, "3"),
                  REQUIRED(f4, "name 4"),
                  OPTIONAL(f5),
                  REQUIRED(f6),
                  REQUIRED(f7, "7"),
                  OPTIONAL(f8, "name 8"),
                  REQUIRED(f9),
                  REQUIRED(f10),
                  OPTIONAL(f11, ""),
                  REQUIRED(f12, "name 12"),
                  REQUIRED(f13),
                  OPTIONAL(f14),
                  REQUIRED(f15, "15"),
                  REQUIRED(f16, "name 16"),
                  OPTIONAL(f17),
                  REQUIRED(f18),
                  REQUIRED(f19, "19"),
                  OPTIONAL(f20, "name 20"),
                  REQUIRED(f21),
                  REQUIRED(f22),
                  OPTIONAL(f23, "23"),
                  REQUIRED(f24, "name 24"),
                  REQUIRED(f25),
                  OPTIONAL(f26),
                  REQUIRED(f27, "27"),
                  REQUIRED(f28, "name 28"),
                  OPTIONAL(f29),
                  REQUIRED(f30),
                  REQUIRED(f31, "31"),
                  OPTIONAL(f32, "name 32"),
                  REQUIRED(f33),
                  REQUIRED(f34),
                  OPTIONAL(f35, "35"),
                  REQUIRED(f36, "name 36"),
                  REQUIRED(f37),
                  OPTIONAL(f38),
                  REQUIRED(f39, "39"),
                  REQUIRED(f40, "name 40"),
                  OPTIONAL(f41),
                  REQUIRED(f42),
                  REQUIRED(f43, "43"),
                  OPTIONAL(f44, "name 44"),
                  REQUIRED(f45),
                  REQUIRED(f46),
                  OPTIONAL(f47, "47"),
                  REQUIRED(f48, "name 48"),
                  REQUIRED(f49))
};

}  // namespace
PROP(structs_6, 360, 9000)
{
    static void (*const fn[])(Src&, Ctx&) = { &bound<json::value, S48>, &bound<json::value, S49>, &bound<json::value, S50> };
    fn[s.draw(3)](s, c);
}
