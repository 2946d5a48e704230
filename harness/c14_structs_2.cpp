// written by gen_c14.py
#define ENGINE_NO_MAIN
#include "c14.hpp"
using namespace c14;
namespace
{
struct S26
{
    std::shared_ptr<int> f0{};
    double f1{};
    int f2{};
    std::map<std::string, std::string> f3{};
    std::vector<int> f4{};
    std::string f5{};
    int64_t f6{};
    Inner f7{};
    bool f8{};
    std::list<Inner> f9{};
    std::shared_ptr<int> f10{};
    double f11{};
    int f12{};
    std::map<std::string, std::string> f13{};
    std::vector<int> f14{};
    std::string f15{};
    int64_t f16{};
    Inner f17{};
    bool f18{};
    std::list<Inner> f19{};
    std::shared_ptr<int> f20{};
    double f21{};
    int f22{};
    std::map<std::string, std::string> f23{};
    std::vector<int> f24{};
    std::string f25{};
    template <class F>
    void each(F& f)
    {
        f(f0, "", true);
        f(f1, "f1", true);
        f(f2, "f2", false);
        f(f3, "3", true);
        f(f4, "name 4", true);
        f(f5, "f5", false);
        f(f6, "f6", true);
        f(f7, "7", true);
        f(f8, "name 8", false);
        f(f9, "f9", true);
        f(f10, "f10", true);
        f(f11, "11", false);
        f(f12, "name 12", true);
        f(f13, "f13", true);
        f(f14, "f14", false);
        f(f15, "15", true);
        f(f16, "name 16", true);
        f(f17, "f17", false);
        f(f18, "f18", true);
        f(f19, "19", true);
        f(f20, "name 20", false);
        f(f21, "f21", true);
        f(f22, "f22", true);
        f(f23, "23", false);
        f(f24, "name 24", true);
        f(f25, "f25", true);
    }
    CONFIGOR_BIND(json::value, S26, REQUIRED(f0, ""),
                  REQUIRED(f1),
                  OPTIONAL(f2),
                  REQUIRED(f3, "3"),
                  REQUIRED(f4, "name 4"),
                  OPTIONAL(f5),
                  REQUIRED(f6),
                  REQUIRED(f7, "7"),
                  OPTIONAL(f8, "name 8"),
                  REQUIRED(f9),
                  REQUIRED(f10),
                  OPTIONAL(f11, "11"),
                  REQUIRED(f12, "name 12"),
                  REQUIRED(f13),
                  OPTIONAL(f14),
                  REQUIRED(f15, "15"),
                  REQUIRED(f16, "name 16"),
                  OPTIONAL(f17),
                  REQUIRED(f18),
                  REQUIRED(f19, "19"),
                  OPTIONAL(f20, "name 20"),
                  REQUIRED(f21),
                  REQUIRED(f22),
                  OPTIONAL(f23, "23"),
                  REQUIRED(f24, "name 24"),
                  REQUIRED(f25))
};

struct S27
{
    std::map<std::string, std::string> f0{};
    std::vector<int> f1{};
    std::string f2{};
    int64_t f3{};
    Inner f4{};
    bool f5{};
    std::list<Inner> f6{};
    std::shared_ptr<int> f7{};
    double f8{};
    int f9{};
    std::map<std::string, std::string> f10{};
    std::vector<int> f11{};
    std::string f12{};
    int64_t f13{};
    Inner f14{};
    bool f15{};
    std::list<Inner> f16{};
    std::shared_ptr<int> f17{};
    double f18{};
    int f19{};
    std::map<std::string, std::string> f20{};
    std::vector<int> f21{};
    std::string f22{};
    int64_t f23{};
    Inner f24{};
    bool f25{};
    std::list<Inner> f26{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "f1", true);
        f(f2, "2", true);
        f(f3, "name 3", false);
        f(f4, "f4", true);
        f(f5, "f5", true);
        f(f6, "6", false);
        f(f7, "name 7", true);
        f(f8, "f8", true);
        f(f9, "f9", false);
        f(f10, "10", true);
        f(f11, "name 11", true);
        f(f12, "f12", false);
        f(f13, "f13", true);
        f(f14, "14", true);
        f(f15, "name 15", false);
        f(f16, "f16", true);
        f(f17, "f17", true);
        f(f18, "18", false);
        f(f19, "name 19", true);
        f(f20, "f20", true);
        f(f21, "f21", false);
        f(f22, "22", true);
        f(f23, "name 23", true);
        f(f24, "f24", false);
        f(f25, "f25", true);
        f(f26, "26", true);
    }
    CONFIGOR_BIND(json::value, S27, OPTIONAL(f0),
                  REQUIRED(f1),
                  REQUIRED(f2, "2"),
                  OPTIONAL(f3, "name 3"),
                  REQUIRED(f4),
                  REQUIRED(f5),
                  OPTIONAL(f6, "6"),
                  REQUIRED(f7, "name 7"),
                  REQUIRED(f8),
                  OPTIONAL(f9),
                  REQUIRED(f10, "10"),
                  REQUIRED(f11, "name 11"),
                  OPTIONAL(f12),
                  REQUIRED(f13),
                  REQUIRED(f14, "14"),
                  OPTIONAL(f15, "name 15"),
                  REQUIRED(f16),
                  REQUIRED(f17),
                  OPTIONAL(f18, "18"),
                  REQUIRED(f19, "name 19"),
                  REQUIRED(f20),
                  OPTIONAL(f21),
                  REQUIRED(f22, "22"),
                  REQUIRED(f23, "name 23"),
                  OPTIONAL(f24),
                  REQUIRED(f25),
                  REQUIRED(f26, "26"))
};

struct S28
{
    int64_t f0{};
    Inner f1{};
    bool f2{};
    std::list<Inner> f3{};
    std::shared_ptr<int> f4{};
    double f5{};
    int f6{};
    std::map<std::string, std::string> f7{};
    std::vector<int> f8{};
    std::string f9{};
    int64_t f10{};
    Inner f11{};
    bool f12{};
    std::list<Inner> f13{};
    std::shared_ptr<int> f14{};
    double f15{};
    int f16{};
    std::map<std::string, std::string> f17{};
    std::vector<int> f18{};
    std::string f19{};
    int64_t f20{};
    Inner f21{};
    bool f22{};
    std::list<Inner> f23{};
    std::shared_ptr<int> f24{};
    double f25{};
    int f26{};
    std::map<std::string, std::string> f27{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "\303\2511", false);
        f(f2, "", true);
        f(f3, "f3", true);
        f(f4, "f4", false);
        f(f5, "\303\2515", true);
        f(f6, "6", true);
        f(f7, "f7", false);
        f(f8, "f8", true);
        f(f9, "\303\2519", true);
        f(f10, "10", false);
        f(f11, "f11", true);
        f(f12, "f12", true);
        f(f13, "\303\25113", false);
        f(f14, "14", true);
        f(f15, "f15", true);
        f(f16, "f16", false);
        f(f17, "\303\25117", true);
        f(f18, "18", true);
        f(f19, "f19", false);
        f(f20, "f20", true);
        f(f21, "\303\25121", true);
        f(f22, "22", false);
        f(f23, "f23", true);
        f(f24, "f24", true);
        f(f25, "\303\25125", false);
        f(f26, "26", true);
        f(f27, "f27", true);
    }
    CONFIGOR_BIND(json::value, S28, REQUIRED(f0),
                  OPTIONAL(f1, "\303\2511"),
                  REQUIRED(f2, ""),
                  REQUIRED(f3),
                  OPTIONAL(f4),
                  REQUIRED(f5, "\303\2515"),
                  REQUIRED(f6, "6"),
                  OPTIONAL(f7),
                  REQUIRED(f8),
                  REQUIRED(f9, "\303\2519"),
                  OPTIONAL(f10, "10"),
                  REQUIRED(f11),
                  REQUIRED(f12),
                  OPTIONAL(f13, "\303\25113"),
                  REQUIRED(f14, "14"),
                  REQUIRED(f15),
                  OPTIONAL(f16),
                  REQUIRED(f17, "\303\25117"),
                  REQUIRED(f18, "18"),
                  OPTIONAL(f19),
                  REQUIRED(f20),
                  REQUIRED(f21, "\303\25121"),
                  OPTIONAL(f22, "22"),
                  REQUIRED(f23),
                  REQUIRED(f24),
                  OPTIONAL(f25, "\303\25125"),
                  REQUIRED(f26, "26"),
                  REQUIRED(f27))
};

struct S29
{
    std::list<Inner> f0{};
    std::shared_ptr<int> f1{};
    double f2{};
    int f3{};
    std::map<std::string, std::string> f4{};
    std::vector<int> f5{};
    std::string f6{};
    int64_t f7{};
    Inner f8{};
    bool f9{};
    std::list<Inner> f10{};
    std::shared_ptr<int> f11{};
    double f12{};
    int f13{};
    std::map<std::string, std::string> f14{};
    std::vector<int> f15{};
    std::string f16{};
    int64_t f17{};
    Inner f18{};
    bool f19{};
    std::list<Inner> f20{};
    std::shared_ptr<int> f21{};
    double f22{};
    int f23{};
    std::map<std::string, std::string> f24{};
    std::vector<int> f25{};
    std::string f26{};
    int64_t f27{};
    Inner f28{};
    template <class F>
    void each(F& f)
    {
        f(f0, "n\"0", true);
        f(f1, "\303\2511", true);
        f(f2, "f2", false);
        f(f3, "f3", true);
        f(f4, "n\"4", true);
        f(f5, "\303\2515", false);
        f(f6, "f6", true);
        f(f7, "f7", true);
        f(f8, "n\"8", false);
        f(f9, "\303\2519", true);
        f(f10, "f10", true);
        f(f11, "f11", false);
        f(f12, "n\"12", true);
        f(f13, "\303\25113", true);
        f(f14, "f14", false);
        f(f15, "f15", true);
        f(f16, "n\"16", true);
        f(f17, "\303\25117", false);
        f(f18, "f18", true);
        f(f19, "f19", true);
        f(f20, "n\"20", false);
        f(f21, "\303\25121", true);
        f(f22, "f22", true);
        f(f23, "f23", false);
        f(f24, "n\"24", true);
        f(f25, "\303\25125", true);
        f(f26, "f26", false);
        f(f27, "f27", true);
        f(f28, "n\"28", true);
    }
    CONFIGOR_BIND(json::value, S29, REQUIRED(f0, "n\"0"),
                  REQUIRED(f1, "\303\2511"),
                  OPTIONAL(f2),
                  REQUIRED(f3),
                  REQUIRED(f4, "n\"4"),
                  OPTIONAL(f5, "\303\2515"),
                  REQUIRED(f6),
                  REQUIRED(f7),
                  OPTIONAL(f8, "n\"8"),
                  REQUIRED(f9, "\303\2519"),
                  REQUIRED(f10),
                  OPTIONAL(f11),
                  REQUIRED(f12, "n\"12"),
                  REQUIRED(f13, "\303\25113"),
                  OPTIONAL(f14),
                  REQUIRED(f15),
                  REQUIRED(f16, "n\"16"),
                  OPTIONAL(f17, "\303\25117"),
                  REQUIRED(f18),
                  REQUIRED(f19),
                  OPTIONAL(f20, "n\"20"),
                  REQUIRED(f21, "\303\25121"),
                  REQUIRED(f22),
                  OPTIONAL(f23),
                  REQUIRED(f24, "n\"24"),
                  REQUIRED(f25, "\303\25125"),
                  OPTIONAL(f26),
                  REQUIRED(f27),
                  REQUIRED(f28, "n\"28"))
};

struct S30
{
    int f0{};
    std::map<std::string, std::string> f1{};
    std::vector<int> f2{};
    std::string f3{};
    int64_t f4{};
    Inner f5{};
    bool f6{};
    std::list<Inner> f7{};
    std::shared_ptr<int> f8{};
    double f9{};
    int f10{};
    std::map<std::string, std::string> f11{};
    std::vector<int> f12{};
    std::string f13{};
    int64_t f14{};
    Inner f15{};
    bool f16{};
    std::list<Inner> f17{};
    std::shared_ptr<int> f18{};
    double f19{};
    int f20{};
    std::map<std::string, std::string> f21{};
    std::vector<int> f22{};
    std::string f23{};
    int64_t f24{};
    Inner f25{};
    bool f26{};
    std::list<Inner> f27{};
    std::shared_ptr<int> f28{};
    double f29{};
    template <class F>
    void each(F& f)
    {
        f(f0, "\303\2510", false);
        f(f1, "f1", true);
        f(f2, "f2", true);
        f(f3, "n\"3", false);
        f(f4, "", true);
        f(f5, "f5", true);
        f(f6, "f6", false);
        f(f7, "n\"7", true);
        f(f8, "\303\2518", true);
        f(f9, "f9", false);
        f(f10, "f10", true);
        f(f11, "n\"11", true);
        f(f12, "\303\25112", false);
        f(f13, "f13", true);
        f(f14, "f14", true);
        f(f15, "n\"15", false);
        f(f16, "\303\25116", true);
        f(f17, "f17", true);
        f(f18, "f18", false);
        f(f19, "n\"19", true);
        f(f20, "\303\25120", true);
        f(f21, "f21", false);
        f(f22, "f22", true);
        f(f23, "n\"23", true);
        f(f24, "\303\25124", false);
        f(f25, "f25", true);
        f(f26, "f26", true);
        f(f27, "n\"27", false);
        f(f28, "\303\25128", true);
        f(f29, "f29", true);
    }
    CONFIGOR_BIND(json::value, S30, OPTIONAL(f0, "\303\2510"),
                  REQUIRED(f1),
                  REQUIRED(f2),
                  OPTIONAL(f3, "n\"3"),
                  REQUIRED(f4, ""),
                  REQUIRED(f5),
                  OPTIONAL(f6),
                  REQUIRED(f7, "n\"7"),
                  REQUIRED(f8, "\303\2518"),
                  OPTIONAL(f9),
                  REQUIRED(f10),
                  REQUIRED(f11, "n\"11"),
                  OPTIONAL(f12, "\303\25112"),
                  REQUIRED(f13),
                  REQUIRED(f14),
                  OPTIONAL(f15, "n\"15"),
                  REQUIRED(f16, "\303\25116"),
                  REQUIRED(f17),
                  OPTIONAL(f18),
                  REQUIRED(f19, "n\"19"),
                  REQUIRED(f20, "\303\25120"),
                  OPTIONAL(f21),
                  REQUIRED(f22),
                  REQUIRED(f23, "n\"23"),
                  OPTIONAL(f24, "\303\25124"),
                  REQUIRED(f25),
                  REQUIRED(f26),
                  OPTIONAL(f27, "n\"27"),
                  REQUIRED(f28, "\303\25128"),
                  REQUIRED(f29))
};

struct S31
{
    std::string f0{};
    int64_t f1{};
    Inner f2{};
    bool f3{};
    std::list<Inner> f4{};
    std::shared_ptr<int> f5{};
    double f6{};
    int f7{};
    std::map<std::string, std::string> f8{};
    std::vector<int> f9{};
    std::string f10{};
    int64_t f11{};
    Inner f12{};
    bool f13{};
    std::list<Inner> f14{};
    std::shared_ptr<int> f15{};
    double f16{};
    int f17{};
    std::map<std::string, std::string> f18{};
    std::vector<int> f19{};
    std::string f20{};
    int64_t f21{};
    Inner f22{};
    bool f23{};
    std::list<Inner> f24{};
    std::shared_ptr<int> f25{};
    double f26{};
    int f27{};
    std::map<std::string, std::string> f28{};
    std::vector<int> f29{};
    std::string f30{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", false);
        f(f2, "name 2", true);
        f(f3, "n\"3", true);
        f(f4, "f4", false);
        f(f5, "f5", true);
        f(f6, "name 6", true);
        f(f7, "n\"7", false);
        f(f8, "f8", true);
        f(f9, "f9", true);
        f(f10, "name 10", false);
        f(f11, "n\"11", true);
        f(f12, "f12", true);
        f(f13, "f13", false);
        f(f14, "name 14", true);
        f(f15, "n\"15", true);
        f(f16, "f16", false);
        f(f17, "f17", true);
        f(f18, "name 18", true);
        f(f19, "n\"19", false);
        f(f20, "f20", true);
        f(f21, "f21", true);
        f(f22, "name 22", false);
        f(f23, "n\"23", true);
        f(f24, "f24", true);
        f(f25, "f25", false);
        f(f26, "name 26", true);
        f(f27, "n\"27", true);
        f(f28, "f28", false);
        f(f29, "f29", true);
        f(f30, "name 30", true);
    }
    CONFIGOR_BIND(json::value, S31, REQUIRED(f0),
                  OPTIONAL(f1),
                  REQUIRED(f2, "name 2"),
                  REQUIRED(f3, "n\"3"),
                  OPTIONAL(f4),
                  REQUIRED(f5),
                  REQUIRED(f6, "name 6"),
                  OPTIONAL(f7, "n\"7"),
                  REQUIRED(f8),
                  REQUIRED(f9),
                  OPTIONAL(f10, "name 10"),
                  REQUIRED(f11, "n\"11"),
                  REQUIRED(f12),
                  OPTIONAL(f13),
                  REQUIRED(f14, "name 14"),
                  REQUIRED(f15, "n\"15"),
                  OPTIONAL(f16),
                  REQUIRED(f17),
                  REQUIRED(f18, "name 18"),
                  OPTIONAL(f19, "n\"19"),
                  REQUIRED(f20),
                  REQUIRED(f21),
                  OPTIONAL(f22, "name 22"),
                  REQUIRED(f23, "n\"23"),
                  REQUIRED(f24),
                  OPTIONAL(f25),
                  REQUIRED(f26, "name 26"),
                  REQUIRED(f27, "n\"27"),
                  OPTIONAL(f28),
                  REQUIRED(f29),
                  REQUIRED(f30, "name 30"))
};

struct S32
{
    bool f0{};
    std::list<Inner> f1{};
    std::shared_ptr<int> f2{};
    double f3{};
    int f4{};
    std::map<std::string, std::string> f5{};
    std::vector<int> f6{};
    std::string f7{};
    int64_t f8{};
    Inner f9{};
    bool f10{};
    std::list<Inner> f11{};
    std::shared_ptr<int> f12{};
    double f13{};
    int f14{};
    std::map<std::string, std::string> f15{};
    std::vector<int> f16{};
    std::string f17{};
    int64_t f18{};
    Inner f19{};
    bool f20{};
    std::list<Inner> f21{};
    std::shared_ptr<int> f22{};
    double f23{};
    int f24{};
    std::map<std::string, std::string> f25{};
    std::vector<int> f26{};
    std::string f27{};
    int64_t f28{};
    Inner f29{};
    bool f30{};
    std::list<Inner> f31{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "1", true);
        f(f2, "name 2", false);
        f(f3, "f3", true);
        f(f4, "f4", true);
        f(f5, "5", false);
        f(f6, "", true);
        f(f7, "f7", true);
        f(f8, "f8", false);
        f(f9, "9", true);
        f(f10, "name 10", true);
        f(f11, "f11", false);
        f(f12, "f12", true);
        f(f13, "13", true);
        f(f14, "name 14", false);
        f(f15, "f15", true);
        f(f16, "f16", true);
        f(f17, "17", false);
        f(f18, "name 18", true);
        f(f19, "f19", true);
        f(f20, "f20", false);
        f(f21, "21", true);
        f(f22, "name 22", true);
        f(f23, "f23", false);
        f(f24, "f24", true);
        f(f25, "25", true);
        f(f26, "name 26", false);
        f(f27, "f27", true);
        f(f28, "f28", true);
        f(f29, "29", false);
        f(f30, "name 30", true);
        f(f31, "f31", true);
    }
    CONFIGOR_BIND(json::value, S32, REQUIRED(f0),
                  REQUIRED(f1, "1"),
                  OPTIONAL(f2, "name 2"),
                  REQUIRED(f3),
                  REQUIRED(f4),
                  OPTIONAL(f5, "5"),
                  REQUIRED(f6, ""),
                  REQUIRED(f7),
                  OPTIONAL(f8),
                  REQUIRED(f9, "9"),
                  REQUIRED(f10, "name 10"),
                  OPTIONAL(f11),
                  REQUIRED(f12),
                  REQUIRED(f13, "13"),
                  OPTIONAL(f14, "name 14"),
                  REQUIRED(f15),
                  REQUIRED(f16),
                  OPTIONAL(f17, "17"),
                  REQUIRED(f18, "name 18"),
                  REQUIRED(f19),
                  OPTIONAL(f20),
                  REQUIRED(f21, "21"),
                  REQUIRED(f22, "name 22"),
                  OPTIONAL(f23),
                  REQUIRED(f24),
                  REQUIRED(f25, "25"),
                  OPTIONAL(f26, "name 26"),
                  REQUIRED(f27),
                  REQUIRED(f28),
                  OPTIONAL(f29, "29"),
                  REQUIRED(f30, "name 30"),
                  REQUIRED(f31))
};

struct S33
{
    double f0{};
    int f1{};
    std::map<std::string, std::string> f2{};
    std::vector<int> f3{};
    std::string f4{};
    int64_t f5{};
    Inner f6{};
    bool f7{};
    std::list<Inner> f8{};
    std::shared_ptr<int> f9{};
    double f10{};
    int f11{};
    std::map<std::string, std::string> f12{};
    std::vector<int> f13{};
    std::string f14{};
    int64_t f15{};
    Inner f16{};
    bool f17{};
    std::list<Inner> f18{};
    std::shared_ptr<int> f19{};
    double f20{};
    int f21{};
    std::map<std::string, std::string> f22{};
    std::vector<int> f23{};
    std::string f24{};
    int64_t f25{};
    Inner f26{};
    bool f27{};
    std::list<Inner> f28{};
    std::shared_ptr<int> f29{};
    double f30{};
    int f31{};
    std::map<std::string, std::string> f32{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", false);
        f(f1, "name 1", true);
        f(f2, "f2", true);
        f(f3, "f3", false);
        f(f4, "4", true);
        f(f5, "name 5", true);
        f(f6, "f6", false);
        f(f7, "f7", true);
        f(f8, "8", true);
        f(f9, "name 9", false);
        f(f10, "f10", true);
        f(f11, "f11", true);
        f(f12, "12", false);
        f(f13, "name 13", true);
        f(f14, "f14", true);
        f(f15, "f15", false);
        f(f16, "16", true);
        f(f17, "name 17", true);
        f(f18, "f18", false);
        f(f19, "f19", true);
        f(f20, "20", true);
        f(f21, "name 21", false);
        f(f22, "f22", true);
        f(f23, "f23", true);
        f(f24, "24", false);
        f(f25, "name 25", true);
        f(f26, "f26", true);
        f(f27, "f27", false);
        f(f28, "28", true);
        f(f29, "name 29", true);
        f(f30, "f30", false);
        f(f31, "f31", true);
        f(f32, "32", true);
    }
    CONFIGOR_BIND(json::value, S33, OPTIONAL(f0, "0"),
                  REQUIRED(f1, "name 1"),
                  REQUIRED(f2),
                  OPTIONAL(f3),
                  REQUIRED(f4, "4"),
                  REQUIRED(f5, "name 5"),
                  OPTIONAL(f6),
                  REQUIRED(f7),
                  REQUIRED(f8, "8"),
                  OPTIONAL(f9, "name 9"),
                  REQUIRED(f10),
                  REQUIRED(f11),
                  OPTIONAL(f12, "12"),
                  REQUIRED(f13, "name 13"),
                  REQUIRED(f14),
                  OPTIONAL(f15),
                  REQUIRED(f16, "16"),
                  REQUIRED(f17, "name 17"),
                  OPTIONAL(f18),
                  REQUIRED(f19),
                  REQUIRED(f20, "20"),
                  OPTIONAL(f21, "name 21"),
                  REQUIRED(f22),
                  REQUIRED(f23),
                  OPTIONAL(f24, "24"),
                  REQUIRED(f25, "name 25"),
                  REQUIRED(f26),
                  OPTIONAL(f27),
                  REQUIRED(f28, "28"),
                  REQUIRED(f29, "name 29"),
                  OPTIONAL(f30),
                  REQUIRED(f31),
                  REQUIRED(f32, "32"))
};

}  // namespace
PROP(structs_2, 960, 24000)
{
    static void (*const fn[])(Src&, Ctx&) = { &bound<json::value, S26>, &bound<json::value, S27>, &bound<json::value, S28>, &bound<json::value, S29>, &bound<json::value, S30>, &bound<json::value, S31>, &bound<json::value, S32>, &bound<json::value, S33> };
    fn[s.draw(8)](s, c);
}
