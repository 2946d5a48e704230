// written by gen_c14.py
#define ENGINE_NO_MAIN
#include "c14.hpp"
using namespace c14;
namespace
{
struct S1
{
    std::string f0{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", true);
    }
    CONFIGOR_BIND(json::value, S1, REQUIRED(f0, "name 0"))
};

struct S2
{
    bool f0{};
    std::list<Inner> f1{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", false);
        f(f1, "f1", false);
    }
    CONFIGOR_BIND(json::value, S2, OPTIONAL(f0, "name 0"),
                  OPTIONAL(f1))
};

struct S3
{
    double f0{};
    int f1{};
    std::map<std::string, std::string> f2{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "f1", true);
        f(f2, "2", true);
    }
    CONFIGOR_BIND(json::value, S3, OPTIONAL(f0),
                  REQUIRED(f1),
                  REQUIRED(f2, "2"))
};

struct S4
{
    std::vector<int> f0{};
    std::string f1{};
    int64_t f2{};
    Inner f3{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "\303\2511", false);
        f(f2, "2", true);
        f(f3, "f3", true);
    }
    CONFIGOR_BIND(json::value, S4, REQUIRED(f0),
                  OPTIONAL(f1, "\303\2511"),
                  REQUIRED(f2, "2"),
                  REQUIRED(f3))
};

struct S5
{
    Inner f0{};
    bool f1{};
    std::list<Inner> f2{};
    std::shared_ptr<int> f3{};
    double f4{};
    template <class F>
    void each(F& f)
    {
        f(f0, "n\"0", true);
        f(f1, "\303\2511", true);
        f(f2, "f2", false);
        f(f3, "f3", true);
        f(f4, "n\"4", true);
    }
    CONFIGOR_BIND(json::value, S5, REQUIRED(f0, "n\"0"),
                  REQUIRED(f1, "\303\2511"),
                  OPTIONAL(f2),
                  REQUIRED(f3),
                  REQUIRED(f4, "n\"4"))
};

struct S6
{
    std::shared_ptr<int> f0{};
    double f1{};
    int f2{};
    std::map<std::string, std::string> f3{};
    std::vector<int> f4{};
    std::string f5{};
    template <class F>
    void each(F& f)
    {
        f(f0, "\303\2510", false);
        f(f1, "f1", true);
        f(f2, "f2", true);
        f(f3, "n\"3", false);
        f(f4, "\303\2514", true);
        f(f5, "f5", true);
    }
    CONFIGOR_BIND(json::value, S6, OPTIONAL(f0, "\303\2510"),
                  REQUIRED(f1),
                  REQUIRED(f2),
                  OPTIONAL(f3, "n\"3"),
                  REQUIRED(f4, "\303\2514"),
                  REQUIRED(f5))
};

struct S7
{
    std::map<std::string, std::string> f0{};
    std::vector<int> f1{};
    std::string f2{};
    int64_t f3{};
    Inner f4{};
    bool f5{};
    std::list<Inner> f6{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", false);
        f(f2, "name 2", true);
        f(f3, "n\"3", true);
        f(f4, "f4", false);
        f(f5, "f5", true);
        f(f6, "name 6", true);
    }
    CONFIGOR_BIND(json::value, S7, REQUIRED(f0),
                  OPTIONAL(f1),
                  REQUIRED(f2, "name 2"),
                  REQUIRED(f3, "n\"3"),
                  OPTIONAL(f4),
                  REQUIRED(f5),
                  REQUIRED(f6, "name 6"))
};

struct S8
{
    int64_t f0{};
    Inner f1{};
    bool f2{};
    std::list<Inner> f3{};
    std::shared_ptr<int> f4{};
    double f5{};
    int f6{};
    std::map<std::string, std::string> f7{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "1", true);
        f(f2, "name 2", false);
        f(f3, "f3", true);
        f(f4, "f4", true);
        f(f5, "5", false);
        f(f6, "name 6", true);
        f(f7, "f7", true);
    }
    CONFIGOR_BIND(json::value, S8, REQUIRED(f0),
                  REQUIRED(f1, "1"),
                  OPTIONAL(f2, "name 2"),
                  REQUIRED(f3),
                  REQUIRED(f4),
                  OPTIONAL(f5, "5"),
                  REQUIRED(f6, "name 6"),
                  REQUIRED(f7))
};

struct S9
{
    std::list<Inner> f0{};
    std::shared_ptr<int> f1{};
    double f2{};
    int f3{};
    std::map<std::string, std::string> f4{};
    std::vector<int> f5{};
    std::string f6{};
    int64_t f7{};
    Inner f8{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", false);
        f(f1, "name 1", true);
        f(f2, "f2", true);
        f(f3, "f3", false);
        f(f4, "4", true);
        f(f5, "name 5", true);
        f(f6, "f6", false);
        f(f7, "f7", true);
        f(f8, "8", true);
    }
    CONFIGOR_BIND(json::value, S9, OPTIONAL(f0, "0"),
                  REQUIRED(f1, "name 1"),
                  REQUIRED(f2),
                  OPTIONAL(f3),
                  REQUIRED(f4, "4"),
                  REQUIRED(f5, "name 5"),
                  OPTIONAL(f6),
                  REQUIRED(f7),
                  REQUIRED(f8, "8"))
};

struct S10
{
    int f0{};
    std::map<std::string, std::string> f1{};
    std::vector<int> f2{};
    std::string f3{};
    int64_t f4{};
    Inner f5{};
    bool f6{};
    std::list<Inner> f7{};
    std::shared_ptr<int> f8{};
    double f9{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", true);
        f(f1, "f1", false);
        f(f2, "f2", true);
        f(f3, "\303\2513", true);
        f(f4, "4", false);
        f(f5, "f5", true);
        f(f6, "f6", true);
        f(f7, "\303\2517", false);
        f(f8, "8", true);
        f(f9, "f9", true);
    }
    CONFIGOR_BIND(json::value, S10, REQUIRED(f0, "0"),
                  OPTIONAL(f1),
                  REQUIRED(f2),
                  REQUIRED(f3, "\303\2513"),
                  OPTIONAL(f4, "4"),
                  REQUIRED(f5),
                  REQUIRED(f6),
                  OPTIONAL(f7, "\303\2517"),
                  REQUIRED(f8, "8"),
                  REQUIRED(f9))
};

struct S11
{
    std::string f0{};
    int64_t f1{};
    Inner f2{};
    bool f3{};
    std::list<Inner> f4{};
    std::shared_ptr<int> f5{};
    double f6{};
    int f7{};
    std::map<std::string, std::string> f8{};
    std::vector<int> f9{};
    std::string f10{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", true);
        f(f2, "n\"2", false);
        f(f3, "\303\2513", true);
        f(f4, "f4", true);
        f(f5, "f5", false);
        f(f6, "n\"6", true);
        f(f7, "\303\2517", true);
        f(f8, "f8", false);
        f(f9, "f9", true);
        f(f10, "n\"10", true);
    }
    CONFIGOR_BIND(json::value, S11, REQUIRED(f0),
                  REQUIRED(f1),
                  OPTIONAL(f2, "n\"2"),
                  REQUIRED(f3, "\303\2513"),
                  REQUIRED(f4),
                  OPTIONAL(f5),
                  REQUIRED(f6, "n\"6"),
                  REQUIRED(f7, "\303\2517"),
                  OPTIONAL(f8),
                  REQUIRED(f9),
                  REQUIRED(f10, "n\"10"))
};

struct S12
{
    bool f0{};
    std::list<Inner> f1{};
    std::shared_ptr<int> f2{};
    double f3{};
    int f4{};
    std::map<std::string, std::string> f5{};
    std::vector<int> f6{};
    std::string f7{};
    int64_t f8{};
    Inner f9{};
    bool f10{};
    std::list<Inner> f11{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "n\"1", true);
        f(f2, "\303\2512", true);
        f(f3, "f3", false);
        f(f4, "f4", true);
        f(f5, "n\"5", true);
        f(f6, "\303\2516", false);
        f(f7, "f7", true);
        f(f8, "f8", true);
        f(f9, "n\"9", false);
        f(f10, "\303\25110", true);
        f(f11, "f11", true);
    }
    CONFIGOR_BIND(json::value, S12, OPTIONAL(f0),
                  REQUIRED(f1, "n\"1"),
                  REQUIRED(f2, "\303\2512"),
                  OPTIONAL(f3),
                  REQUIRED(f4),
                  REQUIRED(f5, "n\"5"),
                  OPTIONAL(f6, "\303\2516"),
                  REQUIRED(f7),
                  REQUIRED(f8),
                  OPTIONAL(f9, "n\"9"),
                  REQUIRED(f10, "\303\25110"),
                  REQUIRED(f11))
};

struct S13
{
    double f0{};
    int f1{};
    std::map<std::string, std::string> f2{};
    std::vector<int> f3{};
    std::string f4{};
    int64_t f5{};
    Inner f6{};
    bool f7{};
    std::list<Inner> f8{};
    std::shared_ptr<int> f9{};
    double f10{};
    int f11{};
    std::map<std::string, std::string> f12{};
    template <class F>
    void each(F& f)
    {
        f(f0, "", true);
        f(f1, "n\"1", false);
        f(f2, "f2", true);
        f(f3, "f3", true);
        f(f4, "name 4", false);
        f(f5, "n\"5", true);
        f(f6, "f6", true);
        f(f7, "f7", false);
        f(f8, "name 8", true);
        f(f9, "n\"9", true);
        f(f10, "f10", false);
        f(f11, "f11", true);
        f(f12, "name 12", true);
    }
    CONFIGOR_BIND(json::value, S13, REQUIRED(f0, ""),
                  OPTIONAL(f1, "n\"1"),
                  REQUIRED(f2),
                  REQUIRED(f3),
                  OPTIONAL(f4, "name 4"),
                  REQUIRED(f5, "n\"5"),
                  REQUIRED(f6),
                  OPTIONAL(f7),
                  REQUIRED(f8, "name 8"),
                  REQUIRED(f9, "n\"9"),
                  OPTIONAL(f10),
                  REQUIRED(f11),
                  REQUIRED(f12, "name 12"))
};

struct S14
{
    std::vector<int> f0{};
    std::string f1{};
    int64_t f2{};
    Inner f3{};
    bool f4{};
    std::list<Inner> f5{};
    std::shared_ptr<int> f6{};
    double f7{};
    int f8{};
    std::map<std::string, std::string> f9{};
    std::vector<int> f10{};
    std::string f11{};
    int64_t f12{};
    Inner f13{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", true);
        f(f1, "f1", true);
        f(f2, "f2", false);
        f(f3, "3", true);
        f(f4, "name 4", true);
        f(f5, "f5", false);
        f(f6, "f6", true);
        f(f7, "7", true);
        f(f8, "name 8", false);
        f(f9, "f9", true);
        f(f10, "f10", true);
        f(f11, "11", false);
        f(f12, "name 12", true);
        f(f13, "f13", true);
    }
    CONFIGOR_BIND(json::value, S14, REQUIRED(f0, "name 0"),
                  REQUIRED(f1),
                  OPTIONAL(f2),
                  REQUIRED(f3, "3"),
                  REQUIRED(f4, "name 4"),
                  OPTIONAL(f5),
                  REQUIRED(f6),
                  REQUIRED(f7, "7"),
                  OPTIONAL(f8, "name 8"),
                  REQUIRED(f9),
                  REQUIRED(f10),
                  OPTIONAL(f11, "11"),
                  REQUIRED(f12, "name 12"),
                  REQUIRED(f13))
};

struct S15
{
    Inner f0{};
    bool f1{};
    std::list<Inner> f2{};
    std::shared_ptr<int> f3{};
    double f4{};
    int f5{};
    std::map<std::string, std::string> f6{};
    std::vector<int> f7{};
    std::string f8{};
    int64_t f9{};
    Inner f10{};
    bool f11{};
    std::list<Inner> f12{};
    std::shared_ptr<int> f13{};
    double f14{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "f1", true);
        f(f2, "", true);
        f(f3, "name 3", false);
        f(f4, "f4", true);
        f(f5, "f5", true);
        f(f6, "6", false);
        f(f7, "name 7", true);
        f(f8, "f8", true);
        f(f9, "f9", false);
        f(f10, "10", true);
        f(f11, "name 11", true);
        f(f12, "f12", false);
        f(f13, "f13", true);
        f(f14, "14", true);
    }
    CONFIGOR_BIND(json::value, S15, OPTIONAL(f0),
                  REQUIRED(f1),
                  REQUIRED(f2, ""),
                  OPTIONAL(f3, "name 3"),
                  REQUIRED(f4),
                  REQUIRED(f5),
                  OPTIONAL(f6, "6"),
                  REQUIRED(f7, "name 7"),
                  REQUIRED(f8),
                  OPTIONAL(f9),
                  REQUIRED(f10, "10"),
                  REQUIRED(f11, "name 11"),
                  OPTIONAL(f12),
                  REQUIRED(f13),
                  REQUIRED(f14, "14"))
};

struct S16
{
    std::shared_ptr<int> f0{};
    double f1{};
    int f2{};
    std::map<std::string, std::string> f3{};
    std::vector<int> f4{};
    std::string f5{};
    int64_t f6{};
    Inner f7{};
    bool f8{};
    std::list<Inner> f9{};
    std::shared_ptr<int> f10{};
    double f11{};
    int f12{};
    std::map<std::string, std::string> f13{};
    std::vector<int> f14{};
    std::string f15{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "\303\2511", false);
        f(f2, "2", true);
        f(f3, "f3", true);
        f(f4, "f4", false);
        f(f5, "\303\2515", true);
        f(f6, "6", true);
        f(f7, "f7", false);
        f(f8, "f8", true);
        f(f9, "\303\2519", true);
        f(f10, "10", false);
        f(f11, "f11", true);
        f(f12, "f12", true);
        f(f13, "\303\25113", false);
        f(f14, "14", true);
        f(f15, "f15", true);
    }
    CONFIGOR_BIND(json::value, S16, REQUIRED(f0),
                  OPTIONAL(f1, "\303\2511"),
                  REQUIRED(f2, "2"),
                  REQUIRED(f3),
                  OPTIONAL(f4),
                  REQUIRED(f5, "\303\2515"),
                  REQUIRED(f6, "6"),
                  OPTIONAL(f7),
                  REQUIRED(f8),
                  REQUIRED(f9, "\303\2519"),
                  OPTIONAL(f10, "10"),
                  REQUIRED(f11),
                  REQUIRED(f12),
                  OPTIONAL(f13, "\303\25113"),
                  REQUIRED(f14, "14"),
                  REQUIRED(f15))
};

struct S17
{
    std::map<std::string, std::string> f0{};
    std::vector<int> f1{};
    std::string f2{};
    int64_t f3{};
    Inner f4{};
    bool f5{};
    std::list<Inner> f6{};
    std::shared_ptr<int> f7{};
    double f8{};
    int f9{};
    std::map<std::string, std::string> f10{};
    std::vector<int> f11{};
    std::string f12{};
    int64_t f13{};
    Inner f14{};
    bool f15{};
    std::list<Inner> f16{};
    template <class F>
    void each(F& f)
    {
        f(f0, "n\"0", true);
        f(f1, "\303\2511", true);
        f(f2, "f2", false);
        f(f3, "f3", true);
        f(f4, "", true);
        f(f5, "\303\2515", false);
        f(f6, "f6", true);
        f(f7, "f7", true);
        f(f8, "n\"8", false);
        f(f9, "\303\2519", true);
        f(f10, "f10", true);
        f(f11, "f11", false);
        f(f12, "n\"12", true);
        f(f13, "\303\25113", true);
        f(f14, "f14", false);
        f(f15, "f15", true);
        f(f16, "n\"16", true);
    }
    CONFIGOR_BIND(json::value, S17, REQUIRED(f0, "n\"0"),
                  REQUIRED(f1, "\303\2511"),
                  OPTIONAL(f2),
                  REQUIRED(f3),
                  REQUIRED(f4, ""),
                  OPTIONAL(f5, "\303\2515"),
                  REQUIRED(f6),
                  REQUIRED(f7),
                  OPTIONAL(f8, "n\"8"),
                  REQUIRED(f9, "\303\2519"),
                  REQUIRED(f10),
                  OPTIONAL(f11),
                  REQUIRED(f12, "n\"12"),
                  REQUIRED(f13, "\303\25113"),
                  OPTIONAL(f14),
                  REQUIRED(f15),
                  REQUIRED(f16, "n\"16"))
};

struct S18
{
    int64_t f0{};
    Inner f1{};
    bool f2{};
    std::list<Inner> f3{};
    std::shared_ptr<int> f4{};
    double f5{};
    int f6{};
    std::map<std::string, std::string> f7{};
    std::vector<int> f8{};
    std::string f9{};
    int64_t f10{};
    Inner f11{};
    bool f12{};
    std::list<Inner> f13{};
    std::shared_ptr<int> f14{};
    double f15{};
    int f16{};
    std::map<std::string, std::string> f17{};
    template <class F>
    void each(F& f)
    {
        f(f0, "\303\2510", false);
        f(f1, "f1", true);
        f(f2, "f2", true);
        f(f3, "n\"3", false);
        f(f4, "\303\2514", true);
        f(f5, "f5", true);
        f(f6, "f6", false);
        f(f7, "n\"7", true);
        f(f8, "\303\2518", true);
        f(f9, "f9", false);
        f(f10, "f10", true);
        f(f11, "n\"11", true);
        f(f12, "\303\25112", false);
        f(f13, "f13", true);
        f(f14, "f14", true);
        f(f15, "n\"15", false);
        f(f16, "\303\25116", true);
        f(f17, "f17", true);
    }
    CONFIGOR_BIND(json::value, S18, OPTIONAL(f0, "\303\2510"),
                  REQUIRED(f1),
                  REQUIRED(f2),
                  OPTIONAL(f3, "n\"3"),
                  REQUIRED(f4, "\303\2514"),
                  REQUIRED(f5),
                  OPTIONAL(f6),
                  REQUIRED(f7, "n\"7"),
                  REQUIRED(f8, "\303\2518"),
                  OPTIONAL(f9),
                  REQUIRED(f10),
                  REQUIRED(f11, "n\"11"),
                  OPTIONAL(f12, "\303\25112"),
                  REQUIRED(f13),
                  REQUIRED(f14),
                  OPTIONAL(f15, "n\"15"),
                  REQUIRED(f16, "\303\25116"),
                  REQUIRED(f17))
};

struct S19
{
    std::list<Inner> f0{};
    std::shared_ptr<int> f1{};
    double f2{};
    int f3{};
    std::map<std::string, std::string> f4{};
    std::vector<int> f5{};
    std::string f6{};
    int64_t f7{};
    Inner f8{};
    bool f9{};
    std::list<Inner> f10{};
    std::shared_ptr<int> f11{};
    double f12{};
    int f13{};
    std::map<std::string, std::string> f14{};
    std::vector<int> f15{};
    std::string f16{};
    int64_t f17{};
    Inner f18{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", false);
        f(f2, "name 2", true);
        f(f3, "n\"3", true);
        f(f4, "f4", false);
        f(f5, "f5", true);
        f(f6, "", true);
        f(f7, "n\"7", false);
        f(f8, "f8", true);
        f(f9, "f9", true);
        f(f10, "name 10", false);
        f(f11, "n\"11", true);
        f(f12, "f12", true);
        f(f13, "f13", false);
        f(f14, "name 14", true);
        f(f15, "n\"15", true);
        f(f16, "f16", false);
        f(f17, "f17", true);
        f(f18, "name 18", true);
    }
    CONFIGOR_BIND(json::value, S19, REQUIRED(f0),
                  OPTIONAL(f1),
                  REQUIRED(f2, "name 2"),
                  REQUIRED(f3, "n\"3"),
                  OPTIONAL(f4),
                  REQUIRED(f5),
                  REQUIRED(f6, ""),
                  OPTIONAL(f7, "n\"7"),
                  REQUIRED(f8),
                  REQUIRED(f9),
                  OPTIONAL(f10, "name 10"),
                  REQUIRED(f11, "n\"11"),
                  REQUIRED(f12),
                  OPTIONAL(f13),
                  REQUIRED(f14, "name 14"),
                  REQUIRED(f15, "n\"15"),
                  OPTIONAL(f16),
                  REQUIRED(f17),
                  REQUIRED(f18, "name 18"))
};

struct S20
{
    int f0{};
    std::map<std::string, std::string> f1{};
    std::vector<int> f2{};
    std::string f3{};
    int64_t f4{};
    Inner f5{};
    bool f6{};
    std::list<Inner> f7{};
    std::shared_ptr<int> f8{};
    double f9{};
    int f10{};
    std::map<std::string, std::string> f11{};
    std::vector<int> f12{};
    std::string f13{};
    int64_t f14{};
    Inner f15{};
    bool f16{};
    std::list<Inner> f17{};
    std::shared_ptr<int> f18{};
    double f19{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "1", true);
        f(f2, "name 2", false);
        f(f3, "f3", true);
        f(f4, "f4", true);
        f(f5, "5", false);
        f(f6, "name 6", true);
        f(f7, "f7", true);
        f(f8, "f8", false);
        f(f9, "9", true);
        f(f10, "name 10", true);
        f(f11, "f11", false);
        f(f12, "f12", true);
        f(f13, "13", true);
        f(f14, "name 14", false);
        f(f15, "f15", true);
        f(f16, "f16", true);
        f(f17, "17", false);
        f(f18, "name 18", true);
        f(f19, "f19", true);
    }
    CONFIGOR_BIND(json::value, S20, REQUIRED(f0),
                  REQUIRED(f1, "1"),
                  OPTIONAL(f2, "name 2"),
                  REQUIRED(f3),
                  REQUIRED(f4),
                  OPTIONAL(f5, "5"),
                  REQUIRED(f6, "name 6"),
                  REQUIRED(f7),
                  OPTIONAL(f8),
                  REQUIRED(f9, "9"),
                  REQUIRED(f10, "name 10"),
                  OPTIONAL(f11),
                  REQUIRED(f12),
                  REQUIRED(f13, "13"),
                  OPTIONAL(f14, "name 14"),
                  REQUIRED(f15),
                  REQUIRED(f16),
                  OPTIONAL(f17, "17"),
                  REQUIRED(f18, "name 18"),
                  REQUIRED(f19))
};

struct S21
{
    std::string f0{};
    int64_t f1{};
    Inner f2{};
    bool f3{};
    std::list<Inner> f4{};
    std::shared_ptr<int> f5{};
    double f6{};
    int f7{};
    std::map<std::string, std::string> f8{};
    std::vector<int> f9{};
    std::string f10{};
    int64_t f11{};
    Inner f12{};
    bool f13{};
    std::list<Inner> f14{};
    std::shared_ptr<int> f15{};
    double f16{};
    int f17{};
    std::map<std::string, std::string> f18{};
    std::vector<int> f19{};
    std::string f20{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", false);
        f(f1, "name 1", true);
        f(f2, "f2", true);
        f(f3, "f3", false);
        f(f4, "4", true);
        f(f5, "name 5", true);
        f(f6, "f6", false);
        f(f7, "f7", true);
        f(f8, "", true);
        f(f9, "name 9", false);
        f(f10, "f10", true);
        f(f11, "f11", true);
        f(f12, "12", false);
        f(f13, "name 13", true);
        f(f14, "f14", true);
        f(f15, "f15", false);
        f(f16, "16", true);
        f(f17, "name 17", true);
        f(f18, "f18", false);
        f(f19, "f19", true);
        f(f20, "20", true);
    }
    CONFIGOR_BIND(json::value, S21, OPTIONAL(f0, "0"),
                  REQUIRED(f1, "name 1"),
                  REQUIRED(f2),
                  OPTIONAL(f3),
                  REQUIRED(f4, "4"),
                  REQUIRED(f5, "name 5"),
                  OPTIONAL(f6),
                  REQUIRED(f7),
                  REQUIRED(f8, ""),
                  OPTIONAL(f9, "name 9"),
                  REQUIRED(f10),
                  REQUIRED(f11),
                  OPTIONAL(f12, "12"),
                  REQUIRED(f13, "name 13"),
                  REQUIRED(f14),
                  OPTIONAL(f15),
                  REQUIRED(f16, "16"),
                  REQUIRED(f17, "name 17"),
                  OPTIONAL(f18),
                  REQUIRED(f19),
                  REQUIRED(f20, "20"))
};

struct S22
{
    bool f0{};
    std::list<Inner> f1{};
    std::shared_ptr<int> f2{};
    double f3{};
    int f4{};
    std::map<std::string, std::string> f5{};
    std::vector<int> f6{};
    std::string f7{};
    int64_t f8{};
    Inner f9{};
    bool f10{};
    std::list<Inner> f11{};
    std::shared_ptr<int> f12{};
    double f13{};
    int f14{};
    std::map<std::string, std::string> f15{};
    std::vector<int> f16{};
    std::string f17{};
    int64_t f18{};
    Inner f19{};
    bool f20{};
    std::list<Inner> f21{};
    template <class F>
    void each(F& f)
    {
        f(f0, "0", true);
        f(f1, "f1", false);
        f(f2, "f2", true);
        f(f3, "\303\2513", true);
        f(f4, "4", false);
        f(f5, "f5", true);
        f(f6, "f6", true);
        f(f7, "\303\2517", false);
        f(f8, "8", true);
        f(f9, "f9", true);
        f(f10, "f10", false);
        f(f11, "\303\25111", true);
        f(f12, "12", true);
        f(f13, "f13", false);
        f(f14, "f14", true);
        f(f15, "\303\25115", true);
        f(f16, "16", false);
        f(f17, "f17", true);
        f(f18, "f18", true);
        f(f19, "\303\25119", false);
        f(f20, "20", true);
        f(f21, "f21", true);
    }
    CONFIGOR_BIND(json::value, S22, REQUIRED(f0, "0"),
                  OPTIONAL(f1),
                  REQUIRED(f2),
                  REQUIRED(f3, "\303\2513"),
                  OPTIONAL(f4, "4"),
                  REQUIRED(f5),
                  REQUIRED(f6),
                  OPTIONAL(f7, "\303\2517"),
                  REQUIRED(f8, "8"),
                  REQUIRED(f9),
                  OPTIONAL(f10),
                  REQUIRED(f11, "\303\25111"),
                  REQUIRED(f12, "12"),
                  OPTIONAL(f13),
                  REQUIRED(f14),
                  REQUIRED(f15, "\303\25115"),
                  OPTIONAL(f16, "16"),
                  REQUIRED(f17),
                  REQUIRED(f18),
                  OPTIONAL(f19, "\303\25119"),
                  REQUIRED(f20, "20"),
                  REQUIRED(f21))
};

struct S23
{
    double f0{};
    int f1{};
    std::map<std::string, std::string> f2{};
    std::vector<int> f3{};
    std::string f4{};
    int64_t f5{};
    Inner f6{};
    bool f7{};
    std::list<Inner> f8{};
    std::shared_ptr<int> f9{};
    double f10{};
    int f11{};
    std::map<std::string, std::string> f12{};
    std::vector<int> f13{};
    std::string f14{};
    int64_t f15{};
    Inner f16{};
    bool f17{};
    std::list<Inner> f18{};
    std::shared_ptr<int> f19{};
    double f20{};
    int f21{};
    std::map<std::string, std::string> f22{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", true);
        f(f1, "f1", true);
        f(f2, "n\"2", false);
        f(f3, "\303\2513", true);
        f(f4, "f4", true);
        f(f5, "f5", false);
        f(f6, "n\"6", true);
        f(f7, "\303\2517", true);
        f(f8, "f8", false);
        f(f9, "f9", true);
        f(f10, "", true);
        f(f11, "\303\25111", false);
        f(f12, "f12", true);
        f(f13, "f13", true);
        f(f14, "n\"14", false);
        f(f15, "\303\25115", true);
        f(f16, "f16", true);
        f(f17, "f17", false);
        f(f18, "n\"18", true);
        f(f19, "\303\25119", true);
        f(f20, "f20", false);
        f(f21, "f21", true);
        f(f22, "n\"22", true);
    }
    CONFIGOR_BIND(json::value, S23, REQUIRED(f0),
                  REQUIRED(f1),
                  OPTIONAL(f2, "n\"2"),
                  REQUIRED(f3, "\303\2513"),
                  REQUIRED(f4),
                  OPTIONAL(f5),
                  REQUIRED(f6, "n\"6"),
                  REQUIRED(f7, "\303\2517"),
                  OPTIONAL(f8),
                  REQUIRED(f9),
                  REQUIRED(f10, ""),
                  OPTIONAL(f11, "\303\25111"),
                  REQUIRED(f12),
                  REQUIRED(f13),
                  OPTIONAL(f14, "n\"14"),
                  REQUIRED(f15, "\303\25115"),
                  REQUIRED(f16),
                  OPTIONAL(f17),
                  REQUIRED(f18, "n\"18"),
                  REQUIRED(f19, "\303\25119"),
                  OPTIONAL(f20),
                  REQUIRED(f21),
                  REQUIRED(f22, "n\"22"))
};

struct S24
{
    std::vector<int> f0{};
    std::string f1{};
    int64_t f2{};
    Inner f3{};
    bool f4{};
    std::list<Inner> f5{};
    std::shared_ptr<int> f6{};
    double f7{};
    int f8{};
    std::map<std::string, std::string> f9{};
    std::vector<int> f10{};
    std::string f11{};
    int64_t f12{};
    Inner f13{};
    bool f14{};
    std::list<Inner> f15{};
    std::shared_ptr<int> f16{};
    double f17{};
    int f18{};
    std::map<std::string, std::string> f19{};
    std::vector<int> f20{};
    std::string f21{};
    int64_t f22{};
    Inner f23{};
    template <class F>
    void each(F& f)
    {
        f(f0, "f0", false);
        f(f1, "n\"1", true);
        f(f2, "\303\2512", true);
        f(f3, "f3", false);
        f(f4, "f4", true);
        f(f5, "n\"5", true);
        f(f6, "\303\2516", false);
        f(f7, "f7", true);
        f(f8, "f8", true);
        f(f9, "n\"9", false);
        f(f10, "\303\25110", true);
        f(f11, "f11", true);
        f(f12, "f12", false);
        f(f13, "n\"13", true);
        f(f14, "\303\25114", true);
        f(f15, "f15", false);
        f(f16, "f16", true);
        f(f17, "n\"17", true);
        f(f18, "\303\25118", false);
        f(f19, "f19", true);
        f(f20, "f20", true);
        f(f21, "n\"21", false);
        f(f22, "\303\25122", true);
        f(f23, "f23", true);
    }
    CONFIGOR_BIND(json::value, S24, OPTIONAL(f0),
                  REQUIRED(f1, "n\"1"),
                  REQUIRED(f2, "\303\2512"),
                  OPTIONAL(f3),
                  REQUIRED(f4),
                  REQUIRED(f5, "n\"5"),
                  OPTIONAL(f6, "\303\2516"),
                  REQUIRED(f7),
                  REQUIRED(f8),
                  OPTIONAL(f9, "n\"9"),
                  REQUIRED(f10, "\303\25110"),
                  REQUIRED(f11),
                  OPTIONAL(f12),
                  REQUIRED(f13, "n\"13"),
                  REQUIRED(f14, "\303\25114"),
                  OPTIONAL(f15),
                  REQUIRED(f16),
                  REQUIRED(f17, "n\"17"),
                  OPTIONAL(f18, "\303\25118"),
                  REQUIRED(f19),
                  REQUIRED(f20),
                  OPTIONAL(f21, "n\"21"),
                  REQUIRED(f22, "\303\25122"),
                  REQUIRED(f23))
};

struct S25
{
    Inner f0{};
    bool f1{};
    std::list<Inner> f2{};
    std::shared_ptr<int> f3{};
    double f4{};
    int f5{};
    std::map<std::string, std::string> f6{};
    std::vector<int> f7{};
    std::string f8{};
    int64_t f9{};
    Inner f10{};
    bool f11{};
    std::list<Inner> f12{};
    std::shared_ptr<int> f13{};
    double f14{};
    int f15{};
    std::map<std::string, std::string> f16{};
    std::vector<int> f17{};
    std::string f18{};
    int64_t f19{};
    Inner f20{};
    bool f21{};
    std::list<Inner> f22{};
    std::shared_ptr<int> f23{};
    double f24{};
    template <class F>
    void each(F& f)
    {
        f(f0, "name 0", true);
        f(f1, "n\"1", false);
        f(f2, "f2", true);
        f(f3, "f3", true);
        f(f4, "name 4", false);
        f(f5, "n\"5", true);
        f(f6, "f6", true);
        f(f7, "f7", false);
        f(f8, "name 8", true);
        f(f9, "n\"9", true);
        f(f10, "f10", false);
        f(f11, "f11", true);
        f(f12, "", true);
        f(f13, "n\"13", false);
        f(f14, "f14", true);
        f(f15, "f15", true);
        f(f16, "name 16", false);
        f(f17, "n\"17", true);
        f(f18, "f18", true);
        f(f19, "f19", false);
        f(f20, "name 20", true);
        f(f21, "n\"21", true);
        f(f22, "f22", false);
        f(f23, "f23", true);
        f(f24, "name 24", true);
    }
    CONFIGOR_BIND(json::value, S25, REQUIRED(f0, "name 0"),
                  OPTIONAL(f1, "n\"1"),
                  REQUIRED(f2),
                  REQUIRED(f3),
                  OPTIONAL(f4, "name 4"),
                  REQUIRED(f5, "n\"5"),
                  REQUIRED(f6),
                  OPTIONAL(f7),
                  REQUIRED(f8, "name 8"),
                  REQUIRED(f9, "n\"9"),
                  OPTIONAL(f10),
                  REQUIRED(f11),
                  REQUIRED(f12, ""),
                  OPTIONAL(f13, "n\"13"),
                  REQUIRED(f14),
                  REQUIRED(f15),
                  OPTIONAL(f16, "name 16"),
                  REQUIRED(f17, "n\"17"),
                  REQUIRED(f18),
                  OPTIONAL(f19),
                  REQUIRED(f20, "name 20"),
                  REQUIRED(f21, "n\"21"),
                  OPTIONAL(f22),
                  REQUIRED(f23),
                  REQUIRED(f24, "name 24"))
};

}  // namespace
PROP(structs_1, 3000, 75000)
{
    static void (*const fn[])(Src&, Ctx&) = { &bound<json::value, S1>, &bound<json::value, S2>, &bound<json::value, S3>, &bound<json::value, S4>, &bound<json::value, S5>, &bound<json::value, S6>, &bound<json::value, S7>, &bound<json::value, S8>, &bound<json::value, S9>, &bound<json::value, S10>, &bound<json::value, S11>, &bound<json::value, S12>, &bound<json::value, S13>, &bound<json::value, S14>, &bound<json::value, S15>, &bound<json::value, S16>, &bound<json::value, S17>, &bound<json::value, S18>, &bound<json::value, S19>, &bound<json::value, S20>, &bound<json::value, S21>, &bound<json::value, S22>, &bound<json::value, S23>, &bound<json::value, S24>, &bound<json::value, S25> };
    fn[s.draw(25)](s, c);
}
