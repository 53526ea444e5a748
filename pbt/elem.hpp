// Uniform access to the element types used by the harnesses.
#ifndef PBT_ELEM_HPP_
#define PBT_ELEM_HPP_
#include <string>
#include "tracked.hpp"
#include <initializer_list>

namespace pbt {

template<typename E> struct El;

template<> struct El<int> {
    static const char* name() { return "int"; }
    static int make(int x) { return x; }
    static int val(const int& e) { return e; }
};
template<> struct El<Tracked> {
    static const char* name() { return "Tracked"; }
    static Tracked make(int x) { return Tracked(x); }
    static int val(const Tracked& e) { return e.get(); }
};
// owns heap memory for long values; the empty string is the value-initialised element (0)
template<> struct El<std::string> {
    static const char* name() { return "std::string"; }
    static std::string make(int x) {
        if (x == 0) return std::string();
        char b[64];
        int n = snprintf(b, sizeof b, x % 2 ? "%d" : "%d-is-a-rather-long-string-value", x);
        return std::string(b, n);
    }
    static int val(const std::string& e) {
        if (e.empty()) return 0;
        int x = atoi(e.c_str());
        return make(x) == e ? x : -123456789;
    }
};
// small plain type with padding and alignment different from int
template<> struct El<double> {
    static const char* name() { return "double"; }
    static double make(int x) { return x; }
    static int val(const double& e) { return (int)e; }
};
template<> struct El<unsigned char> {
    static const char* name() { return "uchar"; }
    static unsigned char make(int x) { return (unsigned char)x; }
    static int val(const unsigned char& e) { return e; }
};
// large, can be built from a list of its own kind (no copy may be taken for that), and owns heap memory
struct Listy {
    int v;
    std::vector<Listy> inner;
    unsigned char pad[96];
    Listy(int x = 0) : v(x) { memset(pad, x & 255, sizeof pad); }
    Listy(std::initializer_list<Listy> l) : v(-1), inner(l.begin(), l.end()) { memset(pad, 0, sizeof pad); }
    int get() const {
        for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != (v & 255)) return -987654321;
        return inner.empty() ? v : -987654322;
    }
    explicit operator long long() const { return get(); }
    friend bool operator==(const Listy& a, const Listy& b) { return a.get() == b.get(); }
    friend bool operator!=(const Listy& a, const Listy& b) { return a.get() != b.get(); }
};
template<> struct El<Listy> {
    static const char* name() { return "Listy"; }
    static Listy make(int x) { return Listy(x); }
    static int val(const Listy& e) { return e.get(); }
};

template<typename C>
inline std::string show(const C& c) {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < c.size() && i < 80; ++i) o << (i ? "," : "") << (long long)c[i];
    if (c.size() > 80) o << ",... " << c.size() << " in all";
    o << "]";
    return o.str();
}

}  // namespace pbt
#endif
