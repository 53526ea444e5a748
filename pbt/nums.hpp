// Numeric sequences of every kind, built from a std::vector<T> of chosen numbers.
#ifndef PBT_NUMS_HPP_
#define PBT_NUMS_HPP_
#include <array>
#include <vector>
#include <limits>
#include <cmath>
#include "pbt.hpp"
#include "user_seq.hpp"

namespace pbt {

template<typename T> std::string shown(const std::vector<T>& v) {
    std::ostringstream o;
    o.precision(21);
    o << "[";
    for (size_t i = 0; i < v.size() && i < 40; ++i) { o << (i ? "," : ""); if (sizeof(T) == 1) o << (int)v[i]; else o << v[i]; }
    if (v.size() > 40) o << ",... " << v.size() << " in all";
    o << "]";
    return o.str();
}

// G gives the contents for a length; the visitor gets a const reference to the sequence
template<typename T, size_t N, typename G, typename V>
void fixed_num_seq(Src& s, G& g, V& v) {
    std::vector<T> m = g(N);
    unsigned k = s.draw(5);
    PLOG(s, "fixed-size sequence, kind " << k << " " << shown(m));
    s.label("fixed size");
    if (k == 0) { efp::Array<T, N> a; for (size_t i = 0; i < N; ++i) a[i] = m[i]; v(a, m); }
    else if (k == 1) { std::array<T, N> a; for (size_t i = 0; i < N; ++i) a[i] = m[i]; v(a, m); }
    else if (k == 2) { efp::ArrayView<T, N> a(m.data(), N); v(a, m); }
    else if (k == 3) { efp::ArrayView<const T, N> a(m.data(), N); v(a, m); }
    else { efp::Vcb<T, N> a; size_t junk = s.draw(N + 2); for (size_t i = 0; i < junk; ++i) a.push_back(T(i + 1)); for (size_t i = 0; i < N; ++i) a.push_back(m[i]); v(a, m); }
}
template<typename T, size_t N, typename G, typename V>
void bounded_num_seq(Src& s, size_t minlen, G& g, V& v) {
    size_t n = s.len(N);
    if (n < minlen) n = minlen;
    std::vector<T> m = g(n);
    unsigned k = s.draw(3);
    PLOG(s, "bounded sequence, kind " << k << " " << shown(m));
    s.label("bounded");
    if (k == 0) { efp::ArrVec<T, N> a; for (size_t i = 0; i < n; ++i) a.push_back(m[i]); v(a, m); }
    else if (k == 1) { efp::Vcq<T, N> a; size_t junk = s.draw(N + 2); for (size_t i = 0; i < junk; ++i) a.push_back(T(i + 1)); while (a.size()) a.pop_front(); for (size_t i = 0; i < n; ++i) a.push_back(m[i]); v(a, m); }
    else { efp::ArrVecView<T, N> a(m.data(), n); v(a, m); }
}
template<typename T, typename G, typename V>
void dynamic_num_seq(Src& s, size_t minlen, size_t maxlen, G& g, V& v) {
    size_t n = s.chance(1, 40) ? s.big(2000) : s.len(maxlen);
    if (n < minlen) n = minlen;
    std::vector<T> m = g(n);
    unsigned k = s.draw(5);
    PLOG(s, "dynamic sequence, kind " << k << " " << shown(m));
    s.label("dynamic");
    if (k == 0) { efp::Vector<T> a; for (size_t i = 0; i < n; ++i) a.push_back(m[i]); v(a, m); }
    else if (k == 1) { std::vector<T> a(m); v(a, m); }
    else if (k == 2) { efp::VectorView<T> a(m.data(), n); v(a, m); }
    else if (k == 4) { ext::Dyn<T> a(n); for (size_t i = 0; i < n; ++i) a.p[i] = m[i]; v(a, m); s.label("a user's sequence"); }
    else { efp::VectorView<const T> a(m.data(), n); v(a, m); }
}
template<typename T, typename G, typename V>
void any_num_seq(Src& s, size_t minlen, size_t maxlen, G& g, V& v) {
    switch (s.draw(6)) {
        case 0: dynamic_num_seq<T>(s, minlen, maxlen, g, v); break;
        case 1: minlen > 3 ? dynamic_num_seq<T>(s, minlen, maxlen, g, v) : fixed_num_seq<T, 3>(s, g, v); break;
        case 2: minlen > 1 ? fixed_num_seq<T, 6>(s, g, v) : fixed_num_seq<T, 1>(s, g, v); break;
        case 3: bounded_num_seq<T, 7>(s, minlen, g, v); break;
        default: dynamic_num_seq<T>(s, minlen, maxlen, g, v); break;
    }
}

}  // namespace pbt
#endif
