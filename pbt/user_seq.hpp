// Sequence types of a user of the library, which implement its open Sequence trait (README: "the trait is not
// sealed"): of dynamic length, of bounded length, and of fixed length.  To be included before efp.hpp.
#ifndef PBT_USER_SEQ_HPP_
#define PBT_USER_SEQ_HPP_
#include <cstddef>
#include "efp/trait.hpp"

namespace ext {
// elements in a block of exactly the right size
template<typename E> struct Span {
    E* p; size_t n;
    explicit Span(size_t k = 0) : p(k ? new E[k]() : nullptr), n(k) {}
    ~Span() { delete[] p; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    E& operator[](size_t i) { return p[i]; }
    const E& operator[](size_t i) const { return p[i]; }
    E* data() { return p; }
    const E* data() const { return p; }
    E* begin() { return p; }
    E* end() { return p + n; }
    const E* begin() const { return p; }
    const E* end() const { return p + n; }
private:
    Span(const Span&);
    Span& operator=(const Span&);
};
template<typename E> struct Dyn : Span<E> { explicit Dyn(size_t k = 0) : Span<E>(k) {} };
template<typename E, size_t N> struct Bound : Span<E> { explicit Bound(size_t k = 0) : Span<E>(k) {} };
template<typename E, size_t N> struct Fix : Span<E> { Fix() : Span<E>(N) {} };
}  // namespace ext

namespace efp {
template<typename E> struct ElementImpl<ext::Dyn<E>> { using Type = E; };
template<typename E> struct CtSizeImpl<ext::Dyn<E>> { using Type = Size<dyn>; };
template<typename E> struct CtCapacityImpl<ext::Dyn<E>> { using Type = Size<dyn>; };
template<typename E> auto length(const ext::Dyn<E>& as) -> size_t { return as.n; }
template<typename E> auto nth(size_t i, const ext::Dyn<E>& as) -> const E& { return as.p[i]; }
template<typename E> auto nth(size_t i, ext::Dyn<E>& as) -> E& { return as.p[i]; }
template<typename E> auto data(const ext::Dyn<E>& as) -> const E* { return as.p; }
template<typename E> auto data(ext::Dyn<E>& as) -> E* { return as.p; }

template<typename E, size_t N> struct ElementImpl<ext::Bound<E, N>> { using Type = E; };
template<typename E, size_t N> struct CtSizeImpl<ext::Bound<E, N>> { using Type = Size<dyn>; };
template<typename E, size_t N> struct CtCapacityImpl<ext::Bound<E, N>> { using Type = Size<N>; };
template<typename E, size_t N> auto length(const ext::Bound<E, N>& as) -> size_t { return as.n; }
template<typename E, size_t N> auto nth(size_t i, const ext::Bound<E, N>& as) -> const E& { return as.p[i]; }
template<typename E, size_t N> auto nth(size_t i, ext::Bound<E, N>& as) -> E& { return as.p[i]; }
template<typename E, size_t N> auto data(const ext::Bound<E, N>& as) -> const E* { return as.p; }
template<typename E, size_t N> auto data(ext::Bound<E, N>& as) -> E* { return as.p; }

template<typename E, size_t N> struct ElementImpl<ext::Fix<E, N>> { using Type = E; };
template<typename E, size_t N> struct CtSizeImpl<ext::Fix<E, N>> { using Type = Size<N>; };
template<typename E, size_t N> struct CtCapacityImpl<ext::Fix<E, N>> { using Type = Size<N>; };
template<typename E, size_t N> constexpr auto length(const ext::Fix<E, N>&) -> Size<N> { return Size<N> {}; }
template<typename E, size_t N> auto nth(size_t i, const ext::Fix<E, N>& as) -> const E& { return as.p[i]; }
template<typename E, size_t N> auto nth(size_t i, ext::Fix<E, N>& as) -> E& { return as.p[i]; }
template<typename E, size_t N> auto data(const ext::Fix<E, N>& as) -> const E* { return as.p; }
template<typename E, size_t N> auto data(ext::Fix<E, N>& as) -> E* { return as.p; }
}  // namespace efp
#endif
