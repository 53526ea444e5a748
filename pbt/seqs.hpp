// The sequence kinds of the library behind one interface: a holder K<E> is built from the
// model (a list of ints) and gives the sequence object.  kFix: the length is fixed at kCap;
// kCap == 0: no bound.
#ifndef PBT_SEQS_HPP_
#define PBT_SEQS_HPP_
#include <array>
#include <vector>
#include "pbt.hpp"
#include "elem.hpp"

namespace pbt {

typedef std::vector<int> Model;

template<typename E, size_t N> struct KArray {
    typedef efp::Array<E, N> Seq;
    enum { kFix = 1, kCap = N, kMut = 1 };
    static const char* name() { return "Array"; }
    Seq a;
    explicit KArray(const Model& m) { for (size_t i = 0; i < N; ++i) a[i] = El<E>::make(m[i]); }
    Seq& get() { return a; }
};
template<typename E, size_t N> struct KArrVec {
    typedef efp::ArrVec<E, N> Seq;
    enum { kFix = 0, kCap = N, kMut = 1 };
    static const char* name() { return "ArrVec"; }
    Seq a;
    explicit KArrVec(const Model& m) { for (size_t i = 0; i < m.size(); ++i) a.push_back(El<E>::make(m[i])); }
    Seq& get() { return a; }
};
template<typename E> struct KVector {
    typedef efp::Vector<E> Seq;
    enum { kFix = 0, kCap = 0, kMut = 1 };
    static const char* name() { return "Vector"; }
    Seq a;
    explicit KVector(const Model& m) { for (size_t i = 0; i < m.size(); ++i) a.push_back(El<E>::make(m[i])); }
    Seq& get() { return a; }
};
// backing store for views: a heap block of exactly the right size, so that the address
// sanitizer sees any access outside it
template<typename E> struct Block {
    E* p; size_t n;
    explicit Block(const Model& m) : p(m.empty() ? nullptr : new E[m.size()]()), n(m.size()) { for (size_t i = 0; i < n; ++i) p[i] = El<E>::make(m[i]); }
    ~Block() { delete[] p; }
private:
    Block(const Block&);
};
template<typename E, size_t N, typename C = E> struct KArrayView {
    typedef efp::ArrayView<C, N> Seq;
    enum { kFix = 1, kCap = N, kMut = 0 };
    static const char* name() { return "ArrayView"; }
    Block<E> b; Seq a;
    explicit KArrayView(const Model& m) : b(m), a(b.p, N) {}
    Seq& get() { return a; }
};
template<typename E, size_t N, typename C = E> struct KArrVecView {
    typedef efp::ArrVecView<C, N> Seq;
    enum { kFix = 0, kCap = N, kMut = 0 };
    static const char* name() { return "ArrVecView"; }
    Block<E> b; Seq a;
    explicit KArrVecView(const Model& m) : b(m), a(b.p, m.size()) {}
    Seq& get() { return a; }
};
template<typename E, typename C = E> struct KVectorView {
    typedef efp::VectorView<C> Seq;
    enum { kFix = 0, kCap = 0, kMut = 0 };
    static const char* name() { return "VectorView"; }
    Block<E> b; Seq a;
    explicit KVectorView(const Model& m) : b(m), a(b.p, m.size()) {}
    Seq& get() { return a; }
};
// rings are brought to a state with some wrap-around first (decided by the contents)
template<typename E, size_t N> struct KVcb {
    typedef efp::Vcb<E, N> Seq;
    enum { kFix = 1, kCap = N, kMut = 1 };
    static const char* name() { return "Vcb"; }
    Seq a;
    explicit KVcb(const Model& m) {
        size_t junk = (unsigned)m[0] % (2 * N + 1);
        for (size_t i = 0; i < junk; ++i) a.push_back(El<E>::make((int)i + 7));
        for (size_t i = 0; i < N; ++i) a.push_back(El<E>::make(m[i]));
    }
    Seq& get() { return a; }
};
template<typename E, size_t N> struct KVcq {
    typedef efp::Vcq<E, N> Seq;
    enum { kFix = 0, kCap = N, kMut = 1 };
    static const char* name() { return "Vcq"; }
    Seq a;
    explicit KVcq(const Model& m) {
        size_t junk = m.empty() ? 0 : (unsigned)m[0] % (2 * N + 1);
        for (size_t i = 0; i < junk; ++i) a.push_back(El<E>::make((int)i + 7));
        while (a.size() > 0) a.pop_front();
        for (size_t i = 0; i < m.size(); ++i) a.push_back(El<E>::make(m[i]));
    }
    Seq& get() { return a; }
};
template<typename E, size_t N> struct KStdArray {
    typedef std::array<E, N> Seq;
    enum { kFix = 1, kCap = N, kMut = 1 };
    static const char* name() { return "std::array"; }
    Seq a;
    explicit KStdArray(const Model& m) { for (size_t i = 0; i < N; ++i) a[i] = El<E>::make(m[i]); }
    Seq& get() { return a; }
};
template<typename E> struct KStdVector {
    typedef std::vector<E> Seq;
    enum { kFix = 0, kCap = 0, kMut = 1 };
    static const char* name() { return "std::vector"; }
    Seq a;
    explicit KStdVector(const Model& m) { for (size_t i = 0; i < m.size(); ++i) a.push_back(El<E>::make(m[i])); }
    Seq& get() { return a; }
};

#ifdef PBT_USER_SEQ_HPP_
template<typename E> struct KUserDyn {
    typedef ext::Dyn<E> Seq;
    enum { kFix = 0, kCap = 0, kMut = 1 };
    static const char* name() { return "a user's sequence"; }
    Seq a;
    explicit KUserDyn(const Model& m) : a(m.size()) { for (size_t i = 0; i < m.size(); ++i) a.p[i] = El<E>::make(m[i]); }
    Seq& get() { return a; }
};
template<typename E, size_t N> struct KUserBound {
    typedef ext::Bound<E, N> Seq;
    enum { kFix = 0, kCap = N, kMut = 1 };
    static const char* name() { return "a user's bounded sequence"; }
    Seq a;
    explicit KUserBound(const Model& m) : a(m.size()) { for (size_t i = 0; i < m.size(); ++i) a.p[i] = El<E>::make(m[i]); }
    Seq& get() { return a; }
};
template<typename E, size_t N> struct KUserFix {
    typedef ext::Fix<E, N> Seq;
    enum { kFix = 1, kCap = N, kMut = 1 };
    static const char* name() { return "a user's fixed sequence"; }
    Seq a;
    explicit KUserFix(const Model& m) { for (size_t i = 0; i < N; ++i) a.p[i] = El<E>::make(m[i]); }
    Seq& get() { return a; }
};
#endif

template<typename... Ks> struct Kinds { enum { count = sizeof...(Ks) }; };

// contents for a kind; maxlen bounds the unbounded kinds
struct Gen {
    size_t maxlen;
    bool small;   // few distinct values
    size_t longest;   // 0: no long sequences
    bool often;       // long ones as often as not
    Gen(size_t m, bool sm, size_t lo = 0, bool of = false) : maxlen(m), small(sm), longest(lo), often(of) {}
    Model operator()(Src& s, bool fix, size_t cap) const {
        size_t n;
        if (longest && !fix && !cap && s.chance(often ? 12 : 1, 24)) n = s.big(longest);
        else n = fix ? cap : s.len(cap ? cap : maxlen);
        Model m(n);
        if (n > 32) {   // contents from one seed
            uint64_t z = s.draw(1ull << 32);
            const unsigned kind = s.draw(4);
            const size_t odd = s.draw(n);
            s.label("long");
            for (size_t i = 0; i < n; ++i) {
                z = z * 6364136223846793005ull + 1442695040888963407ull;
                m[i] = kind == 3 ? (i == odd ? 2 : 1) : small || kind == 0 ? (int)(z >> 62) : kind == 1 ? (int)i : (int)(z >> 40);
            }
            return m;
        }
        for (size_t i = 0; i < n; ++i) m[i] = small ? (int)s.draw(4) : s.ival();
        return m;
    }
};

template<typename V, typename K>
PBT_NOINLINE void use_kind(Src& s, V& v, const Gen& g) {
    Model m = g(s, K::kFix, K::kCap);
    PLOG(s, "argument: " << K::name() << (K::kFix ? " of fixed size" : "") << " " << show(m));
    s.label(K::name());
    K k(m);
    v.template with<K>(k, m);
}
template<typename V>
void use_nth(Src&, V&, const Gen&, unsigned, Kinds<>) { fail("harness: kind index"); }
template<typename V, typename K, typename... Ks>
void use_nth(Src& s, V& v, const Gen& g, unsigned i, Kinds<K, Ks...>) {
    if (i == 0) use_kind<V, K>(s, v, g);
    else use_nth(s, v, g, i - 1, Kinds<Ks...>());
}
// pick a kind, build it and hand holder and model to the visitor
template<typename L, typename V>
void any_kind(Src& s, V& v, const Gen& g) { use_nth(s, v, g, s.draw(L::count), L()); }

// contents of any sequence object through the trait functions, as ints
template<typename E, typename S>
Model contents(const S& x) {
    Model m;
    size_t n = (size_t)efp::length(x);
    for (size_t i = 0; i < n; ++i) m.push_back(El<E>::val(efp::nth(i, x)));
    return m;
}
// a result of the library: all ways to read it agree with the expected list
template<typename E, typename S>
void expect_seq(const S& x, const Model& m, const char* what) {
    PCHECK((size_t)x.size() == m.size(), what << ": size " << (size_t)x.size() << ", expected " << show(m));
    PCHECK((size_t)efp::length(x) == m.size(), what << ": length " << (size_t)efp::length(x) << ", expected " << show(m));
    PCHECK((size_t)(x.end() - x.begin()) == m.size(), what << ": iteration range");
    PCHECK(x.empty() == m.empty(), what << ": empty()");
    for (size_t i = 0; i < m.size(); ++i)
        PCHECK(El<E>::val(x[i]) == m[i] && El<E>::val(*(x.begin() + i)) == m[i], what << ": element " << i << " is " << El<E>::val(x[i]) << ", expected " << show(m));
}
template<typename E, typename S>
void expect_same(const S& x, const Model& m, const char* what) {
    Model c = contents<E>(x);
    PCHECK(c == m, what << ": contents are " << show(c) << ", expected " << show(m));
}

}  // namespace pbt
#endif
