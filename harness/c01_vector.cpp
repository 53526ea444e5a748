// C01: dynamic vector against std::vector<int> as the ideal list, over histories on a pool of
// live vectors.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include <memory>
using namespace pbt;

const char* const pbt_name = "c01_vector";
const char* const pbt_rule = "";

template<typename E>
struct Pool {
    typedef efp::Vector<E> V;
    static const int K = 4;
    V* v[K];
    std::vector<int> m[K];
    size_t reserved[K];
    Src& s;

    explicit Pool(Src& s_) : s(s_) {
        for (int i = 0; i < K; ++i) { v[i] = new V(); reserved[i] = 0; }
    }
    ~Pool() { for (int i = 0; i < K; ++i) delete v[i]; }

    E mk(int x) { return El<E>::make(x); }

    static std::vector<int> contents(const V& x) {
        std::vector<int> r;
        for (size_t i = 0; i < x.size(); ++i) r.push_back(El<E>::val(x[i]));
        return r;
    }

    void verify(int i, const char* after) {
        const V& x = *v[i];
        V& y = *v[i];
        const std::vector<int>& mm = m[i];
        PCHECK(x.size() == mm.size(), "after " << after << " on v" << i << ": size " << x.size() << ", expected " << show(mm));
        PCHECK(x.empty() == mm.empty(), "after " << after << ": empty() disagrees");
        PCHECK(x.capacity() >= x.size(), "after " << after << ": capacity " << x.capacity() << " below size " << x.size());
        PCHECK(x.capacity() >= reserved[i], "after " << after << ": capacity " << x.capacity() << " below reserved " << reserved[i]);
        PCHECK((size_t)(x.end() - x.begin()) == mm.size() && (size_t)(y.end() - y.begin()) == mm.size(), "after " << after << ": iteration range");
        PCHECK((size_t)efp::length(x) == mm.size(), "after " << after << ": length()");
        size_t k = 0;
        for (const E* p = x.begin(); p != x.end(); ++p, ++k)
            PCHECK(El<E>::val(*p) == mm[k], "after " << after << " on v" << i << ": element " << k << " is " << El<E>::val(*p) << ", expected " << show(mm));
        for (size_t j = 0; j < mm.size(); ++j) {
            PCHECK(&x[j] == x.begin() + j && &y[j] == y.begin() + j && &efp::nth(j, x) == x.data() + j && &efp::nth(j, y) == y.data() + j && efp::data(x) == x.data(),
                   "after " << after << ": element access paths disagree at " << j);
        }
        if (!pending().empty()) fail(std::string("after ") + after + ": " + pending());
    }

    template<size_t N>
    void from_array(int i) {
        efp::Array<E, N> a;
        std::vector<int> mm;
        for (size_t k = 0; k < N; ++k) { int x = s.ival(); a[k] = mk(x); mm.push_back(x); }
        V* n = new V(a);
        delete v[i]; v[i] = n; m[i] = mm; reserved[i] = 0;
    }
    template<size_t N>
    void from_arrvec(int i) {
        efp::ArrVec<E, N> a;
        std::vector<int> mm;
        size_t len = s.draw(N + 1);
        for (size_t k = 0; k < len; ++k) { int x = s.ival(); a.push_back(mk(x)); mm.push_back(x); }
        V* n = new V(a);
        delete v[i]; v[i] = n; m[i] = mm; reserved[i] = 0;
    }

    static const bool tracked = std::is_same<E, Tracked>::value;
    void step() {
        int i = s.draw(K), j = s.draw(K);
        std::vector<int>& mi = m[i];
        V& x = *v[i];
        size_t n = mi.size();
        switch (s.draw(27)) {
            case 0: case 1: case 2: {
                int e = s.ival();
                PLOG(s, "v" << i << ".push_back(copy " << e << ")");
                E t = mk(e);
                x.push_back(t);
                PCHECK(El<E>::val(t) == El<E>::val(mk(e)), "push_back changed its argument");
                mi.push_back(e);
                verify(i, "push_back");
                break;
            }
            case 3: {
                int e = s.ival();
                PLOG(s, "v" << i << ".push_back(move " << e << ")");
                x.push_back(mk(e));
                mi.push_back(e);
                verify(i, "push_back(&&)");
                break;
            }
            case 4: {
                int e = s.ival();
                PLOG(s, "v" << i << ".emplace_back(" << e << ")");
                x.emplace_back(mk(e));
                mi.push_back(e);
                verify(i, "emplace_back");
                break;
            }
            case 5: case 6: {
                PLOG(s, "v" << i << ".pop_back()");
                if (n == 0) {
                    bool threw = false;
                    try { x.pop_back(); } catch (const std::exception&) { threw = true; }
                    PCHECK(threw, "pop_back on an empty vector did not raise an error");
                    s.label("rejected");
                } else {
                    x.pop_back();
                    mi.pop_back();
                }
                verify(i, "pop_back");
                break;
            }
            case 7: case 8: case 9: {
                size_t pos = s.chance(1, 12) ? n + 1 + s.draw(3) : s.draw(n + 1);
                int e = s.ival();
                PLOG(s, "v" << i << ".insert(" << pos << ", " << e << ")");
                E t = mk(e);
                if (pos > n) {
                    bool threw = false;
                    try { x.insert(pos, t); } catch (const std::exception&) { threw = true; }
                    PCHECK(threw, "insert past the end did not raise an error");
                    s.label("rejected");
                } else {
                    x.insert(pos, t);
                    mi.insert(mi.begin() + pos, e);
                    s.label("insert");
                }
                verify(i, "insert");
                break;
            }
            case 10: case 11: {
                size_t pos = s.chance(1, 12) || n == 0 ? n + s.draw(3) : s.draw(n);
                PLOG(s, "v" << i << ".erase(" << pos << ")");
                if (pos >= n) {
                    bool threw = false;
                    try { x.erase(pos); } catch (const std::exception&) { threw = true; }
                    PCHECK(threw, "erase of a missing index did not raise an error");
                    s.label("rejected");
                } else {
                    x.erase(pos);
                    mi.erase(mi.begin() + pos);
                    s.label("erase");
                }
                verify(i, "erase");
                break;
            }
            case 12:
                PLOG(s, "v" << i << ".clear()");
                x.clear();
                mi.clear();
                verify(i, "clear");
                break;
            case 13: case 14: {
                size_t k = s.chance(1, 3) ? s.draw(n + 1) : s.chance(1, 24) ? s.big(tracked ? 1000 : 2000) : s.len(s.chance(1, 6) ? 200 : 24);
                PLOG(s, "v" << i << ".resize(" << k << ") from " << n);
                x.resize(k);
                mi.resize(k, 0);
                s.label(k < n ? "resize-shrink" : "resize-grow");
                verify(i, "resize");
                break;
            }
            case 15: {
                size_t k = s.chance(1, 2) ? n + s.draw(6) : s.len(s.chance(1, 6) ? 300 : 40);
                PLOG(s, "v" << i << ".reserve(" << k << ")");
                x.reserve(k);
                if (k > reserved[i]) reserved[i] = k;
                verify(i, "reserve");
                break;
            }
            case 16:
                PLOG(s, "v" << i << ".shrink_to_fit()");
                x.shrink_to_fit();
                PCHECK(x.capacity() <= x.size() + 1, "shrink_to_fit left room for " << x.capacity() << " with " << x.size() << " elements");
                reserved[i] = 0;
                verify(i, "shrink_to_fit");
                break;
            case 17: {
                PLOG(s, "v" << i << " = new V(copy of v" << j << ")");
                V* c = new V(const_cast<const V&>(*v[j]));
                std::vector<int> mm = m[j];
                delete v[i];
                v[i] = c; 
                if (i != j) { m[i] = mm; }
                reserved[i] = 0;
                s.label(mm.empty() ? "copy-empty" : "copy");
                verify(i, "copy construction");
                if (i != j) verify(j, "being copied");
                break;
            }
            case 18: {
                PLOG(s, "v" << i << " = new V(move of v" << j << ")");
                if (i == j) break;
                V* c = new V(efp::move(*v[j]));
                delete v[i];
                v[i] = c;
                m[i] = m[j];
                m[j].clear();
                reserved[i] = reserved[j] = 0;
                verify(i, "move construction");
                verify(j, "being moved from");
                break;
            }
            case 19: case 20: {
                PLOG(s, "v" << i << " = v" << j << " (sizes " << n << " <- " << m[j].size() << ")");
                V& r = (x = const_cast<const V&>(*v[j]));
                PCHECK(&r == &x, "copy assignment does not return its left side");
                if (i != j) { m[i] = m[j]; reserved[i] = 0; }
                s.label(i == j ? "self-assign" : "assign");
                verify(i, "copy assignment");
                verify(j, "being assigned from");
                break;
            }
            case 21: {
                PLOG(s, "v" << i << " = move(v" << j << ")");
                V& r = (x = efp::move(*v[j]));
                PCHECK(&r == &x, "move assignment does not return its left side");
                if (i != j) { m[i] = m[j]; m[j].clear(); reserved[i] = reserved[j] = 0; }
                verify(i, "move assignment");
                verify(j, "being move-assigned from");
                break;
            }
            case 22: {
                int a = s.ival(), b = s.ival(), c = s.ival(), d = s.ival();
                int k = s.draw(6);
                V* nv = nullptr;
                std::vector<int> mm;
                PLOG(s, "v" << i << " = V from " << k << "-element list/array");
                switch (k) {
                    case 0: nv = new V(); break;
                    case 1: nv = new V {mk(a)}; mm = {a}; break;
                    case 2: nv = new V {mk(a), mk(b)}; mm = {a, b}; break;
                    case 3: nv = new V {mk(a), mk(b), mk(c), mk(d), mk(a)}; mm = {a, b, c, d, a}; break;
                    case 4: if (s.flip()) from_array<1>(i); else from_array<5>(i); break;
                    default: if (s.flip()) from_arrvec<1>(i); else from_arrvec<6>(i); break;
                }
                if (nv) { delete v[i]; v[i] = nv; m[i] = mm; reserved[i] = 0; }
                verify(i, "construction");
                break;
            }
            case 23: {
                if (n == 0) break;
                size_t k = s.draw(n);
                int e = s.ival();
                PLOG(s, "v" << i << "[" << k << "] = " << e);
                switch (s.draw(4)) {
                    case 0: x[k] = mk(e); break;
                    case 1: efp::nth(k, x) = mk(e); break;
                    case 2: x.data()[k] = mk(e); break;
                    default: *(x.begin() + k) = mk(e); break;
                }
                mi[k] = e;
                verify(i, "element assignment");
                break;
            }
            case 24: {
                if (n == 0) break;
                size_t k = s.draw(n), pos = s.draw(n + 1);
                int how = s.draw(3);
                int e = mi[k];
                PLOG(s, "v" << i << (how == 0 ? ".push_back" : how == 1 ? ".insert" : ".emplace_back") << " of its own element " << k << " at " << pos);
                if (how == 0) { x.push_back(x[k]); mi.push_back(e); }
                else if (how == 1) { x.insert(pos, x[k]); mi.insert(mi.begin() + pos, e); }
                else { x.emplace_back(x[k]); mi.push_back(e); }
                s.label("own-element");
                verify(i, "adding its own element");
                break;
            }
            case 25: {
                if (n > (tracked ? 500 : 2000)) break;
                size_t k = s.chance(1, 4) ? s.big(tracked ? 600 : s.chance(1, 8) ? 80000 : 1500) : 1 + s.draw(40);
                uint64_t z = s.draw(1ull << 32);
                PLOG(s, "v" << i << ".push_back " << k << " times");
                for (size_t q = 0; q < k; ++q) {
                    z = z * 6364136223846793005ull + 1442695040888963407ull;
                    int e = (int)(z >> 44);
                    x.push_back(mk(e));
                    mi.push_back(e);
                }
                if (n + k > 1000) s.label("more than 1000 elements");
                verify(i, "many push_backs");
                break;
            }
            default: {
                bool want = m[i] == m[j];
                PLOG(s, "v" << i << " == v" << j);
                const V& a = *v[i];
                const V& b = *v[j];
                PCHECK((a == b) == want && (b == a) == want, "== says " << !want << " for " << show(m[i]) << " and " << show(m[j]));
                V c(a);
                PCHECK(c == a, "a copy is not equal to its source");
                if (n) {
                    size_t k = s.draw(n);
                    c[k] = mk(mi[k] == 5 ? 6 : 5);
                    PCHECK(!(c == a) && !(a == c), "vectors that differ in element " << k << " only are equal");
                    c[k] = a[k];
                    c.pop_back();
                    PCHECK(!(c == a) && !(a == c), "a vector is equal to a proper prefix of it");
                }
                PCHECK(a.max_size() >= a.size(), "max_size below size");
                s.label("compare");
            }
        }
    }
};

template<typename E>
void history(Src& s) {
    PLOG(s, "element type " << El<E>::name());
    Pool<E> p(s);
    int n = 1 + (int)s.len(60), grown = 0;
    for (int k = 0; k < n && !s.exhausted(); ++k) {
        p.step();
        for (int i = 0; i < Pool<E>::K; ++i) if (p.m[i].size() >= 2) grown = 1;
    }
    for (int i = 0; i < Pool<E>::K; ++i) p.verify(i, "the whole history");
    if (n >= 4 && grown) s.nontrivial();
}

void pbt_case(Src& s) {
    switch (s.draw(4)) {
        case 3: history<Listy>(s); break;
        case 0: history<int>(s); break;
        case 1: history<Tracked>(s); break;
        default: history<std::string>(s); break;
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src& s) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
