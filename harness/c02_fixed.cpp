// C02: fixed-size and fixed-capacity sequences against a bounded list model.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
using namespace pbt;

const char* const pbt_name = "c02_fixed";
const char* const pbt_rule = "";

template<typename F>
bool throws(const F& f) {
    try { f(); } catch (const std::runtime_error&) { return true; } catch (const std::exception&) { return true; }
    return false;
}

template<typename E, size_t N>
struct Pool {
    typedef efp::ArrVec<E, N> V;
    static const int K = 3;
    V* v[K];
    std::vector<int> m[K];
    Src& s;
    bool full, rejected;

    explicit Pool(Src& s_) : s(s_), full(false), rejected(false) { for (int i = 0; i < K; ++i) v[i] = new V(); }
    ~Pool() { for (int i = 0; i < K; ++i) delete v[i]; }
    static E mk(int x) { return El<E>::make(x); }

    void verify(int i, const char* after) {
        const V& x = *v[i];
        V& y = *v[i];
        const std::vector<int>& mm = m[i];
        PCHECK(x.size() <= N, "after " << after << ": size " << x.size() << " exceeds capacity " << N);
        PCHECK(x.size() == mm.size(), "after " << after << " on a" << i << ": size " << x.size() << ", expected " << show(mm));
        PCHECK(x.capacity() == N, "after " << after << ": capacity changed");
        PCHECK(x.empty() == mm.empty(), "after " << after << ": empty() disagrees");
        PCHECK((size_t)(x.end() - x.begin()) == mm.size() && (size_t)(y.end() - y.begin()) == mm.size(), "after " << after << ": iteration range");
        PCHECK(efp::length(x) == mm.size(), "after " << after << ": length()");
        size_t k = 0;
        for (const E* p = x.begin(); p != x.end(); ++p, ++k)
            PCHECK(El<E>::val(*p) == mm[k], "after " << after << " on a" << i << ": element " << k << " is " << El<E>::val(*p) << ", expected " << show(mm));
        for (size_t j = 0; j < mm.size(); ++j)
            PCHECK(&x[j] == x.begin() + j && &y[j] == y.begin() + j && &efp::nth(j, x) == x.data() + j && &efp::nth(j, y) == y.data() + j && efp::data(x) == x.data() && efp::data(y) == y.data(),
                   "after " << after << ": element access paths disagree at " << j);
        if (!pending().empty()) fail(std::string("after ") + after + ": " + pending());
        if (mm.size() == N) full = true;
    }
    void expect_reject(bool threw, const char* what) {
        PCHECK(threw, what << " was not rejected");
        rejected = true;
        s.label("rejected");
    }
    template<size_t M>
    void convert_from(int i) {
        efp::ArrVec<E, M> a;
        std::vector<int> mm;
        size_t len = s.draw(M + 1);
        for (size_t k = 0; k < len; ++k) { int e = s.ival(); a.push_back(mk(e)); mm.push_back(e); }
        PLOG(s, "a" << i << " = from ArrVec<" << M << "> of " << show(mm));
        V* n = new V(a);
        delete v[i];
        v[i] = n;
        m[i] = mm;
        s.label("convert");
        PCHECK(a.size() == mm.size(), "conversion changed its source");
    }

    void step() {
        int i = s.draw(K), j = s.draw(K);
        std::vector<int>& mi = m[i];
        V& x = *v[i];
        size_t n = mi.size();
        switch (s.draw(21)) {
            case 0: case 1: case 2: case 3: {
                int e = s.ival();
                bool mv = s.flip();
                PLOG(s, "a" << i << ".push_back(" << e << (mv ? " moved)" : ")"));
                E t = mk(e);
                if (n == N) {
                    expect_reject(throws([&] { if (mv) x.push_back(efp::move(t)); else x.push_back(t); }), "push_back on a full sequence");
                } else {
                    if (mv) x.push_back(efp::move(t)); else x.push_back(t);
                    mi.push_back(e);
                }
                verify(i, "push_back");
                break;
            }
            case 4: case 5: case 6: {
                size_t pos = s.chance(1, 8) ? n + 1 + s.draw(3) : s.draw(n + 1);
                int e = s.ival();
                PLOG(s, "a" << i << ".insert(" << pos << ", " << e << ")");
                E t = mk(e);
                if (pos > n || n == N) {
                    expect_reject(throws([&] { x.insert(pos, t); }), pos > n ? "insert past the end" : "insert into a full sequence");
                } else {
                    x.insert(pos, t);
                    mi.insert(mi.begin() + pos, e);
                    s.label("insert");
                }
                verify(i, "insert");
                break;
            }
            case 7: case 8: {
                size_t pos = s.chance(1, 8) || n == 0 ? n + s.draw(3) : s.draw(n);
                PLOG(s, "a" << i << ".erase(" << pos << ")");
                if (pos >= n) expect_reject(throws([&] { x.erase(pos); }), "erase of a missing index");
                else { x.erase(pos); mi.erase(mi.begin() + pos); s.label("erase"); }
                verify(i, "erase");
                break;
            }
            case 9: {
                PLOG(s, "a" << i << ".pop_back()");
                if (n == 0) expect_reject(throws([&] { x.pop_back(); }), "pop_back on an empty sequence");
                else { x.pop_back(); mi.pop_back(); }
                verify(i, "pop_back");
                break;
            }
            case 10:
                PLOG(s, "a" << i << ".clear()");
                x.clear(); mi.clear();
                verify(i, "clear");
                break;
            case 11: {
                size_t k = s.chance(1, 5) ? N + 1 + s.draw(3) : s.draw(N + 1);
                PLOG(s, "a" << i << ".resize(" << k << ") from " << n);
                if (k > N) expect_reject(throws([&] { x.resize(k); }), "resize beyond the capacity");
                else { x.resize(k); mi.resize(k, 0); s.label("resize"); }
                verify(i, "resize");
                break;
            }
            case 12: {
                size_t k = s.draw(N + 4);
                PLOG(s, "a" << i << ".reserve(" << k << ")");
                if (k > N) expect_reject(throws([&] { x.reserve(k); }), "reserve beyond the capacity");
                else x.reserve(k);
                verify(i, "reserve");
                break;
            }
            case 13: {
                bool mv = s.flip();
                PLOG(s, "a" << i << " = new " << (mv ? "(move" : "(copy") << " of a" << j << ")");
                if (mv && i == j) break;
                V* c = mv ? new V(efp::move(*v[j])) : new V(const_cast<const V&>(*v[j]));
                std::vector<int> mm = m[j];
                delete v[i];
                v[i] = c;
                m[i] = mm;
                if (mv) m[j].clear();
                verify(i, mv ? "move construction" : "copy construction");
                if (i != j) verify(j, mv ? "being moved from" : "being copied");
                break;
            }
            case 14: {
                PLOG(s, "a" << i << " = a" << j);
                V& r = (x = const_cast<const V&>(*v[j]));
                PCHECK(&r == &x, "copy assignment does not return its left side");
                if (i != j) m[i] = m[j];
                verify(i, "copy assignment");
                verify(j, "being assigned from");
                break;
            }
            case 15: {
                PLOG(s, "a" << i << " = move(a" << j << ")");
                V& r = (x = efp::move(*v[j]));
                PCHECK(&r == &x, "move assignment does not return its left side");
                if (i != j) { m[i] = m[j]; m[j].clear(); }
                verify(i, "move assignment");
                verify(j, "being move-assigned from");
                break;
            }
            case 16: {
                int a = s.ival(), b = s.ival(), c = s.ival();
                int k = s.draw(7);
                if (k >= 4) {
                    if (k == 4) convert_from<1>(i);
                    else if (k == 5) convert_from<(N > 1 ? N - 1 : 1)>(i);
                    else convert_from<N>(i);
                } else {
                    PLOG(s, "a" << i << " = from a list of " << k);
                    std::vector<int> mm;
                    V* nv = nullptr;
                    bool threw = throws([&] {
                        switch (k) {
                            case 0: nv = new V(); break;
                            case 1: nv = new V {mk(a)}; mm = {a}; break;
                            case 2: nv = new V {mk(a), mk(b)}; mm = {a, b}; break;
                            default: nv = new V {mk(a), mk(b), mk(c)}; mm = {a, b, c}; break;
                        }
                    });
                    if ((size_t)k > N) { expect_reject(threw, "a list longer than the capacity"); }
                    else { PCHECK(!threw && nv, "a fitting list was rejected"); delete v[i]; v[i] = nv; m[i] = mm; }
                }
                verify(i, "construction");
                break;
            }
            case 17: {
                if (n == 0) break;
                size_t k = s.draw(n);
                int e = s.ival();
                PLOG(s, "a" << i << "[" << k << "] = " << e);
                switch (s.draw(4)) {
                    case 0: x[k] = mk(e); break;
                    case 1: efp::nth(k, x) = mk(e); break;
                    case 2: x.data()[k] = mk(e); break;
                    default: *(x.begin() + k) = mk(e); break;
                }
                mi[k] = e;
                verify(i, "element assignment");
                break;
            }
            case 18: {
                if (n == 0 || n == N) break;
                size_t k = s.draw(n), pos = s.draw(n + 1);
                int e = mi[k];
                bool ins = s.flip();
                PLOG(s, "a" << i << (ins ? ".insert" : ".push_back") << " of its own element " << k << " at " << pos);
                if (ins) { x.insert(pos, x[k]); mi.insert(mi.begin() + pos, e); }
                else { x.push_back(x[k]); mi.push_back(e); }
                s.label("own-element");
                verify(i, "adding its own element");
                break;
            }
            case 19: {
                size_t k = N - n, r = s.draw(3);
                if (s.flip()) k = s.draw(k + 1);
                PLOG(s, "a" << i << ".push_back " << k << " times");
                for (size_t q = 0; q < k; ++q) {
                    int e = (int)((q * 2654435761u + r) >> 3) & 0xffff;
                    x.push_back(mk(e));
                    mi.push_back(e);
                }
                if (n + k > 32) s.label("more than 32 elements");
                verify(i, "many push_backs");
                break;
            }
            default: {
                bool want = m[i] == m[j];
                PLOG(s, "a" << i << " == a" << j);
                const V& a = *v[i];
                const V& b = *v[j];
                PCHECK((a == b) == want && (b == a) == want, "== says " << !want << " for " << show(m[i]) << " and " << show(m[j]));
                if (n) {
                    V c(a);
                    size_t k = s.draw(n);
                    c[k] = mk(mi[k] == 5 ? 6 : 5);
                    PCHECK(!(c == a) && !(a == c), "sequences that differ in element " << k << " only are equal");
                    c[k] = a[k];
                    c.pop_back();
                    PCHECK(!(c == a) && !(a == c), "a sequence is equal to a proper prefix of it");
                }
                // a dynamic vector built from it has the same elements
                efp::Vector<E> d(a);
                PCHECK(d.size() == m[i].size(), "vector from fixed-capacity sequence: size");
                for (size_t k = 0; k < d.size(); ++k) PCHECK(El<E>::val(d[k]) == m[i][k], "vector from fixed-capacity sequence: element " << k);
            }
        }
    }
};

template<typename E, size_t N, size_t... I> struct MkIl;

// Array histories
template<typename E, size_t N>
struct APool {
    typedef efp::Array<E, N> V;
    static const int K = 3;
    V* v[K];
    std::vector<int> m[K];
    bool valid[K];  // false: moved from, element values unspecified
    Src& s;
    explicit APool(Src& s_) : s(s_) { for (int i = 0; i < K; ++i) { v[i] = new V(); m[i].assign(N, 0); valid[i] = true; } }
    ~APool() { for (int i = 0; i < K; ++i) delete v[i]; }
    static E mk(int x) { return El<E>::make(x); }
    void verify(int i, const char* after) {
        const V& x = *v[i];
        V& y = *v[i];
        PCHECK(x.size() == N && efp::length(x) == N && x.capacity() == N && x.empty() == (N == 0), "after " << after << ": size");
        PCHECK((size_t)(x.end() - x.begin()) == N && (size_t)(y.end() - y.begin()) == N, "after " << after << ": iteration range");
        if (valid[i])
            for (size_t k = 0; k < N; ++k) {
                PCHECK(El<E>::val(x[k]) == m[i][k], "after " << after << " on b" << i << ": element " << k << " is " << El<E>::val(x[k]) << ", expected " << show(m[i]));
                PCHECK(&x[k] == x.begin() + k && &y[k] == y.begin() + k && &efp::nth(k, x) == x.data() + k && &efp::nth(k, y) == y.data() + k && efp::data(x) == x.data(), "access paths");
            }
        if (!pending().empty()) fail(std::string("after ") + after + ": " + pending());
    }
    void refill(int i) {
        for (size_t k = 0; k < N; ++k) { int e = s.ival(); (*v[i])[k] = mk(e); m[i][k] = e; }
        valid[i] = true;
    }
    void step() {
        int i = s.draw(K), j = s.draw(K);
        V& x = *v[i];
        switch (s.draw(10)) {
            case 0: case 1: case 2: {
                size_t k = s.draw(N);
                int e = s.ival();
                PLOG(s, "b" << i << "[" << k << "] = " << e);
                switch (s.draw(4)) {
                    case 0: x[k] = mk(e); break;
                    case 1: efp::nth(k, x) = mk(e); break;
                    case 2: x.data()[k] = mk(e); break;
                    default: *(x.begin() + k) = mk(e); break;
                }
                m[i][k] = e;
                verify(i, "element assignment");
                break;
            }
            case 3: {
                PLOG(s, "b" << i << " = new (copy of b" << j << ")");
                V* c = new V(const_cast<const V&>(*v[j]));
                std::vector<int> mm = m[j];
                bool ok = valid[j];
                delete v[i]; v[i] = c; m[i] = mm; valid[i] = ok;
                verify(i, "copy construction");
                verify(j, "being copied");
                break;
            }
            case 4: {
                if (i == j) break;
                PLOG(s, "b" << i << " = new (move of b" << j << ")");
                V* c = new V(efp::move(*v[j]));
                delete v[i]; v[i] = c; m[i] = m[j]; valid[i] = valid[j]; valid[j] = false;
                verify(i, "move construction");
                verify(j, "being moved from");
                refill(j);
                verify(j, "refilling a moved-from array");
                break;
            }
            case 5: {
                PLOG(s, "b" << i << " = b" << j);
                V& r = (x = const_cast<const V&>(*v[j]));
                PCHECK(&r == &x, "copy assignment does not return its left side");
                m[i] = m[j]; valid[i] = valid[j];
                verify(i, "copy assignment");
                verify(j, "being assigned from");
                break;
            }
            case 6: {
                PLOG(s, "b" << i << " = move(b" << j << ")");
                V& r = (x = efp::move(*v[j]));
                PCHECK(&r == &x, "move assignment does not return its left side");
                if (i != j) { m[i] = m[j]; valid[i] = valid[j]; valid[j] = false; }
                verify(i, "move assignment");
                verify(j, "being move-assigned from");
                if (!valid[j]) refill(j);
                break;
            }
            case 7: {
                int a = s.ival(), b = s.ival(), c = s.ival();
                int k = 1 + s.draw(4);
                V* nv = nullptr;
                std::vector<int> mm;
                PLOG(s, "b" << i << " = from a list of " << k);
                bool threw = throws([&] {
                    switch (k) {
                        case 1: nv = new V {mk(a)}; mm = {a}; break;
                        case 2: nv = new V {mk(a), mk(b)}; mm = {a, b}; break;
                        case 3: nv = new V {mk(a), mk(b), mk(c)}; mm = {a, b, c}; break;
                        default: nv = new V {mk(a), mk(b), mk(c), mk(a), mk(b)}; mm = {a, b, c, a, b}; k = 5; break;
                    }
                });
                if ((size_t)(k == 4 ? 5 : k) != N) { PCHECK(threw, "a list of the wrong length was accepted"); s.label("rejected"); }
                else { PCHECK(!threw && nv, "a list of the right length was rejected"); delete v[i]; v[i] = nv; m[i] = mm; valid[i] = true; }
                verify(i, "list construction");
                break;
            }
            case 8: {
                size_t k = s.draw(N + 3);
                PLOG(s, "b" << i << ".resize/reserve(" << k << ")");
                bool t1 = throws([&] { x.resize(k); });
                bool t2 = throws([&] { x.reserve(k); });
                PCHECK(t1 == (k != N), "resize(" << k << ") of an array of " << N);
                PCHECK(t2 == (k > N), "reserve(" << k << ") of an array of " << N);
                verify(i, "resize/reserve");
                break;
            }
            default: {
                bool want = m[i] == m[j];
                PLOG(s, "b" << i << " == b" << j);
                if (valid[i] && valid[j]) PCHECK((*v[i] == *v[j]) == want, "== says " << !want << " for " << show(m[i]) << " and " << show(m[j]));
                if (valid[i]) {
                    V c(*v[i]);
                    size_t k = s.draw(N);
                    c[k] = mk(m[i][k] == 5 ? 6 : 5);
                    PCHECK(!(c == *v[i]) && !(*v[i] == c), "arrays that differ in element " << k << " only are equal");
                }
                efp::Vector<E> d(*v[i]);
                PCHECK(d.size() == N, "vector from array: size");
                if (valid[i]) for (size_t k = 0; k < N; ++k) PCHECK(El<E>::val(d[k]) == m[i][k], "vector from array: element " << k);
            }
        }
    }
};

template<typename E, size_t N>
void hist(Src& s) {
    int n = 1 + (int)s.len(50);
    if (s.chance(2, 3)) {
        PLOG(s, "ArrVec<" << El<E>::name() << "," << N << ">");
        Pool<E, N> p(s);
        for (int k = 0; k < n && !s.exhausted(); ++k) p.step();
        for (int i = 0; i < p.K; ++i) p.verify(i, "the whole history");
        if (p.full && p.rejected) s.nontrivial();
    } else {
        PLOG(s, "Array<" << El<E>::name() << "," << N << ">");
        APool<E, N> p(s);
        for (int k = 0; k < n && !s.exhausted(); ++k) p.step();
        for (int i = 0; i < p.K; ++i) p.verify(i, "the whole history");
        if (n >= 5) s.nontrivial();
    }
}

template<typename E>
void bysize(Src& s) {
    switch (s.draw(11)) {
        case 0: case 1: hist<E, 1>(s); break;
        case 2: case 3: case 4: hist<E, 3>(s); break;
        case 5: case 6: hist<E, 5>(s); break;
        case 7: case 8: hist<E, 16>(s); break;
        case 9: hist<E, 40>(s); break;
        default: hist<E, 300>(s); break;
    }
}

void pbt_case(Src& s) {
    switch (s.draw(4)) {
        case 3: bysize<Listy>(s); break;
        case 0: bysize<int>(s); break;
        case 1: bysize<Tracked>(s); break;
        default: bysize<std::string>(s); break;
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src& s) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
