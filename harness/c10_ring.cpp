// C10: fixed-length ring (Vcb) and bounded ring queue (Vcq) against a deque model.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include <deque>
using namespace pbt;

const char* const pbt_name = "c10_ring";
const char* const pbt_rule = "";

template<typename R, typename E>
void verify_ring(Src& s, const R& x, const std::deque<int>& m, const char* after) {
    size_t n = m.size();
    R& y = const_cast<R&>(x);
    PCHECK((size_t)x.size() == n && (size_t)efp::length(x) == n, "after " << after << ": size " << (size_t)x.size() << ", expected " << show(m));
    PCHECK((size_t)(x.end() - x.begin()) == n, "after " << after << ": iteration range " << (long)(x.end() - x.begin()) << ", expected " << n);
    PCHECK((size_t)(y.end() - y.begin()) == n, "after " << after << ": mutable iteration range");
    PCHECK(x.empty() == (n == 0), "after " << after << ": empty()");
    size_t k = 0;
    for (const E* p = x.begin(); p != x.end(); ++p, ++k)
        PCHECK(El<E>::val(*p) == m[k], "after " << after << ": iterated element " << k << " is " << El<E>::val(*p) << ", expected " << show(m));
    PCHECK(k == n, "after " << after << ": iteration count");
    for (size_t i = 0; i < n; ++i) {
        PCHECK(El<E>::val(x[i]) == m[i], "after " << after << ": [" << i << "] is " << El<E>::val(x[i]) << ", expected " << show(m));
        PCHECK(El<E>::val(y[i]) == m[i], "after " << after << ": mutable [" << i << "]");
        PCHECK(El<E>::val(x.data()[i]) == m[i] && El<E>::val(y.data()[i]) == m[i], "after " << after << ": data()[" << i << "]");
        PCHECK(El<E>::val(efp::nth(i, x)) == m[i] && El<E>::val(efp::nth(i, y)) == m[i], "after " << after << ": nth(" << i << ")");
        PCHECK(El<E>::val(efp::data(x)[i]) == m[i] && El<E>::val(efp::data(y)[i]) == m[i], "after " << after << ": efp::data[" << i << "]");
    }
    if (!pending().empty()) fail(std::string("after ") + after + ": " + pending());
}

template<typename R, typename E>
void verify_functions(const R& x, const std::deque<int>& m) {
    std::vector<int> seen;
    efp::for_each([&](const E& e) { seen.push_back(El<E>::val(e)); }, x);
    PCHECK(std::deque<int>(seen.begin(), seen.end()) == m, "for_each over the ring saw " << show(seen) << ", expected " << show(m));
    auto mapped = efp::map([](const E& e) { return El<E>::val(e); }, x);
    PCHECK((size_t)mapped.size() == m.size(), "map over the ring: length");
    for (size_t i = 0; i < m.size(); ++i) PCHECK(mapped[i] == m[i], "map over the ring: element " << i);
    auto kept = efp::filter([](const E& e) { return El<E>::val(e) % 2 == 0; }, x);
    size_t c = 0;
    for (size_t i = 0; i < m.size(); ++i)
        if (m[i] % 2 == 0) { PCHECK(c < kept.size() && El<E>::val(kept[c]) == m[i], "filter over the ring"); ++c; }
    PCHECK(kept.size() == c, "filter over the ring: length");
}

// moved-from objects are only assigned to or destroyed
template<typename E, size_t N>
struct Q {
    typedef efp::Vcq<E, N> R;
    static const int K = 3;
    R* v[K];
    std::deque<int> m[K];
    bool moved[K];
    Src& s;
    int wraps;
    explicit Q(Src& s_) : s(s_), wraps(0) { for (int i = 0; i < K; ++i) { v[i] = new R(); moved[i] = false; } }
    ~Q() { for (int i = 0; i < K; ++i) delete v[i]; }
    void set(int i, R* r, const std::deque<int>& mm) { delete v[i]; v[i] = r; m[i] = mm; moved[i] = false; }
    void check(int i, const char* a) { if (!moved[i]) verify_ring<R, E>(s, *v[i], m[i], a); }
    void push(int i, int e) {
        E t = El<E>::make(e);
        v[i]->push_back(t);
        PCHECK(El<E>::val(t) == El<E>::val(El<E>::make(e)), "push_back changed its argument");
        m[i].push_back(e);
        if (m[i].size() > N) { m[i].pop_front(); ++wraps; s.label("overwrite"); }
    }
    void step() {
        int i = s.draw(K), j = s.draw(K);
        switch (s.draw(16)) {
            case 0: case 1: case 2: case 3: case 4: {
                if (moved[i]) break;
                int e = s.ival();
                PLOG(s, "q" << i << ".push_back(" << e << ")");
                push(i, e);
                check(i, "push_back");
                break;
            }
            case 5: {
                if (moved[i]) break;
                int cnt = s.chance(1, 24) ? s.big(std::is_same<E, int>::value ? 80000 : 700) : s.draw(2 * N + 2);
                PLOG(s, "q" << i << ".push_back x" << cnt);
                if (cnt > 40) { uint64_t z = s.draw(1ull << 32); for (int k = 0; k < cnt; ++k) push(i, (int)((z = z * 6364136223846793005ull + 1442695040888963407ull) >> 44)); s.label("more than 40 in a run"); }
                else for (int k = 0; k < cnt; ++k) push(i, s.ival());
                check(i, "a run of pushes");
                break;
            }
            case 6: case 7: case 8: case 9: {
                if (moved[i] || m[i].empty()) break;
                PLOG(s, "q" << i << ".pop_front()");
                {
                    E e = v[i]->pop_front();
                    PCHECK(El<E>::val(e) == m[i].front(), "pop_front returned " << El<E>::val(e) << ", expected " << m[i].front());
                }
                m[i].pop_front();
                s.label(m[i].empty() ? "emptied" : "pop");
                check(i, "pop_front");
                break;
            }
            case 10: {
                if (moved[j]) break;
                PLOG(s, "q" << i << " = new Vcq(q" << j << ")");
                std::deque<int> mm = m[j];
                set(i, new R(const_cast<const R&>(*v[j])), mm);
                check(i, "copy construction");
                check(j, "being copied");
                break;
            }
            case 11: {
                if (moved[j] || i == j) break;
                PLOG(s, "q" << i << " = new Vcq(move q" << j << ")");
                std::deque<int> mm = m[j];
                R* r = new R(efp::move(*v[j]));
                moved[j] = true;
                set(i, r, mm);
                check(i, "move construction");
                break;
            }
            case 12: {
                if (moved[j]) break;
                PLOG(s, "q" << i << " = q" << j);
                R& r = (*v[i] = const_cast<const R&>(*v[j]));
                PCHECK(&r == v[i], "assignment does not return its left side");
                std::deque<int> mm = m[j];
                m[i] = mm; moved[i] = false;
                check(i, "copy assignment");
                check(j, "being assigned from");
                if (i == j) s.label("self-assign");
                break;
            }
            case 13: {
                if (moved[j]) break;
                PLOG(s, "q" << i << " = move(q" << j << ")");
                R& r = (*v[i] = efp::move(*v[j]));
                PCHECK(&r == v[i], "assignment does not return its left side");
                if (i != j) { m[i] = m[j]; moved[i] = false; moved[j] = true; }
                check(i, "move assignment");
                break;
            }
            case 14: {
                if (moved[i] || m[i].empty()) break;
                size_t k = s.draw(m[i].size());
                PLOG(s, "q" << i << ".push_back(own element " << k << ")");
                int e = m[i][k];
                v[i]->push_back((*v[i])[k]);
                m[i].push_back(e);
                if (m[i].size() > N) m[i].pop_front();
                check(i, "pushing its own element");
                break;
            }
            default:
                if (moved[i]) { PLOG(s, "q" << i << " = new Vcq()"); set(i, new R(), std::deque<int>()); check(i, "construction"); break; }
                PLOG(s, "sequence functions over q" << i);
                verify_functions<R, E>(*v[i], m[i]);
        }
    }
};

template<typename E, size_t N>
struct B {
    typedef efp::Vcb<E, N> R;
    static const int K = 3;
    R* v[K];
    std::deque<int> m[K];
    bool moved[K];
    Src& s;
    int wraps;
    explicit B(Src& s_) : s(s_), wraps(0) { for (int i = 0; i < K; ++i) { v[i] = new R(); m[i].assign(N, 0); moved[i] = false; } }
    ~B() { for (int i = 0; i < K; ++i) delete v[i]; }
    void set(int i, R* r, const std::deque<int>& mm) { delete v[i]; v[i] = r; m[i] = mm; moved[i] = false; }
    void check(int i, const char* a) { if (!moved[i]) verify_ring<R, E>(s, *v[i], m[i], a); }
    void push(int i, int e) {
        E t = El<E>::make(e);
        v[i]->push_back(t);
        m[i].push_back(e);
        m[i].pop_front();
        ++wraps;
    }
    void step() {
        int i = s.draw(K), j = s.draw(K);
        switch (s.draw(12)) {
            case 0: case 1: case 2: case 3: {
                if (moved[i]) break;
                int e = s.ival();
                PLOG(s, "b" << i << ".push_back(" << e << ")");
                push(i, e);
                check(i, "push_back");
                break;
            }
            case 4: {
                if (moved[i]) break;
                int cnt = s.chance(1, 24) ? s.big(std::is_same<E, int>::value ? 80000 : 700) : s.draw(2 * N + 2);
                PLOG(s, "b" << i << ".push_back x" << cnt);
                if (cnt > 40) { uint64_t z = s.draw(1ull << 32); for (int k = 0; k < cnt; ++k) push(i, (int)((z = z * 6364136223846793005ull + 1442695040888963407ull) >> 44)); s.label("more than 40 in a run"); }
                else for (int k = 0; k < cnt; ++k) push(i, s.ival());
                check(i, "a run of pushes");
                break;
            }
            case 5: {
                if (moved[j]) break;
                PLOG(s, "b" << i << " = new Vcb(b" << j << ")");
                std::deque<int> mm = m[j];
                set(i, new R(const_cast<const R&>(*v[j])), mm);
                check(i, "copy construction");
                check(j, "being copied");
                break;
            }
            case 6: {
                if (moved[j] || i == j) break;
                PLOG(s, "b" << i << " = new Vcb(move b" << j << ")");
                std::deque<int> mm = m[j];
                R* r = new R(efp::move(*v[j]));
                moved[j] = true;
                set(i, r, mm);
                check(i, "move construction");
                break;
            }
            case 7: {
                if (moved[j]) break;
                PLOG(s, "b" << i << " = b" << j);
                R& r = (*v[i] = const_cast<const R&>(*v[j]));
                PCHECK(&r == v[i], "assignment does not return its left side");
                std::deque<int> mm = m[j];
                m[i] = mm; moved[i] = false;
                check(i, "copy assignment");
                check(j, "being assigned from");
                if (i == j) s.label("self-assign");
                break;
            }
            case 8: {
                if (moved[j]) break;
                PLOG(s, "b" << i << " = move(b" << j << ")");
                *v[i] = efp::move(*v[j]);
                if (i != j) { m[i] = m[j]; moved[i] = false; moved[j] = true; }
                check(i, "move assignment");
                break;
            }
            case 9: {
                if (moved[i]) break;
                size_t k = s.draw(N);
                PLOG(s, "b" << i << ".push_back(own element " << k << ")");
                int e = m[i][k];
                v[i]->push_back((*v[i])[k]);
                m[i].push_back(e);
                m[i].pop_front();
                check(i, "pushing its own element");
                break;
            }
            default:
                if (moved[i]) { PLOG(s, "b" << i << " = new Vcb()"); set(i, new R(), std::deque<int>(N, 0)); check(i, "construction"); break; }
                PLOG(s, "sequence functions over b" << i);
                verify_functions<R, E>(*v[i], m[i]);
        }
    }
};

template<typename P, size_t N>
void run(Src& s) {
    P p(s);
    int n = 1 + (int)s.len(60);
    for (int k = 0; k < n && !s.exhausted(); ++k) p.step();
    for (int i = 0; i < p.K; ++i) p.check(i, "the whole history");
    if (p.wraps >= (int)N) s.nontrivial();
}
template<typename E, size_t N>
void hist(Src& s) {
    if (s.chance(2, 3)) { PLOG(s, "Vcq<" << El<E>::name() << "," << N << ">"); run<Q<E, N>, N>(s); }
    else { PLOG(s, "Vcb<" << El<E>::name() << "," << N << ">"); run<B<E, N>, N>(s); }
}
template<typename E>
void bysize(Src& s) {
    switch (s.draw(40)) {
        case 0: hist<E, 300>(s); break;
        case 1: case 2: hist<E, 40>(s); break;
        case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 10: hist<E, 1>(s); break;
        case 11: case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19: hist<E, 2>(s); break;
        case 20: case 21: case 22: case 23: case 24: case 25: case 26: case 27: case 28: hist<E, 3>(s); break;
        default: hist<E, 8>(s); break;
    }
}
void pbt_case(Src& s) {
    switch (s.draw(4)) {
        case 3: bysize<Listy>(s); break;
        case 0: bysize<int>(s); break;
        case 1: bysize<Tracked>(s); break;
        default: bysize<std::string>(s); break;
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src& s) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
