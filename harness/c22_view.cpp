// C22: view objects of every kind under construction, copying, assignment, conversion and comparison.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
using namespace pbt;
typedef std::vector<int> Model;

const char* const pbt_name = "c22_view";
const char* const pbt_rule = "";

template<typename F> bool throws(F f) {
    try { f(); } catch (pbt::Fail&) { throw; } catch (const std::exception&) { return true; }
    return false;
}
// what a view should denote
struct Den {
    bool null; size_t off, len;
    Den() : null(true), off(0), len(0) {}
    Den(size_t o, size_t l) : null(false), off(o), len(l) {}
};
template<typename E> struct Source {
    E* data; Model m;
    explicit Source(const Model& mm) : m(mm) {
        data = (E*)operator new(sizeof(E) * m.size() + (m.empty() ? 1 : 0));
        for (size_t i = 0; i < m.size(); ++i) new (data + i) E(El<E>::make(m[i]));
    }
    ~Source() { for (size_t i = 0; i < m.size(); ++i) data[i].~E(); operator delete(data); }
};

template<typename E, typename A /* E or const E */, size_t NF, size_t NB> struct Views {
    typedef efp::ArrayView<A, NF> F;
    typedef efp::ArrVecView<A, NB> B;
    typedef efp::VectorView<A> D;
    static const int K = 3;
    Src& s; Source<E>& src;
    F* f[K]; B* b[K]; D* d[K];
    Den mf[K], mb[K], md[K];
    int kinds;
    Views(Src& s_, Source<E>& r) : s(s_), src(r), kinds(0) { for (int i = 0; i < K; ++i) { f[i] = new F(); b[i] = new B(); d[i] = new D(); } }
    ~Views() { for (int i = 0; i < K; ++i) { delete f[i]; delete b[i]; delete d[i]; } }

    template<typename V> void denotes(V& v, const Den& w, size_t cap, const char* what) {
        const V& c = v;
        PCHECK(c.capacity() == cap, what << ": capacity " << c.capacity() << ", expected " << cap);
        if (w.null) { PCHECK(c.data() == nullptr && v.data() == nullptr && c.begin() == nullptr, what << ": a view of nothing has data"); return; }
        const E* p = src.data + w.off;
        PCHECK(c.size() == w.len && (size_t)efp::length(c) == w.len && c.empty() == (w.len == 0), what << ": " << c.size() << " elements, expected " << w.len);
        PCHECK(c.data() == p && v.data() == p && efp::data(c) == p && c.begin() == p && v.begin() == p && c.end() == p + w.len && v.end() == p + w.len, what << ": the view is of another place than elements " << w.off << " .. " << w.off + w.len);
        for (size_t i = 0; i < w.len; ++i) {
            PCHECK(&c[i] == p + i && &v[i] == p + i && &efp::nth(i, c) == p + i && &efp::nth(i, v) == p + i, what << ": element " << i << " is not the source's");
            PCHECK(El<E>::val(c[i]) == El<E>::val(El<E>::make(src.m[w.off + i])), what << ": value of element " << i);
        }
        size_t n = 0;
        for (const E& e : c) { PCHECK(&e == p + n, what << ": iteration"); ++n; }
        PCHECK(n == w.len, what << ": iteration saw " << n << " elements");
    }
    void all(const char* what) {
        for (int i = 0; i < K; ++i) { denotes(*f[i], mf[i], NF, what); denotes(*b[i], mb[i], NB, what); denotes(*d[i], md[i], md[i].len, what); }
        PCHECK(b[0]->size() == mb[0].len && d[0]->size() == md[0].len && f[0]->size() == NF, what << ": size");
        if (!pending().empty()) fail(std::string(what) + ": " + pending());
    }
    template<typename V> void put(V*& slot, V* n) { delete slot; slot = n; }
    bool range(Den& w, size_t max, bool exact) {
        const size_t n = src.m.size();
        if (exact && n < max) return false;
        const size_t len = exact ? max : s.draw(std::min(max, n) + 1);
        w = Den(s.draw(n - len + 1), len);
        return true;
    }
    static bool same(const Den& a, const Den& c) { return a.null == c.null && a.off == c.off && a.len == c.len; }
    template<typename V> void compare(const V& x, const V& y, const Den& a, const Den& c) {
        // empty views of different places are not judged
        if (!a.null && !c.null && a.len == 0 && c.len == 0 && a.off != c.off) return;
        if (a.null != c.null && a.len == 0 && c.len == 0) return;
        const bool w = same(a, c);
        PCHECK((x == y) == w && (y == x) == w, "views of elements " << a.off << " .. " << a.off + a.len << " and " << c.off << " .. " << c.off + c.len << ": == is " << !w);
        s.label(w ? "equal" : "unequal");
    }
    void step() {
        const int i = s.draw(K), j = s.draw(K);
        Den w;
        const char* what = "";
        switch (s.draw(20)) {
            case 0: case 1: if (!range(w, NF, true)) return; what = "a fixed-size view"; put(f[i], s.flip() ? new F(src.data + w.off) : new F(src.data + w.off, NF)); mf[i] = w; break;
            case 2: case 3: range(w, NB, false); what = "a bounded view"; put(b[i], new B(src.data + w.off, w.len)); mb[i] = w; break;
            case 4: case 5: range(w, src.m.size(), false); what = "a dynamic view"; put(d[i], new D(src.data + w.off, w.len)); md[i] = w; break;
            case 6: { what = "copying a fixed-size view"; if (s.flip()) { F* n = new F(*f[j]); put(f[i], n); } else { F& r = (*f[i] = *f[j]); PCHECK(&r == f[i], "assignment does not return its left side"); } w = mf[j]; mf[i] = w; break; }
            case 7: { what = "copying a bounded view"; if (s.flip()) { B* n = new B(*b[j]); put(b[i], n); } else { B& r = (*b[i] = *b[j]); PCHECK(&r == b[i], "assignment does not return its left side"); } w = mb[j]; mb[i] = w; break; }
            case 8: { what = "copying a dynamic view"; if (s.flip()) { D* n = new D(*d[j]); put(d[i], n); } else { D& r = (*d[i] = *d[j]); PCHECK(&r == d[i], "assignment does not return its left side"); } w = md[j]; md[i] = w; break; }
            case 9: if (mf[j].null) return; what = "a bounded view from a fixed-size one"; put(b[i], new B(*f[j])); mb[i] = mf[j]; s.label("converted"); kinds |= 1; break;
            case 10: if (mf[j].null) return; what = "a dynamic view from a fixed-size one"; put(d[i], new D(*f[j])); md[i] = mf[j]; s.label("converted"); kinds |= 2; break;
            case 11: case 12: what = "a dynamic view from a bounded one"; put(d[i], new D(*b[j])); md[i] = mb[j]; s.label("converted"); kinds |= 4; break;
            case 13: {
                what = "a default view";
                switch (s.draw(3)) { case 0: put(f[i], new F()); mf[i] = Den(); break; case 1: put(b[i], new B()); mb[i] = Den(); break; default: put(d[i], new D()); md[i] = Den(); }
                break;
            }
            case 14: what = "comparing"; compare(*f[i], *f[j], mf[i], mf[j]); break;
            case 15: what = "comparing"; compare(*b[i], *b[j], mb[i], mb[j]); break;
            case 16: what = "comparing"; compare(*d[i], *d[j], md[i], md[j]); break;
            case 17: {
                what = "views of a null pointer";
                const size_t n = 1 + s.draw(NB);
                const A* null = nullptr;
                PCHECK(throws([&] { F x(null); }), "a non-empty fixed-size view of a null pointer was accepted");
                PCHECK(throws([&] { B x(null, n); }), "a non-empty bounded view of a null pointer was accepted");
                PCHECK(throws([&] { D x(null, n); }), "a non-empty dynamic view of a null pointer was accepted");
                PCHECK(!throws([&] { B x(null, 0); D y(null, 0); PCHECK(x.empty() && y.empty(), "an empty view of a null pointer is not empty"); }), "an empty view of a null pointer was refused");
                s.label("null");
                break;
            }
            case 18: {
                if (src.m.empty()) return;
                what = "changing an element of the source";
                const size_t k = s.draw(src.m.size());
                const int x = s.ival();
                src.data[k] = El<E>::make(x);
                src.m[k] = x;
                break;
            }
            default: {
                what = "resizing a fixed-size view";
                const size_t k = s.draw(2 * NF + 2);
                F& v = *f[i];
                PCHECK(throws([&] { v.resize(k); }) == (k > NF) && throws([&] { v.reserve(k); }) == (k > NF), "resize or reserve of a view of " << NF << " elements to " << k);
            }
        }
        PLOG(s, what << " (" << i << ", " << j << ")");
        all(what);
    }
};
template<typename E, typename A, size_t NF, size_t NB> void run(Src& s) {
    Model m;
    size_t n = s.chance(1, 40) ? s.big(3000) : s.len(14);
    for (size_t i = 0; i < n; ++i) m.push_back(n > 40 ? (int)(i * 7919 % 101) : s.ival());
    PLOG(s, "elements " << El<E>::name() << " " << show(m) << ", fixed size " << NF << ", bound " << NB);
    Source<E> src(m);
    Views<E, A, NF, NB> v(s, src);
    int steps = 1 + (int)s.len(30);
    for (int k = 0; k < steps && !s.exhausted(); ++k) v.step();
    if (v.kinds && n > 1) s.nontrivial();
}
void pbt_case(Src& s) {
    switch (s.draw(8)) {
        case 0: run<int, int, 1, 1>(s); break;
        case 1: run<int, int, 4, 6>(s); break;
        case 2: run<int, const int, 3, 9>(s); break;
        case 3: run<std::string, std::string, 2, 5>(s); break;
        case 4: run<Tracked, Tracked, 4, 5>(s); break;
        case 5: run<int, int, 40, 70>(s); break;
        case 6: run<std::string, const std::string, 5, 8>(s); break;
        default: run<int, int, 2, 3>(s);
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src&) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
