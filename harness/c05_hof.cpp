// C05: map, filter, folds and traversals against list definitions, on every sequence kind.
#include "user_seq.hpp"
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
using namespace pbt;

const char* const pbt_name = "c05_hof";
const char* const pbt_rule = "";

typedef unsigned long long U;
// generated functions: an arbitrary table-free function of all arguments
struct Fn {
    U k;
    int of(int a) const { return (int)(mix(k ^ (U)(unsigned)a) % 2001) - 1000; }
    int of(int a, int b) const { return (int)(mix(k ^ (U)(unsigned)a ^ ((U)(unsigned)b << 32)) % 2001) - 1000; }
    int of(int a, int b, int c) const { return of(of(a, b), c); }
    bool pred(int a) const { switch (k & 7) { case 0: return false; case 1: return true; default: return mix(k ^ (U)(unsigned)a) & 1; } }
};
static int wrap(int a, int d) { return (int)((unsigned)a + (unsigned)d); }
typedef std::vector<Model> Trace;
static Model row(int a) { return Model(1, a); }
static Model row(int a, int b) { Model m; m.push_back(a); m.push_back(b); return m; }
static Model row(int a, int b, int c) { Model m = row(a, b); m.push_back(c); return m; }
static Model row(int a, int b, int c, int d) { Model m = row(a, b, c); m.push_back(d); return m; }
static std::string show_trace(const Trace& t) { std::string r; for (size_t i = 0; i < t.size(); ++i) r += show(t[i]); return r; }
static void same_trace(const Trace& got, const Trace& want, const char* what) {
    PCHECK(got == want, what << ": calls were " << show_trace(got) << ", expected " << show_trace(want));
}

template<typename E, typename K, bool mut = K::kMut> struct Mut1 {
    static void run(Src& s, K& k, const Model& m, Fn fn, bool indexed) {
        Trace t, want;
        Model after;
        for (size_t i = 0; i < m.size(); ++i) { want.push_back(indexed ? row((int)i, m[i]) : row(m[i])); after.push_back(El<E>::val(El<E>::make(fn.of(m[i])))); }
        if (indexed) {
            PLOG(s, "for_each_with_index_mut");
            efp::for_each_with_index_mut([&](size_t i, E& e) { t.push_back(row((int)i, El<E>::val(e))); e = El<E>::make(fn.of(El<E>::val(e))); }, k.get());
        } else {
            PLOG(s, "for_each_mut");
            efp::for_each_mut([&](E& e) { t.push_back(row(El<E>::val(e))); e = El<E>::make(fn.of(El<E>::val(e))); }, k.get());
        }
        same_trace(t, want, "mutating traversal");
        expect_same<E>(k.get(), after, "sequence after mutating traversal");
    }
};
template<typename E, typename K> struct Mut1<E, K, false> {
    static void run(Src&, K&, const Model&, Fn, bool) {}
};

// for functions that take their argument by value and use it up
template<typename E> int used(E& e) { E b(std::move(e)); return El<E>::val(b); }

template<typename E>
struct One {
    Src& s;
    explicit One(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) {
        const typename K::Seq& x = k.get();
        Fn fn = {s.draw(256)};
        Trace t, want;
        Model exp;
        if (m.size() >= 2) s.nontrivial();
        switch (s.draw(13)) {
            case 0: {
                PLOG(s, "map");
                auto r = efp::map([&](const E& e) { t.push_back(row(El<E>::val(e))); return fn.of(El<E>::val(e)); }, x);
                for (int a : m) { want.push_back(row(a)); exp.push_back(fn.of(a)); }
                same_trace(t, want, "map");
                expect_seq<int>(r, exp, "map");
                break;
            }
            case 1: {
                PLOG(s, "map to strings");
                auto r = efp::map([&](const E& e) { return El<std::string>::make(fn.of(El<E>::val(e))); }, x);
                for (int a : m) exp.push_back(fn.of(a));
                expect_seq<std::string>(r, exp, "map to strings");
                break;
            }
            case 2: {
                PLOG(s, "map_with_index");
                auto r = efp::map_with_index([&](size_t i, const E& e) { t.push_back(row((int)i, El<E>::val(e))); return fn.of((int)i, El<E>::val(e)); }, x);
                for (size_t i = 0; i < m.size(); ++i) { want.push_back(row((int)i, m[i])); exp.push_back(fn.of((int)i, m[i])); }
                same_trace(t, want, "map_with_index");
                expect_seq<int>(r, exp, "map_with_index");
                break;
            }
            case 3: case 4: {
                PLOG(s, "filter");
                auto r = efp::filter([&](const E& e) { t.push_back(row(El<E>::val(e))); return fn.pred(El<E>::val(e)); }, x);
                for (int a : m) { want.push_back(row(a)); if (fn.pred(a)) exp.push_back(a); }
                same_trace(t, want, "filter");
                expect_seq<E>(r, exp, "filter");
                s.label(exp.size() == m.size() ? "filter keeps all" : exp.empty() ? "filter keeps none" : "filter keeps some");
                break;
            }
            case 5: {
                PLOG(s, "foldl");
                std::string init = "i", r = efp::foldl([&](const std::string& acc, const E& e) { return "(" + acc + "," + std::to_string(El<E>::val(e)) + ")"; }, init, x), w = init;
                for (int a : m) w = "(" + w + "," + std::to_string(a) + ")";
                PCHECK(r == w, "foldl gave " << r << ", expected " << w);
                PCHECK(init == "i", "foldl changed the initial value");
                break;
            }
            case 6: {
                PLOG(s, "foldr");
                std::string init = "i", r = efp::foldr([&](const E& e, const std::string& acc) { return "(" + std::to_string(El<E>::val(e)) + "," + acc + ")"; }, init, x), w = init;
                for (size_t i = m.size(); i > 0; --i) w = "(" + std::to_string(m[i - 1]) + "," + w + ")";
                PCHECK(r == w, "foldr gave " << r << ", expected " << w);
                break;
            }
            case 7: {
                PLOG(s, "foldl to int from " << 5);
                int r = efp::foldl([&](int acc, const E& e) { return fn.of(acc, El<E>::val(e)); }, 5, x), w = 5;
                for (int a : m) w = fn.of(w, a);
                PCHECK(r == w, "foldl gave " << r << ", expected " << w);
                r = efp::foldr([&](const E& e, int acc) { return fn.of(acc, El<E>::val(e)); }, 5, x), w = 5;
                for (size_t i = m.size(); i > 0; --i) w = fn.of(w, m[i - 1]);
                PCHECK(r == w, "foldr gave " << r << ", expected " << w);
                break;
            }
            case 8: {
                PLOG(s, "for_each, for_each_with_index");
                efp::for_each([&](const E& e) { t.push_back(row(El<E>::val(e))); }, x);
                for (int a : m) want.push_back(row(a));
                same_trace(t, want, "for_each");
                t.clear(); want.clear();
                efp::for_each_with_index([&](size_t i, const E& e) { t.push_back(row((int)i, El<E>::val(e))); }, x);
                for (size_t i = 0; i < m.size(); ++i) want.push_back(row((int)i, m[i]));
                same_trace(t, want, "for_each_with_index");
                break;
            }
            case 9: {
                PLOG(s, "functions that use up their argument");
                for (size_t i = 0; i < m.size(); ++i) want.push_back(row(m[i]));
                switch (s.draw(5)) {
                    case 0: {
                        auto r = efp::map([&](E e) { int v = used(e); t.push_back(row(v)); return fn.of(v); }, x);
                        for (int a : m) exp.push_back(fn.of(a));
                        expect_seq<int>(r, exp, "map");
                        break;
                    }
                    case 1: {
                        auto r = efp::map_with_index([&](size_t i, E e) { int v = used(e); t.push_back(row(v)); return El<E>::make(fn.of((int)i, v)); }, x);
                        for (size_t i = 0; i < m.size(); ++i) exp.push_back(El<E>::val(El<E>::make(fn.of((int)i, m[i]))));
                        expect_seq<E>(r, exp, "map_with_index");
                        break;
                    }
                    case 2: {
                        auto r = efp::filter([&](E e) { int v = used(e); t.push_back(row(v)); return fn.pred(v); }, x);
                        for (int a : m) if (fn.pred(a)) exp.push_back(a);
                        expect_seq<E>(r, exp, "filter");
                        break;
                    }
                    case 3: {
                        const E init = El<E>::make(7);
                        const E r = efp::foldl([&](E acc, E e) { int v = used(e); t.push_back(row(v)); return El<E>::make(fn.of(used(acc), v)); }, init, x);
                        const E r2 = efp::foldr([&](E e, E acc) { int v = used(e); return El<E>::make(fn.of(used(acc), v)); }, init, x);
                        int w = 7, w2 = 7;
                        for (int a : m) w = El<E>::val(El<E>::make(fn.of(w, a)));
                        for (size_t i = m.size(); i > 0; --i) w2 = El<E>::val(El<E>::make(fn.of(w2, m[i - 1])));
                        PCHECK(El<E>::val(r) == w && El<E>::val(r2) == w2 && El<E>::val(init) == 7, "folds gave " << El<E>::val(r) << " and " << El<E>::val(r2) << ", expected " << w << " and " << w2);
                        break;
                    }
                    default:
                        efp::for_each([&](E e) { t.push_back(row(used(e))); }, x);
                        efp::for_each_with_index([&](size_t i, E e) { t.push_back(row((int)i, used(e))); }, x);
                        for (size_t i = 0; i < m.size(); ++i) want.push_back(row((int)i, m[i]));
                }
                same_trace(t, want, "a function that uses up its argument");
                s.label("by value");
                break;
            }
            case 10: {
                PLOG(s, "one sequence given twice");
                auto r = efp::map([&](const E& e, E f) { int u = El<E>::val(e), v = used(f); t.push_back(row(u, v, El<E>::val(e))); return fn.of(u, v); }, x, x);
                for (int a : m) { want.push_back(row(a, a, a)); exp.push_back(fn.of(a, a)); }
                same_trace(t, want, "map of a sequence with itself");
                expect_seq<int>(r, exp, "map of a sequence with itself");
                t.clear(); want.clear();
                efp::for_each_with_index([&](size_t i, const E& e, const E& f) { PCHECK(&e == &f, "not the same element"); t.push_back(row((int)i, El<E>::val(e))); }, x, x);
                for (size_t i = 0; i < m.size(); ++i) want.push_back(row((int)i, m[i]));
                same_trace(t, want, "traversal of a sequence with itself");
                s.label("given twice");
                break;
            }
            case 11: { Mut1<E, K>::run(s, k, m, fn, false); return; }
            default: { Mut1<E, K>::run(s, k, m, fn, true); return; }
        }
        expect_same<E>(x, m, "the input after the call");
    }
};

// several arguments, int elements
template<typename KA, typename KB, bool mut = KA::kMut && KB::kMut> struct Mut2 {
    static void run(KA& ka, const Model& a, KB& kb, const Model& b, Fn fn, bool indexed) {
        Trace t, want;
        Model a2 = a, b2 = b;
        for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
            want.push_back(indexed ? row((int)i, a[i], b[i]) : row(a[i], b[i]));
            a2[i] = fn.of(a[i], b[i]); b2[i] = fn.of(b[i], a[i]);
        }
        if (indexed) efp::for_each_with_index_mut([&](size_t i, int& x, int& y) { t.push_back(row((int)i, x, y)); int z = x; x = fn.of(x, y); y = fn.of(y, z); }, ka.get(), kb.get());
        else efp::for_each_mut([&](int& x, int& y) { t.push_back(row(x, y)); int z = x; x = fn.of(x, y); y = fn.of(y, z); }, ka.get(), kb.get());
        same_trace(t, want, "mutating traversal of two");
        expect_same<int>(ka.get(), a2, "first argument after mutating traversal");
        expect_same<int>(kb.get(), b2, "second argument after mutating traversal");
    }
};
template<typename KA, typename KB> struct Mut2<KA, KB, false> {
    static void run(KA&, const Model&, KB&, const Model&, Fn, bool) {}
};

typedef Kinds<KArray<int, 3>, KArrVec<int, 4>, KVector<int>, KVectorView<int, const int>, KVcb<int, 3>, KVcq<int, 4>, KStdVector<int>, KArrVecView<int, 5>, KUserBound<int, 4>> L2;
typedef Kinds<KArray<int, 2>, KArrVec<int, 4>, KVector<int>> L3;

template<typename KA> struct Second {
    Src& s; KA& ka; const Model& a;
    Second(Src& s_, KA& k, const Model& m) : s(s_), ka(k), a(m) {}
    template<typename KB> void with(KB& kb, const Model& b) {
        const typename KA::Seq& x = ka.get();
        const typename KB::Seq& y = kb.get();
        size_t n = std::min(a.size(), b.size());
        Fn fn = {s.draw(256)};
        Trace t, want;
        Model exp;
        s.label(a.size() < b.size() ? "first shorter" : a.size() > b.size() ? "second shorter" : "equal lengths");
        if (n >= 1 && a.size() != b.size()) s.nontrivial();
        switch (s.draw(6)) {
            case 0: case 1: {
                PLOG(s, "map of two");
                auto r = efp::map([&](int p, int q) { t.push_back(row(p, q)); return fn.of(p, q); }, x, y);
                for (size_t i = 0; i < n; ++i) { want.push_back(row(a[i], b[i])); exp.push_back(fn.of(a[i], b[i])); }
                same_trace(t, want, "map of two");
                expect_seq<int>(r, exp, "map of two");
                break;
            }
            case 2: {
                PLOG(s, "map_with_index of two");
                auto r = efp::map_with_index([&](size_t i, int p, int q) { t.push_back(row((int)i, p, q)); return fn.of((int)i, p, q); }, x, y);
                for (size_t i = 0; i < n; ++i) { want.push_back(row((int)i, a[i], b[i])); exp.push_back(fn.of((int)i, a[i], b[i])); }
                same_trace(t, want, "map_with_index of two");
                expect_seq<int>(r, exp, "map_with_index of two");
                break;
            }
            case 3: {
                PLOG(s, "for_each and for_each_with_index of two");
                efp::for_each([&](const int& p, const int& q) { t.push_back(row(p, q)); }, x, y);
                for (size_t i = 0; i < n; ++i) want.push_back(row(a[i], b[i]));
                same_trace(t, want, "for_each of two");
                t.clear(); want.clear();
                efp::for_each_with_index([&](size_t i, int p, int q) { t.push_back(row((int)i, p, q)); }, x, y);
                for (size_t i = 0; i < n; ++i) want.push_back(row((int)i, a[i], b[i]));
                same_trace(t, want, "for_each_with_index of two");
                break;
            }
            case 4: PLOG(s, "for_each_mut of two"); Mut2<KA, KB>::run(ka, a, kb, b, fn, false); return;
            default: PLOG(s, "for_each_with_index_mut of two"); Mut2<KA, KB>::run(ka, a, kb, b, fn, true); return;
        }
        expect_same<int>(x, a, "first argument after the call");
        expect_same<int>(y, b, "second argument after the call");
    }
};
struct Two {
    Src& s;
    explicit Two(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) { Second<K> v(s, k, m); any_kind<L2>(s, v, Gen(9, s.flip(), m.size() > 32 ? 80000 : 5000, m.size() > 32)); }
};

template<typename KA, typename KB> struct Third {
    Src& s; KA& ka; const Model& a; KB& kb; const Model& b;
    Third(Src& s_, KA& k, const Model& m, KB& k2, const Model& m2) : s(s_), ka(k), a(m), kb(k2), b(m2) {}
    template<typename KC> void with(KC& kc, const Model& c) {
        size_t n = std::min(a.size(), std::min(b.size(), c.size()));
        Fn fn = {s.draw(256)};
        Trace t, want;
        Model exp, a2 = a, b2 = b, c2 = c;
        if (n >= 1) s.nontrivial();
        for (size_t i = 0; i < n; ++i) { want.push_back(row(a[i], b[i], c[i])); exp.push_back(fn.of(a[i], b[i], c[i])); }
        switch (s.draw(3)) {
            case 0: {
                PLOG(s, "map of three");
                auto r = efp::map([&](int p, int q, int u) { t.push_back(row(p, q, u)); return fn.of(p, q, u); },
                                  (const typename KA::Seq&)ka.get(), (const typename KB::Seq&)kb.get(), (const typename KC::Seq&)kc.get());
                expect_seq<int>(r, exp, "map of three");
                break;
            }
            case 1:
                PLOG(s, "for_each of three");
                efp::for_each([&](int p, int q, int u) { t.push_back(row(p, q, u)); }, ka.get(), kb.get(), kc.get());
                break;
            default:
                PLOG(s, "for_each_mut of three");
                efp::for_each_mut([&](int& p, int& q, int& u) { t.push_back(row(p, q, u)); p = wrap(p, 1); q = wrap(q, 2); u = wrap(u, 3); }, ka.get(), kb.get(), kc.get());
                for (size_t i = 0; i < n; ++i) { a2[i] = wrap(a[i], 1); b2[i] = wrap(b[i], 2); c2[i] = wrap(c[i], 3); }
        }
        same_trace(t, want, "three arguments");
        expect_same<int>(ka.get(), a2, "first argument after the call");
        expect_same<int>(kb.get(), b2, "second argument after the call");
        expect_same<int>(kc.get(), c2, "third argument after the call");
    }
};
template<typename KA> struct ThreeB {
    Src& s; KA& ka; const Model& a;
    ThreeB(Src& s_, KA& k, const Model& m) : s(s_), ka(k), a(m) {}
    template<typename K> void with(K& k, const Model& m) { Third<KA, K> v(s, ka, a, k, m); any_kind<L3>(s, v, Gen(6, false, 2000, m.size() > 32)); }
};
struct ThreeA {
    Src& s;
    explicit ThreeA(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) { ThreeB<K> v(s, k, m); any_kind<L3>(s, v, Gen(6, false, 2000, m.size() > 32)); }
};

// arguments of different element types
template<typename EA, typename KA, typename EB, typename KB> struct Mixed {
    static void run(Src& s) {
        const Model a = Gen(6, false)(s, KA::kFix, KA::kCap), b = Gen(6, false)(s, KB::kFix, KB::kCap);
        KA ka(a); KB kb(b);
        PLOG(s, "different element types: " << El<EA>::name() << " in " << KA::name() << " " << show(a) << ", " << El<EB>::name() << " in " << KB::name() << " " << show(b));
        const typename KA::Seq& x = ka.get();
        const typename KB::Seq& y = kb.get();
        const size_t n = std::min(a.size(), b.size());
        Fn fn = {s.draw(256)};
        Trace t, want;
        Model exp, a2 = a, b2 = b;
        for (size_t i = 0; i < n; ++i) want.push_back(row(a[i], b[i]));
        switch (s.draw(4)) {
            case 0: {
                auto r = efp::map([&](const EA& p, const EB& q) { t.push_back(row(El<EA>::val(p), El<EB>::val(q))); return El<EB>::make(fn.of(El<EA>::val(p), El<EB>::val(q))); }, x, y);
                for (size_t i = 0; i < n; ++i) exp.push_back(El<EB>::val(El<EB>::make(fn.of(a[i], b[i]))));
                expect_seq<EB>(r, exp, "map of different element types");
                break;
            }
            case 1: {
                auto r = efp::map_with_index([&](size_t i, const EA& p, EB q) { t.push_back(row(El<EA>::val(p), El<EB>::val(q))); return (double)i + El<EB>::val(q) * 0.5; }, x, y);
                PCHECK((size_t)r.size() == n, "map_with_index of different element types: size");
                for (size_t i = 0; i < n; ++i) PCHECK(r[i] == (double)i + b[i] * 0.5, "map_with_index of different element types: element " << i << " is " << r[i]);
                break;
            }
            case 2: {
                efp::for_each([&](EA p, const EB& q) { t.push_back(row(El<EA>::val(p), El<EB>::val(q))); }, x, y);
                break;
            }
            default:
                efp::for_each_mut([&](EA& p, EB& q) { t.push_back(row(El<EA>::val(p), El<EB>::val(q))); q = El<EB>::make(fn.of(El<EA>::val(p))); p = El<EA>::make(fn.of(7)); }, ka.get(), kb.get());
                for (size_t i = 0; i < n; ++i) { b2[i] = El<EB>::val(El<EB>::make(fn.of(a[i]))); a2[i] = El<EA>::val(El<EA>::make(fn.of(7))); }
        }
        same_trace(t, want, "different element types");
        expect_same<EA>(ka.get(), a2, "first argument after the call");
        expect_same<EB>(kb.get(), b2, "second argument after the call");
        s.label("different element types");
        if (n > 1) s.nontrivial();
    }
};
static void mixed(Src& s) {
    switch (s.draw(6)) {
        case 0: Mixed<int, KVector<int>, double, KArrVec<double, 4>>::run(s); break;
        case 1: Mixed<double, KArray<double, 3>, int, KVector<int>>::run(s); break;
        case 2: Mixed<std::string, KVector<std::string>, int, KVector<int>>::run(s); break;
        case 3: Mixed<int, KArray<int, 4>, std::string, KArrVec<std::string, 5>>::run(s); break;
        case 4: Mixed<int, KArrVec<int, 5>, Tracked, KArray<Tracked, 3>>::run(s); break;
        default: Mixed<double, KStdVector<double>, Tracked, KVector<Tracked>>::run(s);
    }
}

// the same sequence object given twice
static void aliased(Src& s) {
    Model m = Gen(8, false)(s, false, 0);
    KVector<int> k(m);
    PLOG(s, "both arguments are the same Vector " << show(m));
    auto r = efp::map([](int a, int b) { return (int)(a == b) * 3 + 1; }, k.get(), k.get());
    expect_seq<int>(r, Model(m.size(), 4), "map of a sequence with itself");
    efp::for_each_mut([](int& a, int& b) { a = 5; b = wrap(b, 1); }, k.get(), k.get());
    expect_same<int>(k.get(), Model(m.size(), 6), "for_each_mut of a sequence with itself");
    s.label("same object twice");
}

// character sequences
static void chars(Src& s) {
    size_t n = s.len(20);
    std::string m;
    for (size_t i = 0; i < n; ++i) m += (char)s.draw(256);
    efp::String es(m.data(), m.size());
    efp::StringView ev(m.data(), m.size());
    PLOG(s, "characters, " << n);
    int k = s.draw(8);
    std::string want, w2;
    for (char c : m) { if ((c & 7) <= k) want += c; w2 += (char)(c ^ k); }
    auto p = [&](char c) { return (c & 7) <= k; };
    auto f = [&](char c) { return (char)(c ^ k); };
    auto r1 = efp::filter(p, es); auto r2 = efp::filter(p, m);
    PCHECK(std::string(r1.begin(), r1.end()) == want, "filter over String");
    PCHECK(std::string(r2.begin(), r2.end()) == want, "filter over std::string");
    auto r3 = efp::map(f, es); auto r4 = efp::map(f, m); auto r5 = efp::map(f, ev);
    PCHECK(std::string(r3.begin(), r3.end()) == w2, "map over String");
    PCHECK(std::string(r4.begin(), r4.end()) == w2, "map over std::string");
    PCHECK(std::string(r5.begin(), r5.end()) == w2, "map over StringView");
    std::string tr;
    efp::for_each([&](char c) { tr += c; }, ev);
    PCHECK(tr == m, "for_each over StringView");
    efp::for_each_mut([&](char& c) { c = (char)(c ^ k); }, es);
    PCHECK(std::string(es.begin(), es.end()) == w2 && std::string(es.c_str(), es.size() + 1) == w2 + '\0', "for_each_mut over String");
    s.label("characters");
    if (n > 1) s.nontrivial();
}

typedef Kinds<KArray<int, 1>, KArray<int, 5>, KArray<int, 70>, KArrVec<int, 6>, KArrVec<int, 300>, KVector<int>, KArrayView<int, 4>, KArrVecView<int, 6>, KVectorView<int>, KVcb<int, 1>, KVcb<int, 4>, KVcq<int, 5>, KStdArray<int, 4>, KStdVector<int>, KUserDyn<int>, KUserBound<int, 6>, KUserFix<int, 4>> L1;
typedef Kinds<KArray<std::string, 3>, KArrVec<std::string, 5>, KVector<std::string>, KVectorView<std::string>, KVcb<std::string, 3>, KVcq<std::string, 3>, KStdVector<std::string>, KUserDyn<std::string>> L1S;

void pbt_case(Src& s) {
    switch (s.draw(13)) {
        case 11: mixed(s); break;
        case 0: case 1: case 2: { One<int> v(s); any_kind<L1>(s, v, Gen(24, s.flip(), 80000)); break; }
        case 3: case 4: { One<std::string> v(s); any_kind<L1S>(s, v, Gen(10, s.flip(), 1000)); break; }
        case 5: case 6: case 7: case 8: { Two v(s); any_kind<L2>(s, v, Gen(9, s.flip(), 5000)); break; }
        case 9: { ThreeA v(s); any_kind<L3>(s, v, Gen(6, false, 2000)); break; }
        case 10: aliased(s); break;
        default: chars(s);
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src&) { PCHECK(live_tracked() == 0, "elements still alive"); }
