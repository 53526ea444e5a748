// C06: append, concat, intercalate, cartesian functions, index iteration, from_function.
#include "user_seq.hpp"
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
using namespace pbt;

const char* const pbt_name = "c06_join";
const char* const pbt_rule = "";

typedef std::vector<Model> Trace;
static Model row(int a) { return Model(1, a); }
static Model row(int a, int b) { Model m; m.push_back(a); m.push_back(b); return m; }
static Model row(int a, int b, int c) { Model m = row(a, b); m.push_back(c); return m; }
static std::string show_trace(const Trace& t) { std::string r; for (size_t i = 0; i < t.size(); ++i) r += show(t[i]); return r; }
static void same_trace(const Trace& got, const Trace& want, const char* what) {
    PCHECK(got == want, what << ": visited " << show_trace(got) << ", expected " << show_trace(want));
}
static int h2(int a, int b) { return (int)(mix((unsigned long long)(unsigned)a << 32 | (unsigned)b) % 100000); }
static int wrap(int a, int d) { return (int)((unsigned)a + (unsigned)d); }
static void add(Model& m, const Model& x) { m.insert(m.end(), x.begin(), x.end()); }

template<typename E> struct Lists {
    typedef Kinds<KArray<E, 1>, KArray<E, 3>, KArrVec<E, 4>, KVector<E>, KVcb<E, 2>, KVcq<E, 3>, KStdVector<E>, KVectorView<E>, KUserDyn<E>> L2;
    typedef Kinds<KArray<E, 2>, KArrVec<E, 3>, KVector<E>> L3;
};

// two arguments
template<typename E, typename KA> struct Pair {
    Src& s; KA& ka; const Model& a;
    Pair(Src& s_, KA& k, const Model& m) : s(s_), ka(k), a(m) {}
    template<typename KB> void with(KB& kb, const Model& b) {
        const typename KA::Seq& x = ka.get();
        const typename KB::Seq& y = kb.get();
        if (!a.empty() && !b.empty() && a != b) s.nontrivial();
        if (a.empty() || b.empty()) s.label("an empty argument");
        switch (s.draw(5)) {
            case 0: case 1: {
                PLOG(s, "append of two");
                auto r = efp::append(x, y);
                Model want = a; add(want, b);
                expect_seq<E>(r, want, "append");
                break;
            }
            case 2: {
                PLOG(s, "cartesian_map");
                Trace t, want; Model exp;
                auto r = efp::cartesian_map([&](const E& p, const E& q) { t.push_back(row(El<E>::val(p), El<E>::val(q))); return h2(El<E>::val(p), El<E>::val(q)); }, x, y);
                for (int p : a) for (int q : b) { want.push_back(row(p, q)); exp.push_back(h2(p, q)); }
                same_trace(t, want, "cartesian_map");
                expect_seq<int>(r, exp, "cartesian_map");
                break;
            }
            case 3: {
                PLOG(s, "cartesian_for_each");
                Trace t, want;
                efp::cartesian_for_each([&](const E& p, const E& q) { t.push_back(row(El<E>::val(p), El<E>::val(q))); }, x, y);
                for (int p : a) for (int q : b) want.push_back(row(p, q));
                same_trace(t, want, "cartesian_for_each");
                // functions that take their arguments by value and use them up
                t.clear();
                efp::cartesian_for_each([&](E p, E q) { E p2(std::move(p)), q2(std::move(q)); t.push_back(row(El<E>::val(p2), El<E>::val(q2))); }, x, y);
                same_trace(t, want, "cartesian_for_each by value");
                t.clear();
                auto r = efp::cartesian_map([&](E p, E q) { E p2(std::move(p)), q2(std::move(q)); t.push_back(row(El<E>::val(p2), El<E>::val(q2))); return q2; }, x, y);
                Model exp;
                for (size_t i = 0; i < a.size(); ++i) add(exp, b);
                same_trace(t, want, "cartesian_map by value");
                expect_seq<E>(r, exp, "cartesian_map by value");
                break;
            }
            default: { mut(std::integral_constant<bool, KA::kMut && KB::kMut>(), kb, b); return; }
        }
        expect_same<E>(x, a, "first argument after the call");
        expect_same<E>(y, b, "second argument after the call");
    }
    template<typename KB> void mut(std::false_type, KB&, const Model&) {}
    template<typename KB> void mut(std::true_type, KB& kb, const Model& b) {
        PLOG(s, "cartesian_for_each_mut");
        Trace t, want; Model a2 = a, b2 = b;
        efp::cartesian_for_each_mut([&](E& p, E& q) {
            int u = El<E>::val(p), v = El<E>::val(q);
            t.push_back(row(u, v));
            p = El<E>::make(h2(u, v)); q = El<E>::make(h2(v, wrap(u, 1)));
        }, ka.get(), kb.get());
        for (size_t i = 0; i < a2.size(); ++i) for (size_t j = 0; j < b2.size(); ++j) {
            int u = a2[i], v = b2[j];
            want.push_back(row(u, v));
            a2[i] = h2(u, v); b2[j] = h2(v, wrap(u, 1));
        }
        same_trace(t, want, "cartesian_for_each_mut");
        expect_same<E>(ka.get(), a2, "first argument after cartesian_for_each_mut");
        expect_same<E>(kb.get(), b2, "second argument after cartesian_for_each_mut");
        s.label("cartesian_for_each_mut");
    }
};
template<typename E> struct Two {
    Src& s;
    explicit Two(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) { Pair<E, K> v(s, k, m); any_kind<typename Lists<E>::L2>(s, v, Gen(7, false, 300)); }
};
// one argument
template<typename E> struct One {
    Src& s;
    explicit One(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) {
        const typename K::Seq& x = k.get();
        Trace t, want; Model exp;
        PLOG(s, "append / cartesian of one");
        auto r = efp::append(x);
        expect_seq<E>(r, m, "append of one");
        auto c = efp::cartesian_map([&](const E& p) { t.push_back(row(El<E>::val(p))); return h2(El<E>::val(p), 1); }, x);
        for (int p : m) { want.push_back(row(p)); exp.push_back(h2(p, 1)); }
        same_trace(t, want, "cartesian_map of one");
        expect_seq<int>(c, exp, "cartesian_map of one");
        t.clear();
        efp::cartesian_for_each([&](const E& p) { t.push_back(row(El<E>::val(p))); }, x);
        same_trace(t, want, "cartesian_for_each of one");
        expect_same<E>(x, m, "argument after the call");
    }
};
// three arguments, and four with the first repeated
template<typename E, typename KA, typename KB> struct Triple {
    Src& s; KA& ka; const Model& a; KB& kb; const Model& b;
    Triple(Src& s_, KA& k, const Model& m, KB& k2, const Model& m2) : s(s_), ka(k), a(m), kb(k2), b(m2) {}
    template<typename KC> void with(KC& kc, const Model& c) {
        const typename KA::Seq& x = ka.get();
        const typename KB::Seq& y = kb.get();
        const typename KC::Seq& z = kc.get();
        if (!a.empty() && !b.empty() && !c.empty()) s.nontrivial();
        switch (s.draw(4)) {
            case 0: {
                PLOG(s, "append of three");
                auto r = efp::append(x, y, z);
                Model want = a; add(want, b); add(want, c);
                expect_seq<E>(r, want, "append of three");
                break;
            }
            case 1: {
                PLOG(s, "append of four, the first repeated");
                auto r = efp::append(x, y, z, x);
                Model want = a; add(want, b); add(want, c); add(want, a);
                expect_seq<E>(r, want, "append of four");
                break;
            }
            case 2: {
                PLOG(s, "cartesian_map of three");
                Trace t, want; Model exp;
                auto r = efp::cartesian_map([&](const E& p, const E& q, const E& u) {
                    t.push_back(row(El<E>::val(p), El<E>::val(q), El<E>::val(u)));
                    return h2(h2(El<E>::val(p), El<E>::val(q)), El<E>::val(u)); }, x, y, z);
                for (int p : a) for (int q : b) for (int u : c) { want.push_back(row(p, q, u)); exp.push_back(h2(h2(p, q), u)); }
                same_trace(t, want, "cartesian_map of three");
                expect_seq<int>(r, exp, "cartesian_map of three");
                break;
            }
            default: {
                PLOG(s, "cartesian_for_each of three");
                Trace t, want;
                efp::cartesian_for_each([&](const E& p, const E& q, const E& u) { t.push_back(row(El<E>::val(p), El<E>::val(q), El<E>::val(u))); }, x, y, z);
                for (int p : a) for (int q : b) for (int u : c) want.push_back(row(p, q, u));
                same_trace(t, want, "cartesian_for_each of three");
            }
        }
        expect_same<E>(x, a, "first argument after the call");
        expect_same<E>(y, b, "second argument after the call");
        expect_same<E>(z, c, "third argument after the call");
    }
};
template<typename E, typename KA> struct ThreeB {
    Src& s; KA& ka; const Model& a;
    ThreeB(Src& s_, KA& k, const Model& m) : s(s_), ka(k), a(m) {}
    template<typename K> void with(K& k, const Model& m) { Triple<E, KA, K> v(s, ka, a, k, m); any_kind<typename Lists<E>::L3>(s, v, Gen(4, false, 60)); }
};
template<typename E> struct ThreeA {
    Src& s;
    explicit ThreeA(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) { ThreeB<E, K> v(s, k, m); any_kind<typename Lists<E>::L3>(s, v, Gen(4, false, 60)); }
};

// sequences of sequences: Outer<Inner<E>>, separator of its own kind
template<typename E, typename KI> struct Nest {
    typedef typename KI::Seq I;
    static Model inner(Src& s) { return Gen(4, false, 300)(s, KI::kFix, KI::kCap); }
    template<typename O> static void fill(O& o, size_t i, const Model& m) { KI k(m); efp::nth(i, o) = k.get(); }

    template<typename O> static void check(Src& s, const O& o, const Trace& t) {
        Model flat;
        for (size_t i = 0; i < t.size(); ++i) add(flat, t[i]);
        size_t ne = 0;
        for (size_t i = 0; i < t.size(); ++i) if (!t[i].empty()) ++ne;
        if (ne >= 2) s.nontrivial();
        if (ne < t.size()) s.label("an empty inner sequence");
        if (t.empty()) s.label("empty outer sequence");
        PLOG(s, "sequence of sequences " << show_trace(t));
        int w = s.draw(4);
        if (w == 0) {
            PLOG(s, "concat");
            auto r = efp::concat(o);
            expect_seq<E>(r, flat, "concat");
        } else if (w == 1) sep<KVector<E>>(s, o, t);
        else if (w == 2) sep<KArray<E, 2>>(s, o, t);
        else sep<KArrVec<E, 3>>(s, o, t);
        for (size_t i = 0; i < t.size(); ++i) expect_same<E>(efp::nth(i, o), t[i], "inner sequence after the call");
    }
    template<typename KD, typename O> static void sep(Src& s, const O& o, const Trace& t) {
        Model d = Gen(4, false, 100)(s, KD::kFix, KD::kCap);
        KD kd(d);
        PLOG(s, "intercalate with " << KD::name() << " " << show(d));
        const typename KD::Seq& cd = kd.get();
        auto r = efp::intercalate(cd, o);
        Model want;
        for (size_t i = 0; i < t.size(); ++i) { if (i) add(want, d); add(want, t[i]); }
        expect_seq<E>(r, want, "intercalate");
        expect_same<E>(cd, d, "separator after the call");
    }
    static void run(Src& s) {
        switch (s.draw(4)) {
            case 0: { Trace t; efp::Array<I, 3> o; for (size_t i = 0; i < 3; ++i) { t.push_back(inner(s)); fill(o, i, t.back()); } PLOG(s, "Array outer"); check(s, o, t); break; }
            case 1: { Trace t; efp::ArrVec<I, 4> o; size_t n = s.draw(5); o.resize(n); for (size_t i = 0; i < n; ++i) { t.push_back(inner(s)); fill(o, i, t.back()); } PLOG(s, "ArrVec outer"); check(s, o, t); break; }
            case 2: { Trace t; efp::Vector<I> o; size_t n = s.chance(1, 24) ? s.big(300) : s.draw(6); o.resize(n); for (size_t i = 0; i < n; ++i) { t.push_back(inner(s)); fill(o, i, t.back()); } PLOG(s, "Vector outer"); check(s, o, t); break; }
            default: { Trace t; std::vector<I> o; size_t n = s.chance(1, 24) ? s.big(300) : s.draw(6); o.resize(n); for (size_t i = 0; i < n; ++i) { t.push_back(inner(s)); fill(o, i, t.back()); } PLOG(s, "std::vector outer"); check(s, o, t); break; }
        }
    }
};
template<typename E> void nested(Src& s) {
    switch (s.draw(5)) {
        case 0: Nest<E, KArray<E, 2>>::run(s); break;
        case 1: Nest<E, KArrVec<E, 3>>::run(s); break;
        case 2: Nest<E, KVector<E>>::run(s); break;
        case 3: Nest<E, KStdVector<E>>::run(s); break;
        default: Nest<E, KVcq<E, 3>>::run(s); break;
    }
}

template<size_t N> void from_static(Src& s) {
    PLOG(s, "from_function(Size<" << N << ">)");
    Trace t, want; Model exp;
    auto r = efp::from_function(efp::Size<N>{}, [&](size_t i) { t.push_back(row((int)i)); return h2((int)i, 9); });
    for (size_t i = 0; i < N; ++i) { want.push_back(row((int)i)); exp.push_back(h2((int)i, 9)); }
    same_trace(t, want, "from_function");
    expect_seq<int>(r, exp, "from_function");
}
static void indices(Src& s) {
    size_t n = s.len(12), p = s.len(5), q = s.len(4);
    if (s.chance(1, 24)) { n = s.big(80000); p = s.len(40); if (n > 1000) p = q = s.draw(2); }
    int k = s.ival();
    Trace t, want; Model exp;
    switch (s.draw(6)) {
        case 0: {
            PLOG(s, "from_function(" << n << ")");
            auto r = efp::from_function(n, [&](size_t i) { t.push_back(row((int)i)); return h2((int)i, k); });
            for (size_t i = 0; i < n; ++i) { want.push_back(row((int)i)); exp.push_back(h2((int)i, k)); }
            same_trace(t, want, "from_function");
            expect_seq<int>(r, exp, "from_function");
            break;
        }
        case 1: {
            PLOG(s, "from_function to strings(" << n << ")");
            auto r = efp::from_function((int)n, [&](int i) { return El<std::string>::make(h2(i, k)); });
            for (size_t i = 0; i < n; ++i) exp.push_back(h2((int)i, k));
            expect_seq<std::string>(r, exp, "from_function");
            break;
        }
        case 2: if (n % 3 == 0) from_static<1>(s); else if (n % 3 == 1) from_static<4>(s); else from_static<13>(s); break;
        case 3: {
            PLOG(s, "for_index(" << n << ")");
            efp::for_index([&](size_t i) { t.push_back(row((int)i)); }, n);
            for (size_t i = 0; i < n; ++i) want.push_back(row((int)i));
            same_trace(t, want, "for_index");
            t.clear();
            efp::cartesian_for_index([&](size_t i) { t.push_back(row((int)i)); }, n);
            same_trace(t, want, "cartesian_for_index of one");
            break;
        }
        case 4: {
            PLOG(s, "cartesian_for_index(" << n << "," << p << ")");
            efp::cartesian_for_index([&](size_t i, size_t j) { t.push_back(row((int)i, (int)j)); }, n, p);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < p; ++j) want.push_back(row((int)i, (int)j));
            same_trace(t, want, "cartesian_for_index of two");
            break;
        }
        default: {
            PLOG(s, "cartesian_for_index(" << n << "," << p << "," << q << ")");
            efp::cartesian_for_index([&](size_t i, size_t j, size_t l) { t.push_back(row((int)i, (int)j, (int)l)); }, n, p, q);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < p; ++j) for (size_t l = 0; l < q; ++l) want.push_back(row((int)i, (int)j, (int)l));
            same_trace(t, want, "cartesian_for_index of three");
        }
    }
    if (n > 1 && p > 0 && q > 0) s.nontrivial();
    s.label("index functions");
}
// strings joined
static void strings(Src& s) {
    std::string a, b, c;
    std::string* all[] = {&a, &b, &c};
    for (int i = 0; i < 3; ++i) { size_t n = s.len(8); for (size_t j = 0; j < n; ++j) *all[i] += (char)('a' + s.draw(26)); }
    PLOG(s, "strings " << a << " / " << b << " / " << c);
    efp::String x(a.data(), a.size()), y(b.data(), b.size());
    auto r = efp::append(x, y, c);
    PCHECK(std::string(r.begin(), r.end()) == a + b + c, "append of strings gave " << std::string(r.begin(), r.end()));
    efp::Vector<efp::String> v;
    v.push_back(x); v.push_back(y); v.push_back(efp::String(c.data(), c.size()));
    auto k = efp::concat(v);
    PCHECK(std::string(k.begin(), k.end()) == a + b + c, "concat of strings");
    auto j = efp::intercalate(y, v);
    PCHECK(std::string(j.begin(), j.end()) == a + b + b + b + c, "intercalate of strings");
    s.label("strings");
    if (!a.empty() && !b.empty() && !c.empty()) s.nontrivial();
}

void pbt_case(Src& s) {
    switch (s.draw(16)) {
        case 0: case 1: case 2: case 3: { Two<int> v(s); any_kind<Lists<int>::L2>(s, v, Gen(7, false, 300)); break; }
        case 4: { Two<Tracked> v(s); any_kind<Kinds<KArrVec<Tracked, 3>, KVector<Tracked>, KArray<Tracked, 2>>>(s, v, Gen(4, false)); break; }
        case 5: { One<int> v(s); any_kind<Lists<int>::L2>(s, v, Gen(7, false, 80000)); break; }
        case 6: case 7: case 8: { ThreeA<int> v(s); any_kind<Lists<int>::L3>(s, v, Gen(4, false, 60)); break; }
        case 9: case 10: case 11: nested<int>(s); break;
        case 12: nested<Tracked>(s); break;
        case 13: case 14: indices(s); break;
        default: strings(s);
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src&) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
