// C12: optionals: laws of functor, applicative and monad, call counts, assignment histories.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include <memory>
using namespace pbt;
using efp::Maybe;
using efp::nothing;

const char* const pbt_name = "c12_maybe";
const char* const pbt_rule = "";

static int g_calls;
// generated functions A -> B
template<typename A, typename B> struct F {
    unsigned k;
    static int of(unsigned k, int x) { return (int)(mix((unsigned long long)k << 32 | (unsigned)x) % 41) - 20; }
    B operator()(const A& a) const { ++g_calls; return El<B>::make(of(k, El<A>::val(a))); }
};
// generated functions A -> Maybe B, failing on some values
template<typename A, typename B> struct G {
    unsigned k;
    static bool fails(unsigned k, int x) { return mix((unsigned long long)(k + 99) << 32 | (unsigned)x) % 4 == 0; }
    Maybe<B> operator()(const A& a) const {
        ++g_calls;
        int x = El<A>::val(a);
        if (fails(k, x)) return nothing;
        return El<B>::make(F<A, B>::of(k, x));
    }
};
template<typename A> struct Id { A operator()(const A& a) const { return a; } };
template<typename A, typename B, typename C> struct Comp { F<B, C> f; F<A, B> g; C operator()(const A& a) const { return f(g(a)); } };
template<typename A, typename B, typename C> struct Kleisli { G<A, B> f; G<B, C> g; Maybe<C> operator()(const A& a) const { return efp::bind(f(a), g); } };
template<typename A> struct Pure { Maybe<A> operator()(const A& a) const { return efp::pure<Maybe<A>>(a); } };
template<typename A, typename B> struct ApplyTo { A y; B operator()(const F<A, B>& f) const { return f(y); } };
// curried composition for the applicative composition law
template<typename A, typename B, typename C> struct CompWith { F<B, C> u; Comp<A, B, C> operator()(const F<A, B>& v) const { Comp<A, B, C> c = {u, v}; return c; } };
struct CompCurried { template<typename B, typename C> struct With {}; };
template<typename A, typename B, typename C> struct CompC { CompWith<A, B, C> operator()(const F<B, C>& u) const { CompWith<A, B, C> c = {u}; return c; } };

// model of an optional: (present, value)
struct MM { bool has; int v; };
static MM none() { MM m = {false, 0}; return m; }
static MM some(int v) { MM m = {true, v}; return m; }
static std::string sh(const MM& m) { return m.has ? "just " + std::to_string(m.v) : std::string("nothing"); }

template<typename A> bool raises(const Maybe<A>& m) {
    try { (void)m.value(); } catch (const std::exception&) { return true; }
    return false;
}
template<typename A> void expect(const Maybe<A>& m, const MM& w, const char* what) {
    PCHECK(m.has_value() == w.has && m.is_nothing() == !w.has && static_cast<bool>(m) == w.has, what << ": has_value " << m.has_value() << ", is_nothing " << m.is_nothing() << ", bool " << static_cast<bool>(m) << ", expected " << sh(w));
    if (w.has) {
        PCHECK(El<A>::val(m.value()) == w.v, what << ": value " << El<A>::val(m.value()) << ", expected " << sh(w));
    } else PCHECK(raises(m), what << ": reading an empty optional raised no error");
    int hit = -1;
    struct OnV { int* h; void operator()(const A& a) const { *h = 1; } };
    struct OnN { int* h; void operator()() const { *h = 0; } };
    m.match(OnV{&hit}, OnN{&hit});
    PCHECK(hit == (w.has ? 1 : 0), what << ": match ran branch " << hit);
    if (!pending().empty()) fail(std::string(what) + ": " + pending());
}
static void calls(int n, const char* what) { PCHECK(g_calls == n, what << ": the function was called " << g_calls << " times, expected " << n); g_calls = 0; }

template<typename A> Maybe<A> build(const MM& m) { if (m.has) return El<A>::make(m.v); return nothing; }
static MM gen(Src& s) { return s.chance(2, 3) ? some(s.range(-20, 20)) : none(); }
template<typename A, typename B> MM mfmap(unsigned k, MM m) { return m.has ? some(F<A, B>::of(k, m.v)) : none(); }
template<typename A, typename B> MM mbind(unsigned k, MM m) { return m.has && !G<A, B>::fails(k, m.v) ? some(F<A, B>::of(k, m.v)) : none(); }

// A, B, C: element types
template<typename A, typename B, typename C> void laws(Src& s) {
    MM wa = gen(s);
    unsigned k1 = s.draw(64), k2 = s.draw(64);
    F<A, B> f = {k1}; F<B, C> g = {k2};
    G<A, B> mf = {k1}; G<B, C> mg = {k2};
    Maybe<A> m = build<A>(wa);
    const Maybe<A>& cm = m;
    if (wa.has) s.nontrivial();
    s.label(wa.has ? "just" : "nothing");
    g_calls = 0;
    int n = wa.has;
    switch (s.draw(8)) {
        case 7: {
            PLOG(s, "functions that use up their argument, over " << sh(wa));
            const auto eat = [&](A a) { A b(std::move(a)); return f(b); };
            const auto meat = [&](A a) { A b(std::move(a)); return mf(b); };
            const MM wf = mfmap<A, B>(k1, wa), wb = mbind<A, B>(k1, wa);
            typedef typename std::remove_const<decltype(eat)>::type Eat;
            const Maybe<Eat> je(eat);
            switch (s.draw(7)) {
                case 0: expect(efp::fmap(eat, cm), wf, "fmap"); break;
                case 1: expect(m.fmap(eat), wf, "member fmap"); break;
                case 2: expect(efp::ap(je, cm), wf, "ap"); break;
                case 3: expect(m.ap(je), wf, "member ap"); break;
                case 4: expect(efp::bind(cm, meat), wb, "bind"); break;
                case 5: expect(m.bind(meat), wb, "member bind"); break;
                default: expect(m >>= meat, wb, ">>=");
            }
            calls(n, "a function that uses up its argument");
            break;
        }
        case 0: {
            PLOG(s, "fmap over " << sh(wa));
            expect(efp::fmap(f, cm), mfmap<A, B>(k1, wa), "fmap"); calls(n, "fmap");
            expect(m.fmap(f), mfmap<A, B>(k1, wa), "member fmap"); calls(n, "member fmap");
            expect(cm.fmap(f), mfmap<A, B>(k1, wa), "const member fmap"); calls(n, "const member fmap");
            break;
        }
        case 1: {
            PLOG(s, "functor laws over " << sh(wa));
            expect(efp::fmap(Id<A>(), cm), wa, "fmap id");
            PCHECK(efp::fmap(Id<A>(), cm) == cm, "fmap id is not id");
            Comp<A, B, C> c = {g, f};
            PCHECK(efp::fmap(c, cm) == efp::fmap(g, efp::fmap(f, cm)), "fmap of a composition is not the composition of fmaps");
            expect(efp::fmap(c, cm), mfmap<B, C>(k2, mfmap<A, B>(k1, wa)), "fmap of a composition");
            break;
        }
        case 2: {
            bool hf = s.chance(2, 3);
            PLOG(s, "ap of " << (hf ? "just a function" : "nothing") << " to " << sh(wa));
            Maybe<F<A, B>> jf; if (hf) jf = f;
            const Maybe<F<A, B>>& cjf = jf;
            MM w = hf ? mfmap<A, B>(k1, wa) : none();
            expect(efp::ap(cjf, cm), w, "ap"); calls(n && hf, "ap");
            expect(m.ap(cjf), w, "member ap"); calls(n && hf, "member ap");
            expect(cm.ap(cjf), w, "const member ap"); calls(n && hf, "const member ap");
            break;
        }
        case 3: {
            PLOG(s, "applicative laws over " << sh(wa));
            bool hu = s.chance(3, 4), hv = s.chance(3, 4);
            int y = s.range(-20, 20);
            A ya = El<A>::make(y);
            Maybe<Id<A>> pid = Id<A>();
            PCHECK(efp::ap(pid, cm) == cm, "identity law of ap");
            Maybe<F<A, B>> pf = f, v; if (hv) v = f;
            PCHECK(efp::ap(pf, efp::pure<Maybe<A>>(ya)) == efp::pure<Maybe<B>>(f(ya)), "homomorphism law of ap");
            ApplyTo<A, B> at = {ya};
            Maybe<ApplyTo<A, B>> pat = at;
            PCHECK(efp::ap(v, efp::pure<Maybe<A>>(ya)) == efp::ap(pat, v), "interchange law of ap");
            Maybe<F<B, C>> u; if (hu) u = g;
            Maybe<CompC<A, B, C>> comp = CompC<A, B, C>();
            PCHECK(efp::ap(efp::ap(efp::ap(comp, u), v), cm) == efp::ap(u, efp::ap(v, cm)), "composition law of ap");
            expect(efp::pure<Maybe<A>>(ya), some(y), "pure");
            break;
        }
        case 4: {
            PLOG(s, "bind over " << sh(wa));
            expect(efp::bind(cm, mf), mbind<A, B>(k1, wa), "bind"); calls(n, "bind");
            expect(m.bind(mf), mbind<A, B>(k1, wa), "member bind"); calls(n, "member bind");
            expect(cm.bind(mf), mbind<A, B>(k1, wa), "const member bind"); calls(n, "const member bind");
            expect(m >>= mf, mbind<A, B>(k1, wa), ">>="); calls(n, ">>=");
            expect(cm >>= mf, mbind<A, B>(k1, wa), "const >>="); calls(n, "const >>=");
            break;
        }
        case 5: {
            PLOG(s, "monad laws over " << sh(wa));
            int y = s.range(-20, 20);
            A ya = El<A>::make(y);
            PCHECK(efp::bind(efp::pure<Maybe<A>>(ya), mf) == mf(ya), "left identity of bind");
            PCHECK(efp::bind(cm, Pure<A>()) == cm, "right identity of bind");
            Kleisli<A, B, C> kl = {mf, mg};
            PCHECK(efp::bind(efp::bind(cm, mf), mg) == efp::bind(cm, kl), "associativity of bind");
            expect(efp::bind(efp::bind(cm, mf), mg), mbind<B, C>(k2, mbind<A, B>(k1, wa)), "bind twice");
            break;
        }
        default: {
            PLOG(s, "a chain over " << sh(wa));
            MM w = mbind<B, C>(k2, mfmap<A, B>(k1, wa));
            expect(efp::bind(efp::fmap(f, cm), mg), w, "fmap then bind");
            expect(cm.fmap(f).bind(mg), w, "member fmap then bind");
        }
    }
    expect(cm, wa, "the optional after the call");
}

template<typename A> struct Hist {
    typedef Maybe<A> M;
    static const int K = 3;
    M* v[K]; MM m[K]; bool moved[K];
    Src& s;
    explicit Hist(Src& s_) : s(s_) { for (int i = 0; i < K; ++i) { v[i] = new M(); m[i] = none(); moved[i] = false; } }
    ~Hist() { for (int i = 0; i < K; ++i) delete v[i]; }
    void check(int i, const char* a) { if (!moved[i]) expect(*v[i], m[i], a); else PCHECK(v[i]->has_value(), a << ": a moved-from optional lost its state"); }
    void step() {
        int i = s.draw(K), j = s.draw(K);
        switch (s.draw(12)) {
            case 0: PLOG(s, "m" << i << " = nothing"); s.label(m[i].has ? "just = nothing" : "nothing = nothing"); *v[i] = nothing; m[i] = none(); moved[i] = false; check(i, "assigning nothing"); break;
            case 1: case 2: { int x = s.range(-20, 20); PLOG(s, "m" << i << " = " << x); s.label(m[i].has ? "just = just" : "nothing = just"); if (s.flip()) *v[i] = El<A>::make(x); else { const A t = El<A>::make(x); *v[i] = t; } m[i] = some(x); moved[i] = false; check(i, "assigning a value"); s.nontrivial(); break; }
            case 3: if (moved[j]) break; PLOG(s, "m" << i << " = m" << j); *v[i] = const_cast<const M&>(*v[j]); m[i] = m[j]; moved[i] = false; check(i, "copy assignment"); check(j, "being copied"); s.nontrivial(); break;
            case 4: if (moved[j]) break; PLOG(s, "m" << i << " = move m" << j); *v[i] = efp::move(*v[j]); if (i != j) { m[i] = m[j]; moved[i] = false; moved[j] = m[j].has; } check(i, "move assignment"); check(j, "being moved from"); break;
            case 5: if (moved[j] || i == j) break; PLOG(s, "m" << i << " = new Maybe(m" << j << ")"); delete v[i]; v[i] = nullptr; v[i] = new M(const_cast<const M&>(*v[j])); m[i] = m[j]; moved[i] = false; check(i, "copy construction"); check(j, "being copied"); break;
            case 6: if (moved[j] || i == j) break; PLOG(s, "m" << i << " = new Maybe(move m" << j << ")"); delete v[i]; v[i] = nullptr; v[i] = new M(efp::move(*v[j])); m[i] = m[j]; moved[i] = false; moved[j] = m[j].has; check(i, "move construction"); check(j, "being moved from"); break;
            case 7: { PCHECK(nothing == nothing && !(nothing != nothing), "nothing is not equal to nothing"); if (moved[i] || moved[j]) break; PLOG(s, "compare m" << i << ", m" << j); bool eq = m[i].has == m[j].has && (!m[i].has || m[i].v == m[j].v); const M &a = *v[i], &b = *v[j]; PCHECK((a == b) == eq && (a != b) == !eq, "equality of " << sh(m[i]) << " and " << sh(m[j])); s.label(eq ? "equal" : "unequal"); break; }
            case 8: {
                if (moved[i]) break;
                PLOG(s, "move the value out of m" << i);
                if (!m[i].has) {
                    bool r = false;
                    try { A t(v[i]->move()); } catch (const std::exception&) { r = true; }
                    PCHECK(r, "moving the value out of an empty optional raised no error");
                    check(i, "rejected move out");
                } else {
                    const M& c = *v[i];
                    PCHECK(El<A>::val(c.move()) == m[i].v, "const move gave another value");
                    A t(v[i]->move());
                    PCHECK(El<A>::val(t) == m[i].v, "move out gave " << El<A>::val(t) << ", expected " << sh(m[i]));
                    moved[i] = true;
                    check(i, "move out");
                }
                break;
            }
            case 9: { if (moved[i]) break; unsigned k = s.draw(64); PLOG(s, "m" << j << " = fmap f m" << i); F<A, A> f = {k}; *v[j] = efp::fmap(f, const_cast<const M&>(*v[i])); m[j] = mfmap<A, A>(k, m[i]); moved[j] = false; check(j, "assigning an fmap"); if (i != j) check(i, "being mapped"); break; }
            case 10: { if (moved[i]) break; unsigned k = s.draw(64); PLOG(s, "m" << j << " = bind m" << i); G<A, A> g = {k}; *v[j] = efp::bind(const_cast<const M&>(*v[i]), g); m[j] = mbind<A, A>(k, m[i]); moved[j] = false; check(j, "assigning a bind"); if (i != j) check(i, "being bound"); break; }
            default: if (moved[i] || !m[i].has) break; { int x = s.range(-20, 20); PLOG(s, "write " << x << " into m" << i); v[i]->template get<A>() = El<A>::make(x); m[i] = some(x); check(i, "writing the value"); }
        }
    }
    static void go(Src& s) {
        PLOG(s, "history of Maybe<" << El<A>::name() << ">");
        std::unique_ptr<Hist> h(new Hist(s));
        size_t n = 1 + s.len(24);
        for (size_t k = 0; k < n && !s.exhausted(); ++k) h->step();
        s.label("history");
    }
};

// an optional holding an optional
static void nested(Src& s) {
    MM a = gen(s);
    bool outer = s.chance(2, 3);
    Maybe<Maybe<int>> m;
    PLOG(s, "nested: " << (outer ? "just " + sh(a) : "nothing"));
    if (outer) m = build<int>(a);
    PCHECK(m.has_value() == outer && m.is_nothing() == !outer, "nested optional: presence");
    struct I { Maybe<int> operator()(const Maybe<int>& x) const { return x; } };
    const Maybe<Maybe<int>>& cm = m;
    expect(efp::bind(cm, I()), outer ? a : none(), "join");
    if (outer) expect(cm.value(), a, "inner optional");
    Maybe<Maybe<int>> c = cm;
    PCHECK(c == cm, "copy of a nested optional");
    s.label("nested");
}

// values that could be taken for the optional itself, cannot be copied, or are sequences
static void others(Src& s) {
    s.label("other values");
    s.nontrivial();
    { const efp::Nothing p, q = efp::nothing; PCHECK(p == q && !(p != q), "nothing is not equal to itself"); }
    const bool has = s.chance(3, 4), x = s.flip();
    {
        Maybe<bool> m;
        if (has) m = x;
        PLOG(s, "Maybe<bool>: " << (has ? x ? "just true" : "just false" : "nothing"));
        PCHECK((bool)m == has && m.has_value() == has && m.is_nothing() == !has, "presence of an optional bool");
        if (has) PCHECK(m.value() == x, "value of an optional bool");
        int calls = 0;
        const Maybe<bool> n = efp::fmap([&](bool b) { ++calls; return !b; }, m);
        PCHECK(calls == (has ? 1 : 0) && n.has_value() == has && (!has || n.value() == !x), "fmap over an optional bool");
        const Maybe<bool> same = m.fmap([](bool b) { return b; });
        PCHECK(same == m, "identity over an optional bool");
    }
    const int k = s.range(-50, 50);
    {
        typedef std::unique_ptr<int> U;
        Maybe<U> m, o;
        if (has) m = U(new int(k));
        PLOG(s, "an optional that cannot be copied: " << (has ? "just " + std::to_string(k) : "nothing"));
        PCHECK((bool)m == has, "presence of a move-only value");
        int seen = m.match([](const U& u) { return *u; }, [](efp::Nothing) { return -1000; });
        PCHECK(seen == (has ? k : -1000), "match of a move-only optional saw " << seen);
        if (s.flip()) { o = U(new int(k + 1)); }
        switch (s.draw(3)) {
            case 0: o = efp::move(m); break;
            case 1: { Maybe<U> c(efp::move(m)); o = efp::move(c); break; }
            default: if (has) { U u = m.move(); o = efp::move(u); } else o = efp::nothing;
        }
        PCHECK((bool)o == has && (!has || *o.get<U>() == k), "a moved move-only optional");
        if (s.flip()) { o = efp::nothing; PCHECK(!o && o.is_nothing(), "emptied"); bool r = false; try { (void)o.move(); } catch (const std::exception&) { r = true; } PCHECK(r, "moving out of nothing raises no error"); }
    }
    {
        const size_t n = s.draw(5);
        efp::Vector<int> v;
        for (size_t i = 0; i < n; ++i) v.push_back(s.ival());
        Maybe<efp::Vector<int>> m, o;
        if (has) m = v;
        o = m;
        v.push_back(7);
        auto f = [](const efp::Vector<int>& w) { return w.size(); };
        const Maybe<size_t> l = efp::fmap(f, o);
        PCHECK(l.has_value() == has && (!has || l.value() == n), "fmap over an optional sequence");
        const auto g = [](const efp::Vector<int>& w) -> Maybe<int> { if (w.empty()) return efp::nothing; return efp::head(w); };
        const Maybe<int> h = efp::bind(o, g), h2 = o >>= g;
        PCHECK(h == h2 && h.has_value() == (has && n > 0) && (!h || h.value() == v[0]), "bind over an optional sequence");
    }
}

void pbt_case(Src& s) {
    switch (s.draw(10)) {
        case 9: others(s); break;
        case 0: laws<int, int, int>(s); break;
        case 1: laws<int, std::string, Tracked>(s); break;
        case 2: laws<Tracked, Tracked, int>(s); break;
        case 3: laws<std::string, double, std::string>(s); break;
        case 4: Hist<int>::go(s); break;
        case 5: case 6: Hist<Tracked>::go(s); break;
        case 7: Hist<std::string>::go(s); break;
        default: nested(s);
    }
}
void pbt_reset() { reset_tracked(); g_calls = 0; }
void pbt_end(Src&) { PCHECK(live_tracked() == 0, live_tracked() << " values still alive at the end"); }
