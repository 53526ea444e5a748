// C19: tuples, composition, identity and callable adapters.
#include "efp.hpp"
#include "efp/c_utility.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include <memory>
#include <tuple>
using namespace pbt;
using efp::Tuple;

const char* const pbt_name = "c19_tuple";
const char* const pbt_rule = "";

template<int...> struct Ix {};
template<int n, int... is> struct IxN : IxN<n - 1, n - 1, is...> {};
template<int... is> struct IxN<0, is...> { typedef Ix<is...> T; };
template<size_t i, typename... As> using At = typename std::tuple_element<i, std::tuple<As...>>::type;

// ---- tuples: modelled by the list of their leaf values
typedef std::vector<int> L;
template<typename T> struct Leaf {
    static const size_t n = 1;
    static void out(const T& t, L& l) { l.push_back(El<T>::val(t)); }
    static T in(const L& l, size_t at) { return El<T>::make(l[at]); }
};
template<typename... As> struct Sum;
template<> struct Sum<> { static const size_t n = 0; };
template<typename A, typename... As> struct Sum<A, As...> { static const size_t n = Leaf<A>::n + Sum<As...>::n; };
// leaves before component i
template<size_t i, typename... As> struct Before { static const size_t n = 0; };
template<size_t i, typename A, typename... As> struct Before<i, A, As...> { static const size_t n = i == 0 ? 0 : Leaf<A>::n + Before<(i == 0 ? 0 : i - 1), As...>::n; };
template<size_t i, typename... As> struct Out {
    static void go(const Tuple<As...>& t, L& l) {
        Out<i - 1, As...>::go(t, l);
        Leaf<At<i - 1, As...>>::out(t.template get<i - 1>(), l);
    }
};
template<typename... As> struct Out<0, As...> { static void go(const Tuple<As...>&, L&) {} };
template<typename Seq, typename... As> struct In;
template<int... is, typename... As> struct In<Ix<is...>, As...> {
    static Tuple<As...> ctor(const L& l, size_t at) { return Tuple<As...>(Leaf<As>::in(l, at + Before<(size_t)is, As...>::n)...); }
    static Tuple<As...> make(const L& l, size_t at) { return efp::tuple(Leaf<As>::in(l, at + Before<(size_t)is, As...>::n)...); }
};
template<typename... As> struct Leaf<Tuple<As...>> {
    static const size_t n = Sum<As...>::n;
    static void out(const Tuple<As...>& t, L& l) { Out<sizeof...(As), As...>::go(t, l); }
    static Tuple<As...> in(const L& l, size_t at) { return In<typename IxN<(int)sizeof...(As)>::T, As...>::ctor(l, at); }
};
// the unit value: all are equal
template<> struct Leaf<efp::Unit> {
    static const size_t n = 0;
    static void out(const efp::Unit& u, L&) { PCHECK(u == efp::unit && !(u != efp::unit) && u == efp::Unit(), "the unit value is not equal to itself"); }
    static efp::Unit in(const L&, size_t) { return efp::Unit(); }
};
template<typename T> L flat(const T& t) { L l; Leaf<T>::out(t, l); return l; }

template<typename... As> struct Sink;
template<> struct Sink<> { static void go(L&) {} };
template<typename A, typename... As> struct Sink<A, As...> { static void go(L& l, const A& a, const As&... as) { Leaf<A>::out(a, l); Sink<As...>::go(l, as...); } };
static int g_calls;
static L g_seen;
struct Match {
    template<typename... As> std::string operator()(const As&... as) const {
        ++g_calls; g_seen.clear();
        Sink<As...>::go(g_seen, as...);
        return "r" + show(g_seen);
    }
};
static int code(Src& s) { return s.chance(3, 4) ? s.range(-3, 3) : s.range(-100, 100); }

// operations on component i (run-time i to compile-time index)
template<size_t i, typename... As> struct Comp {
    typedef Tuple<As...> T;
    typedef At<i - 1, As...> A;
    static void set(size_t k, T& t, L& m, Src& s) {
        if (k != i - 1) { Comp<i - 1, As...>::set(k, t, m, s); return; }
        L v;
        for (size_t j = 0; j < Leaf<A>::n; ++j) v.push_back(code(s));
        A nv = Leaf<A>::in(v, 0);
        switch (s.draw(4)) {
            case 0: t.template get<i - 1>() = nv; break;
            case 1: efp::get<i - 1>(t) = nv; break;
            case 2: efp::p<i - 1>(t) = nv; break;
            default: { A& r = t.template get<i - 1>(); r = efp::move(nv); }
        }
        for (size_t j = 0; j < v.size(); ++j) m[Before<i - 1, As...>::n + j] = v[j];
    }
    static void read(T& t, const L& m) {
        Comp<i - 1, As...>::read(t, m);
        const T& c = t;
        L w(m.begin() + Before<i - 1, As...>::n, m.begin() + Before<i - 1, As...>::n + Leaf<A>::n);
        const A* p1 = &c.template get<i - 1>();
        PCHECK(p1 == &t.template get<i - 1>() && p1 == &efp::get<i - 1>(c) && p1 == &efp::get<i - 1>(t) && p1 == &efp::p<i - 1>(c) && p1 == &efp::p<i - 1>(t), "accessors of component " << i - 1 << " disagree about its place");
        PCHECK((const char*)p1 >= (const char*)&c && (const char*)(p1 + 1) <= (const char*)(&c + 1), "component " << i - 1 << " lies outside its tuple");
        L g; Leaf<A>::out(*p1, g);
        PCHECK(g == w, "component " << i - 1 << " is " << show(g) << ", expected " << show(w));
    }
};
template<typename... As> struct Comp<0, As...> {
    static void set(size_t, Tuple<As...>&, L&, Src&) {}
    static void read(Tuple<As...>&, const L&) {}
};
template<bool two, typename T> struct Ends { static void check(T&) {} };
template<typename T> struct Ends<true, T> {
    static void check(T& t) {
        const T& c = t;
        PCHECK((const void*)&efp::fst(c) == (const void*)&c.template get<0>() && (const void*)&efp::fst(t) == (const void*)&c.template get<0>(), "fst is not the first component");
        PCHECK((const void*)&efp::snd(c) == (const void*)&c.template get<1>() && (const void*)&efp::snd(t) == (const void*)&c.template get<1>(), "snd is not the second component");
    }
};
static void settle(const char* what) { if (!pending().empty()) fail(std::string(what) + ": " + pending()); }

template<typename... As> void tuples(Src& s, const char* name) {
    typedef Tuple<As...> T;
    typedef In<typename IxN<(int)sizeof...(As)>::T, As...> B;
    const size_t n = Sum<As...>::n, k = sizeof...(As);
    std::unique_ptr<T> t[3];
    L m[3];
    int ops = s.range(1, 16);
    PLOG(s, name << ", " << ops << " operations");
    for (int j = 0; j < 3; ++j) {
        for (size_t i = 0; i < n; ++i) m[j].push_back(code(s));
        if (j && s.flip()) m[j] = m[0];
        t[j].reset(new T(s.flip() ? B::ctor(m[j], 0) : B::make(m[j], 0)));
        PLOG(s, "t" << j << " = " << show(m[j]));
    }
    if (k > 1) s.nontrivial();
    for (int op = 0; op <= ops; ++op) {
        int a = s.draw(3), b = s.draw(3);
        if (op) switch (s.draw(7)) {
            case 0: PLOG(s, "t" << a << " = t" << b); *t[a] = *t[b]; m[a] = m[b]; break;
            case 1: PLOG(s, "t" << a << " rebuilt as a copy of t" << b); t[a].reset(new T(*t[b])); m[a] = m[b]; break;
            case 2: {
                PLOG(s, "t" << a << " = move of a copy of t" << b);
                T c(*t[b]); *t[a] = efp::move(c); m[a] = m[b];
                break;
            }
            case 3: {
                PLOG(s, "t" << a << " = tuple from a list");
                for (size_t i = 0; i < n; ++i) m[a][i] = code(s);
                if (s.flip()) *t[a] = B::ctor(m[a], 0); else t[a].reset(new T(B::make(m[a], 0)));
                break;
            }
            default: if (k) {
                size_t i = s.draw(k);
                Comp<sizeof...(As), As...>::set(i, *t[a], m[a], s);
                PLOG(s, "t" << a << " component " << i << " set -> " << show(m[a]));
            }
        }
        for (int j = 0; j < 3; ++j) {
            L f = flat(*t[j]);
            PCHECK(f == m[j], name << ": t" << j << " holds " << show(f) << ", expected " << show(m[j]));
            Comp<sizeof...(As), As...>::read(*t[j], m[j]);
            Ends<(sizeof...(As) >= 2), T>::check(*t[j]);
        }
        bool e = m[a] == m[b];
        PCHECK((*t[a] == *t[b]) == e && (*t[a] != *t[b]) == !e, name << ": comparing " << show(m[a]) << " and " << show(m[b]) << ": == gives " << (*t[a] == *t[b]) << ", != gives " << (*t[a] != *t[b]));
        g_calls = 0;
        std::string r = t[a]->match(Match());
        PCHECK(g_calls == 1 && g_seen == m[a] && r == "r" + show(m[a]), name << ": match called " << g_calls << " times with " << show(g_seen) << " and returned " << r << ", expected " << show(m[a]));
        settle(name);
    }
}
static int twice(int x) { return 2 * x; }
static int plus1(int x) { return x + 1; }
static void function_tuples(Src& s) {
    int x = code(s);
    bool f = s.flip();
    PLOG(s, "tuple of functions, " << x);
    auto t = efp::tuple(twice, plus1, x);
    PCHECK(efp::fst(t)(x) == 2 * x && efp::snd(t)(x) == x + 1 && efp::get<2>(t) == x, "functions in a tuple");
    auto u = t;
    u.get<0>() = f ? plus1 : twice;
    PCHECK(u.get<0>()(x) == (f ? x + 1 : 2 * x) && t.get<0>()(x) == 2 * x && u.get<1>()(x) == x + 1, "functions in a copied tuple");
    PCHECK((u == t) == !f && (u != t) == f, "comparison of tuples of functions");
    // non-generic branch, and a branch returning nothing
    efp::Tuple<int, std::string> w(x, El<std::string>::make(x));
    int wm = w.match([](int a, const std::string& b) { return a + (int)b.size(); });
    PCHECK(wm == x + (int)El<std::string>::make(x).size(), "match with a plain lambda");
    int sum = 0;
    w.match([&](int a, const std::string&) { sum += a; });
    PCHECK(sum == x, "match with a branch that returns nothing");
}

// ---- composition
static std::vector<int> g_trace;
template<typename A, typename B> struct Fn {
    int k;
    static int of(int k, int x) { return (int)(mix((uint64_t)(unsigned)k << 32 | (unsigned)x) % 2001) - 1000; }
    B operator()(const A& a) const { g_trace.push_back(k); return El<B>::make(of(k, El<A>::val(a))); }
};
template<typename A, typename B> struct ByValue {
    int k;
    B operator()(A a) const { g_trace.push_back(k); return El<B>::make(Fn<A, B>::of(k, El<A>::val(a))); }
};
struct Three {
    int k;
    int operator()(int a, const std::string& b, Tracked c) const { g_trace.push_back(k); return Fn<int, int>::of(k, a * 7 + El<std::string>::val(b) * 3 + El<Tracked>::val(c)); }
};
static void traced(int n, const char* what) {
    std::vector<int> w;
    for (int i = n - 1; i >= 0; --i) w.push_back(i);
    PCHECK(g_trace == w, what << ": calls were " << show(g_trace) << ", expected " << show(w));
    g_trace.clear();
}
// a chain through A -> B -> A ..., of n functions, against nested application
template<typename A, typename B> void chains(Src& s) {
    int n = s.range(1, 7), x = code(s);
    PLOG(s, "compose " << n << " functions " << El<A>::name() << "/" << El<B>::name() << " at " << x);
    if (n >= 2) s.nontrivial();
    // function i (0 outermost) maps X_{n-i} ...: alternate so that the innermost takes A
    Fn<A, B> ab[8]; ByValue<B, A> ba[8];
    for (int i = 0; i < 8; ++i) { ab[i].k = i; ba[i].k = i; }
    A arg = El<A>::make(x);
    const A& c = arg;
    bool lv = s.flip();
    int w = x;
    for (int i = n - 1; i >= 0; --i) w = Fn<A, B>::of(i, w);
    g_trace.clear();
    int got = 0;
#define RUN(...) { auto h = efp::compose(__VA_ARGS__); if (lv) { auto r = h(c); got = El<decltype(r)>::val(r); } else { auto r = h(El<A>::make(x)); got = El<decltype(r)>::val(r); } }
    switch (n) {
        case 1: RUN(ab[0]); break;
        case 2: RUN(ba[0], ab[1]); break;
        case 3: RUN(ab[0], ba[1], ab[2]); break;
        case 4: RUN(ba[0], ab[1], ba[2], ab[3]); break;
        case 5: RUN(ab[0], ba[1], ab[2], ba[3], ab[4]); break;
        case 6: RUN(ba[0], ab[1], ba[2], ab[3], ba[4], ab[5]); break;
        default: RUN(ab[0], ba[1], ab[2], ba[3], ab[4], ba[5], ab[6]);
    }
#undef RUN
    PCHECK(got == w, "composition of " << n << " functions gives " << got << ", expected " << w);
    traced(n, "composition");
    PCHECK(El<A>::val(c) == x, "composition changed its argument");
    // associativity, and identity on both sides
    if (s.flip()) {
        auto fg = efp::compose(ab[0], ba[1]); auto l = efp::compose(fg, ab[2]);
        auto gh = efp::compose(ba[1], ab[2]); auto r = efp::compose(ab[0], gh);
        int a1 = El<B>::val(l(c)); traced(3, "(f.g).h");
        int a2 = El<B>::val(r(c)); traced(3, "f.(g.h)");
        int a3 = Fn<A, B>::of(0, Fn<A, B>::of(1, Fn<A, B>::of(2, x)));
        PCHECK(a1 == a3 && a2 == a3, "associativity: " << a1 << ", " << a2 << ", nested " << a3);
        auto li = efp::compose(efp::id<B>, ab[0]); auto ri = efp::compose(ab[0], efp::id<A>);
        int i1 = El<B>::val(li(c)), i2 = El<B>::val(ri(c)), i3 = Fn<A, B>::of(0, x);
        PCHECK(i1 == i3 && i2 == i3, "composing with the identity changes the function");
        g_trace.clear();
    }
    settle("composition");
}
static int inc_trace(int x) { g_trace.push_back(0); return x + 1; }
static void special(Src& s) {
    int a = code(s), b = code(s), c = code(s), k = s.draw(100);
    s.nontrivial();
    g_trace.clear();
    PLOG(s, "special compositions at " << a << "," << b << "," << c);
    {   // several arguments to the innermost function, function pointers and functions
        Three t = {2}; Fn<int, int> f = {1};
        auto h = efp::compose(inc_trace, f, t);
        int w = Fn<int, int>::of(1, Fn<int, int>::of(2, a * 7 + b * 3 + c)) + 1;
        int g = h(a, El<std::string>::make(b), Tracked(c));
        PCHECK(g == w, "composition after a function of three arguments gives " << g << ", expected " << w);
        traced(3, "three arguments");
        int (*fp)(int) = inc_trace;
        auto h2 = efp::compose(fp, fp);
        PCHECK(h2(a) == a + 2, "composition of function pointers");
        g_trace.clear();
    }
    {   // arguments and results by reference keep their identity
        int cell = a, other = b;
        auto pick = [&](int& r) -> int& { r += 1; return k & 1 ? r : other; };
        auto same = [](int& r) -> int& { return r; };
        auto h = efp::compose(same, pick);
        int& r = h(cell);
        PCHECK(cell == a + 1 && &r == (k & 1 ? &cell : &other), "composition through references lost the object");
        r = 7;
        int wrote = k & 1 ? cell : other;
        PCHECK(wrote == 7, "write through a composed reference");
        auto set = [](int& r2) { r2 = 9; };
        efp::compose(set, same)(cell);
        PCHECK(cell == 9, "composition ending in a function that returns nothing");
    }
    {   // move-only values travel through
        auto open = [](std::unique_ptr<int> p) { return *p; };
        auto wrap = [](int v) { return std::unique_ptr<int>(new int(v + 1)); };
        auto h = efp::compose(open, wrap);
        PCHECK(h(a) == a + 1, "composition through a move-only value");
        auto h2 = efp::compose(wrap, open);
        PCHECK(*h2(std::unique_ptr<int>(new int(b))) == b + 1, "composition from a move-only argument");
        auto none = [&]() { return c; };
        PCHECK(efp::compose(plus1, none)() == c + 1, "composition from no argument");
    }
    PCHECK(efp::id(a) == a && efp::id(El<std::string>::make(b)) == El<std::string>::make(b) && El<Tracked>::val(efp::id(Tracked(c))) == c, "the identity function changed its argument");
    settle("special compositions");
}

// ---- callable adapters: the pointer calls the object of its type adapted last
static const void* g_who;
struct Acc {
    int sum; int k;
    int operator()(int x) { g_who = this; sum += x; return sum * 10 + k; }
};
struct Cst {
    int k;
    std::string operator()(const std::string& a, int b) const { g_who = this; return a + std::to_string(b) + "/" + std::to_string(k); }
};
struct Ref {
    int* cell;
    int& operator()(int& x, const Tracked& t) { g_who = this; x += El<Tracked>::val(t); *cell += 1; return *cell; }
};
struct Nul {
    int n;
    void operator()() { g_who = this; ++n; }
};
struct Mov {
    int k;
    std::unique_ptr<int> operator()(std::unique_ptr<int> p, std::string s) noexcept { g_who = this; *p += k + (int)s.size(); return p; }
};
struct Cnx {
    int k;
    int operator()(int x, Tracked t) const noexcept { g_who = this; return x * k + El<Tracked>::val(t); }
};
static void adapters(Src& s) {
    int cells[3] = {0, 0, 0};
    Acc acc[3]; Cst cst[3]; Ref ref[3]; Nul nul[3]; Mov mov[3]; Cnx cnx[3];
    int msum[3], mn[3] = {0, 0, 0}, mc[3] = {0, 0, 0};
    for (int i = 0; i < 3; ++i) {
        acc[i].sum = msum[i] = code(s); acc[i].k = i; cst[i].k = code(s); ref[i].cell = &cells[i]; nul[i].n = 0; mov[i].k = code(s); cnx[i].k = code(s);
    }
    auto lam = [&](int x) { g_who = &acc; return x + cst[0].k; };
    auto mut = [msum](int x) mutable { msum[0] += x; return msum[0]; };
    int mmut = msum[0];
    int (*p0)(int) = nullptr; std::string (*p1)(const std::string&, int) = nullptr; int& (*p2)(int&, const Tracked&) = nullptr;
    void (*p3)() = nullptr; std::unique_ptr<int> (*p4)(std::unique_ptr<int>, std::string) = nullptr; int (*p5)(int, Tracked) = nullptr;
    int (*p6)(int) = efp::func_ptr(lam); int (*p7)(int) = efp::func_ptr(mut);
    int at[6];
    for (int i = 0; i < 6; ++i) at[i] = -1;
    int ops = s.range(2, 14);
    for (int op = 0; op < ops; ++op) {
        int t = s.draw(8), o = s.draw(3), x = s.range(-9, 9), y = s.range(-9, 9);
        bool adapt = t < 6 && (at[t] < 0 || s.chance(1, 3));
        if (adapt) {
            PLOG(s, "adapt object " << o << " of type " << t);
            if (op) s.nontrivial();
            at[t] = o;
            switch (t) {
                case 0: p0 = efp::func_ptr(acc[o]); break;
                case 1: p1 = efp::func_ptr(cst[o]); break;
                case 2: p2 = efp::func_ptr(ref[o]); break;
                case 3: p3 = efp::func_ptr(nul[o]); break;
                case 4: p4 = efp::func_ptr(mov[o]); break;
                default: p5 = efp::func_ptr(cnx[o]); break;
            }
            continue;
        }
        o = t < 6 ? at[t] : 0;
        PLOG(s, "call type " << t << " (object " << o << ") with " << x << "," << y);
        g_who = nullptr;
        switch (t) {
            case 0: { int r = p0(x); msum[o] += x; PCHECK(r == msum[o] * 10 + o && g_who == &acc[o], "adapter of a stateful object gives " << r << ", expected " << msum[o] * 10 + o); break; }
            case 1: { std::string a = El<std::string>::make(x), r = p1(a, y), w = a + std::to_string(y) + "/" + std::to_string(cst[o].k); PCHECK(r == w && g_who == &cst[o], "adapter of a const object gives " << r << ", expected " << w); break; }
            case 2: { int v = x; int& r = p2(v, Tracked(y)); ++mc[o]; PCHECK(&r == &cells[o] && v == x + y && cells[o] == mc[o] && g_who == &ref[o], "adapter with reference arguments and result: argument " << v << ", expected " << x + y); break; }
            case 3: { p3(); ++mn[o]; PCHECK(nul[o].n == mn[o] && g_who == &nul[o], "adapter without arguments ran " << nul[o].n << " times, expected " << mn[o]); break; }
            case 4: { std::string a = El<std::string>::make(y); std::unique_ptr<int> q(new int(x)); const int* pq = q.get(); std::unique_ptr<int> r = p4(std::move(q), a); PCHECK(r.get() == pq && *r == x + mov[o].k + (int)a.size() && g_who == &mov[o], "adapter with a move-only argument"); break; }
            case 5: { int r = p5(x, Tracked(y)); PCHECK(r == x * cnx[o].k + y && g_who == &cnx[o], "adapter of a noexcept object gives " << r); break; }
            case 6: { int r = p6(x); PCHECK(r == x + cst[0].k, "adapter of a capturing lambda gives " << r); break; }
            default: { int r = p7(x); mmut += x; PCHECK(r == mmut, "adapter of a mutable lambda gives " << r << ", expected " << mmut); }
        }
        settle("adapter");
    }
}

void pbt_reset() { reset_tracked(); g_calls = 0; g_trace.clear(); g_seen.clear(); }
void pbt_case(Src& s) {
    switch (s.draw(26)) {
        case 0: s.label("tuple0"); tuples<>(s, "Tuple<>"); break;
        case 1: s.label("tuple1"); tuples<int>(s, "Tuple<int>"); break;
        case 2: s.label("tuple1"); tuples<Tracked>(s, "Tuple<Tracked>"); break;
        case 3: s.label("tuple1"); tuples<Tuple<int>>(s, "Tuple<Tuple<int>>"); break;
        case 4: s.label("tuple2"); tuples<int, int>(s, "Tuple<int,int>"); break;
        case 5: s.label("tuple2"); tuples<std::string, Tracked>(s, "Tuple<string,Tracked>"); break;
        case 6: s.label("tuple2"); tuples<Tuple<int, std::string>, Tuple<int, std::string>>(s, "Tuple<Tuple,Tuple>"); break;
        case 7: s.label("tuple3"); tuples<Tracked, std::string, int>(s, "Tuple<Tracked,string,int>"); break;
        case 8: s.label("tuple4"); tuples<int, Tuple<std::string, Tuple<Tracked>>, Tracked, double>(s, "Tuple<int,Tuple<..>,Tracked,double>"); break;
        case 9: s.label("tuple5"); tuples<double, std::string, int, std::string, Tracked>(s, "Tuple of 5"); break;
        case 10: s.label("tuple8"); tuples<int, int, int, int, int, int, int, int>(s, "Tuple of 8 ints"); break;
        case 11: s.label("tuple12"); tuples<int, double, std::string, Tracked, Tuple<>, int, Tuple<int, int>, std::string, int, Tracked, double, int>(s, "Tuple of 12"); break;
        case 12: s.label("functions"); function_tuples(s); break;
        case 13: case 14: s.label("compose"); chains<int, int>(s); break;
        case 15: s.label("compose"); chains<int, std::string>(s); break;
        case 16: s.label("compose"); chains<std::string, Tracked>(s); break;
        case 17: s.label("compose"); chains<Tracked, int>(s); break;
        case 20: s.label("unit"); tuples<efp::Unit>(s, "Tuple<Unit>"); break;
        case 21: s.label("unit"); tuples<int, efp::Unit, Tracked, efp::Unit>(s, "Tuple<int,Unit,Tracked,Unit>"); break;
        case 18: case 19: s.label("special"); special(s); break;
        default: s.label("adapter"); adapters(s);
    }
}
void pbt_end(Src&) { settle("end"); PCHECK(live_tracked() == 0, live_tracked() << " values still alive at the end"); }
