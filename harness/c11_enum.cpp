// C11: sum types of 2 to 256 alternatives against a (alternative, value) model.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include <memory>
#include <initializer_list>
using namespace pbt;

const char* const pbt_name = "c11_enum";
const char* const pbt_rule = "";

// alternative I of a family: plain ones of varying size and alignment, owning ones
template<int I> struct Plain {
    int v;
    unsigned char pad[I % 5 + 1];
    explicit Plain(int x = 0) : v(x) { memset(pad, I & 255, sizeof pad); }
    int get() const { for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != (I & 255)) return -987654321; return v; }
    bool operator==(const Plain& o) const { return v == o.v; }
};
template<int I> struct Own {
    Tracked t;
    double d;
    explicit Own(int x = 0) : t(x), d(I) {}
    Own(std::initializer_list<Own>) : t(-1), d(-1) {}      // never asked for: a copy is no list of one
    int get() const { return d == I ? t.get() : -987654321; }
    bool operator==(const Own& o) const { return t == o.t; }
};
template<int I> struct Mixed : Plain<I> { explicit Mixed(int x = 0) : Plain<I>(x) {} };
template<int I> struct MixedOwn : Own<I> {
    explicit MixedOwn(int x = 0) : Own<I>(x) {}
    MixedOwn(std::initializer_list<MixedOwn>) : Own<I>(-1) { this->d = -1; }
};
template<int I> struct Alt3 { typedef typename std::conditional<I % 3 == 1, MixedOwn<I>, Mixed<I>>::type T; };
template<int I> struct AltP { typedef Plain<I> T; };
template<int I> struct AltO { typedef Own<I> T; };

// integer sequence for C++11
template<int... I> struct Ints {};
template<int N, int... I> struct MkInts : MkInts<N - 1, N - 1, I...> {};
template<int... I> struct MkInts<0, I...> { typedef Ints<I...> T; };

// what a branch was called with
struct Call { int alt, val; };

template<template<int> class A, int N> struct Fam;
template<template<int> class A, typename S> struct EnumOf;
template<template<int> class A, int... I> struct EnumOf<A, Ints<I...>> { typedef efp::Enum<typename A<I>::T...> T; };

template<template<int> class A, int I> struct Branch {
    std::vector<Call>* log;
    int salt;
    int operator()(const typename A<I>::T& a) const { Call c = {I, a.get()}; log->push_back(c); return salt ^ (I * 1000003 + c.val); }
};
struct Wild {
    std::vector<Call>* log;
    int salt;
    int operator()() const { Call c = {-1, 0}; log->push_back(c); return salt ^ 424242; }
};
template<template<int> class A, int I> struct VBranch {
    std::vector<Call>* log;
    void operator()(const typename A<I>::T& a) const { Call c = {I, a.get()}; log->push_back(c); }
};
struct VWild {
    std::vector<Call>* log;
    void operator()() const { Call c = {-1, 0}; log->push_back(c); }
};
template<template<int> class A, int I> struct SBranch {  // by value, other result type
    std::vector<Call>* log;
    std::string operator()(typename A<I>::T a) const { Call c = {I, a.get()}; log->push_back(c); return El<std::string>::make(a.get()); }
};

// integers of a list that satisfy I % m == r
template<int m, int r, typename S, typename Acc = Ints<>> struct Sel;
template<int m, int r, int... J> struct Sel<m, r, Ints<>, Ints<J...>> { typedef Ints<J...> T; };
template<int m, int r, int I, int... Is, int... J> struct Sel<m, r, Ints<I, Is...>, Ints<J...>> {
    typedef typename std::conditional<I % m == r, Sel<m, r, Ints<Is...>, Ints<J..., I>>, Sel<m, r, Ints<Is...>, Ints<J...>>>::type::T T;
};

template<template<int> class A, int N, bool full> struct Run {
    typedef typename MkInts<N>::T Seq;
    typedef typename EnumOf<A, Seq>::T E;
    struct M { int alt, val; bool moved; };
    static const int K = 3;
    E* v[K];
    M m[K];
    Src& s;
    explicit Run(Src& s_) : s(s_) { for (int i = 0; i < K; ++i) { v[i] = new E(); m[i].alt = 0; m[i].val = 0; m[i].moved = false; } }
    ~Run() { for (int i = 0; i < K; ++i) delete v[i]; }

    // run-time index to compile-time alternative
    template<int I> static E* make_(int x) { return new E(typename A<I>::T(x)); }
    template<int I> static E* make_const_(int x) { const typename A<I>::T a(x); return new E(a); }
    template<int I> static void assign_(E& e, int x) { e = E(typename A<I>::T(x)); }
    template<int I> static int get_(const E& e) { return e.template get<typename A<I>::T>().get(); }
    template<int I> static int getm_(E& e) { return e.template get<typename A<I>::T>().get(); }
    template<int I> static int geti_(const E& e) { return e.template get<(uint8_t)I>().get(); }
    template<int I> static int getim_(E& e) { return e.template get<(uint8_t)I>().get(); }
    template<int I> static void set_(E& e, int x) { e.template get<typename A<I>::T>() = typename A<I>::T(x); }
    template<int I> static int moveout_(E& e) { typename A<I>::T t(e.template move<typename A<I>::T>()); return t.get(); }
    template<int I> static int moveouti_(E& e) { typename A<I>::T t(e.template move<(uint8_t)I>()); return t.get(); }
    template<int I> static int cmove_(const E& e) { const typename A<I>::T&& t = e.template move<typename A<I>::T>(); return t.get(); }
    template<int I> static int cmovei_(const E& e) { const typename A<I>::T&& t = e.template move<(uint8_t)I>(); return t.get(); }

    struct Tab { E* (*make)(int); E* (*make_const)(int); void (*assign)(E&, int); int (*get)(const E&); int (*getm)(E&); int (*geti)(const E&); int (*getim)(E&); void (*set)(E&, int); int (*moveout)(E&); int (*moveouti)(E&); int (*cmove)(const E&); int (*cmovei)(const E&); };
    // above 140 alternatives only 0, 7, 8, 15, 16, ... are held (compile time)
    enum { kHeld = N > 140 ? N / 8 * 2 : N };
    static constexpr int held(int i) { return N > 140 ? i / 2 * 8 + (i % 2 ? 7 : 0) : i; }
    template<int... P> static const Tab& tab(int i, Ints<P...>) { return tab_(i, Ints<held(P)...>()); }
    template<int... I> static const Tab& tab_(int i, Ints<I...>) {
        static const Tab t[] = {{&make_<I>, &make_const_<I>, &assign_<I>, &get_<I>, &getm_<I>, &geti_<I>, &getim_<I>, &set_<I>, &moveout_<I>, &moveouti_<I>, &cmove_<I>, &cmovei_<I>}...};
        return t[i];
    }
    static const Tab& at(int a) { return tab(N > 140 ? a / 8 * 2 + (a % 8 ? 1 : 0) : a, typename MkInts<kHeld>::T()); }

    static bool owning(int alt);
    template<typename F> static bool rejected(F f) {
        try { (void)f(); } catch (const std::exception&) { return true; }
        return false;
    }
    void check(int i, const char* after) {
        const E& e = *v[i];
        PCHECK(e.index() == m[i].alt, "after " << after << ": index " << (int)e.index() << ", expected " << m[i].alt);
        if (!m[i].moved) {
            int g = at(m[i].alt).get(e);
            PCHECK(g == m[i].val, "after " << after << ": value " << g << ", expected " << m[i].val);
            g = at(m[i].alt).geti(e);
            PCHECK(g == m[i].val, "after " << after << ": value by position " << g << ", expected " << m[i].val);
            PCHECK(at(m[i].alt).getm(*v[i]) == m[i].val && at(m[i].alt).getim(*v[i]) == m[i].val, "after " << after << ": value through mutable access");
        }
        if (!pending().empty()) fail(std::string("after ") + after + ": " + pending());
    }
    void wrong_access(int i, int j) {
        E& e = *v[i];
        const Tab& t = at(j);
        PCHECK(rejected([&] { return t.get(e); }) && rejected([&] { return t.getm(e); }), "access as alternative " << j << " while holding " << m[i].alt << " raised no error");
        PCHECK(rejected([&] { return t.geti(e); }) && rejected([&] { return t.getim(e); }), "access by position " << j << " while holding " << m[i].alt << " raised no error");
        PCHECK(rejected([&] { return t.moveout(e); }) && rejected([&] { return t.moveouti(e); }) && rejected([&] { return t.cmove(e); }) && rejected([&] { return t.cmovei(e); }), "move out as alternative " << j << " while holding " << m[i].alt << " raised no error");
        check(i, "rejected access");
    }
    void expect_call(const std::vector<Call>& log, int alt, int val, const char* what) {
        PCHECK(log.size() == 1, what << ": " << log.size() << " branches were called");
        PCHECK(log[0].alt == alt, what << ": the branch called was " << log[0].alt << ", expected " << alt << " (-1: wildcard)");
        if (alt >= 0) PCHECK(log[0].val == val, what << ": the branch saw " << log[0].val << ", expected " << val);
    }
    template<int... J> void match_all(int i, Ints<J...>) {
        std::vector<Call> log;
        int salt = 77;
        const E& e = *v[i];
        int r = e.match(Branch<A, J>{&log, salt}...);
        expect_call(log, m[i].alt, m[i].val, "match with every branch");
        PCHECK(r == (salt ^ (m[i].alt * 1000003 + m[i].val)), "match did not return the branch's result");
    }
    template<int mod, int rem, int... J> void match_some(int i, Ints<J...>) {
        std::vector<Call> log;
        int salt = 91;
        const E& e = *v[i];
        int r = e.match(Branch<A, J>{&log, salt}..., Wild{&log, salt});
        bool has = m[i].alt % mod == rem;
        expect_call(log, has ? m[i].alt : -1, m[i].val, "match with some branches and a wildcard");
        PCHECK(r == (salt ^ (has ? m[i].alt * 1000003 + m[i].val : 424242)), "match did not return the branch's result");
        s.label(has ? "branch" : "wildcard");
    }
    template<int... J> void match_void(int i, Ints<J...>) {
        std::vector<Call> log;
        const E& e = *v[i];
        e.match(VBranch<A, J>{&log}..., VWild{&log});
        bool has = m[i].alt % 2 == 0;
        expect_call(log, has ? m[i].alt : -1, m[i].val, "match without result");
    }
    template<int... J> void match_str(int i, Ints<J...>) {
        std::vector<Call> log;
        const E& e = *v[i];
        std::string r = e.match(SBranch<A, J>{&log}...);
        expect_call(log, m[i].alt, m[i].val, "match by value");
        PCHECK(r == El<std::string>::make(m[i].val), "match did not return the branch's result");
    }
    // small families get every kind of match, large ones two
    void match_more(int i, std::true_type) {
        switch (s.draw(4)) {
            case 0: match_all(i, Seq()); break;
            case 1: match_void(i, typename Sel<2, 0, Seq>::T()); break;
            case 2: match_str(i, Seq()); break;
            default: match_some<3, 0>(i, typename Sel<3, 0, Seq>::T());
        }
    }
    void match_more(int i, std::false_type) { match_big(i, std::integral_constant<bool, (N > 140)>()); }
    void match_big(int i, std::false_type) { match_all(i, Seq()); }
    void match_big(int i, std::true_type) { match_some<8, 7>(i, Ints<7, 15, 23, 31, 39, 47, 55, 63, 71, 79, 87, 95, 103, 111, 119, 127, 135, 143, 151, 159, 167, 175, 183, 191, 199, 207, 215, 223, 231, 239, 247, 255>()); }
    void match(int i) { match_(i, std::integral_constant<bool, (N > 140)>()); check(i, "match"); }
    void match_(int i, std::true_type) { PLOG(s, "match e" << i << " with branches for every eighth alternative and a wildcard"); match_big(i, std::true_type()); }
    void match_(int i, std::false_type) {
        if (s.flip()) { PLOG(s, "match e" << i << " with branches for odd alternatives and a wildcard"); match_some<2, 1>(i, typename Sel<2, 1, Seq>::T()); }
        else { PLOG(s, "match e" << i); match_more(i, std::integral_constant<bool, full>()); }
    }
    int some_alt() { return s.chance(1, 6) ? N - 1 : held((int)s.draw(kHeld)); }
    int some_val() { return s.range(-5, 5); }

    void step() {
        int i = s.draw(K), j = s.draw(K);
        switch (s.draw(13)) {
            case 0: case 1: {
                int a = some_alt(), x = some_val();
                PLOG(s, "e" << i << " = new Enum(alternative " << a << " = " << x << ")");
                delete v[i]; v[i] = nullptr;
                v[i] = s.flip() ? at(a).make(x) : at(a).make_const(x);
                m[i].alt = a; m[i].val = x; m[i].moved = false;
                check(i, "construction");
                break;
            }
            case 2: case 3: {
                int a = some_alt(), x = some_val();
                PLOG(s, "e" << i << " = alternative " << a << " = " << x);
                s.label(a == m[i].alt ? "assign same alternative" : "assign other alternative");
                at(a).assign(*v[i], x);
                m[i].alt = a; m[i].val = x; m[i].moved = false;
                check(i, "assignment of an alternative");
                s.nontrivial();
                break;
            }
            case 4: {
                if (m[j].moved || i == j) break;
                PLOG(s, "e" << i << " = new Enum(e" << j << ")");
                delete v[i]; v[i] = nullptr;
                v[i] = new E(const_cast<const E&>(*v[j]));
                m[i] = m[j];
                check(i, "copy construction"); check(j, "being copied");
                break;
            }
            case 5: {
                if (m[j].moved || i == j) break;
                PLOG(s, "e" << i << " = new Enum(move e" << j << ")");
                delete v[i]; v[i] = nullptr;
                v[i] = new E(efp::move(*v[j]));
                m[i] = m[j]; m[j].moved = true;
                check(i, "move construction"); check(j, "being moved from");
                break;
            }
            case 6: {
                if (m[j].moved) break;
                PLOG(s, "e" << i << " = e" << j);
                *v[i] = const_cast<const E&>(*v[j]);
                m[i] = m[j];
                check(i, "copy assignment"); check(j, "being copied");
                s.label(i == j ? "self assignment" : "copy assignment");
                s.nontrivial();
                break;
            }
            case 7: {
                if (m[j].moved) break;
                PLOG(s, "e" << i << " = move e" << j);
                *v[i] = efp::move(*v[j]);
                if (i != j) { m[i] = m[j]; m[j].moved = true; }
                else s.label("self move assignment");
                check(i, "move assignment"); check(j, "being moved from");
                s.nontrivial();
                break;
            }
            case 8: {
                int a = some_alt();
                if (a == m[i].alt) break;
                PLOG(s, "e" << i << " accessed as " << a << " (wrong)");
                wrong_access(i, a);
                break;
            }
            case 9: {
                if (m[i].moved || m[j].moved) break;
                PLOG(s, "compare e" << i << " and e" << j);
                const E &a = *v[i], &b = *v[j];
                bool eq = m[i].alt == m[j].alt && m[i].val == m[j].val;
                PCHECK((a == b) == eq && (a != b) == !eq, "equality of (" << m[i].alt << "," << m[i].val << ") and (" << m[j].alt << "," << m[j].val << ")");
                s.label(eq ? "equal" : "unequal");
                break;
            }
            case 10: {
                int x = some_val();
                PLOG(s, "e" << i << ".get() = " << x);
                at(m[i].alt).set(*v[i], x);
                m[i].val = x; m[i].moved = false;
                check(i, "writing through get");
                break;
            }
            case 11: {
                if (m[i].moved) break;
                PLOG(s, "move the value out of e" << i);
                const Tab& t = at(m[i].alt);
                int g = t.cmove(*v[i]);
                PCHECK(g == m[i].val && t.cmovei(*v[i]) == m[i].val, "const move out gave " << g << ", expected " << m[i].val);
                check(i, "const move out");
                g = s.flip() ? t.moveout(*v[i]) : t.moveouti(*v[i]);
                PCHECK(g == m[i].val, "move out gave " << g << ", expected " << m[i].val);
                m[i].moved = true;
                check(i, "move out");
                break;
            }
            default: if (!m[i].moved) match(i);
        }
    }
    static void go(Src& s) {
        PLOG(s, "Enum of " << N << " alternatives");
        s.label(N < 9 ? "2-8 alternatives" : N < 65 ? "9-64 alternatives" : "65-256 alternatives");
        Run* r = new Run(s);
        std::unique_ptr<Run> own(r);
        size_t steps = 1 + s.len(24);
        for (size_t k = 0; k < steps && !s.exhausted(); ++k) r->step();
        for (int i = 0; i < K; ++i) if (!r->m[i].moved) { r->match(i); }
    }
};

// alternatives that convert into one another: the branch for the exact type must run
struct FI { std::vector<int>* l; int k; int operator()(int x) const { l->push_back(0); return k + x; } };
struct FD { std::vector<int>* l; int k; int operator()(const double& x) const { l->push_back(1); return k + (int)x; } };
struct FC { std::vector<int>* l; int k; int operator()(char x) const { l->push_back(2); return k + x; } };
struct FB { std::vector<int>* l; int k; int operator()(const bool& x) const { l->push_back(3); return k + x; } };
struct FU { std::vector<int>* l; int k; int operator()(unsigned x) const { l->push_back(4); return k + (int)x; } };
struct FL { std::vector<int>* l; int k; int operator()(const long long& x) const { l->push_back(5); return k + (int)x; } };
struct FS { std::vector<int>* l; int k; int operator()(const std::string& x) const { l->push_back(6); return k + (int)x.size(); } };
struct FW { std::vector<int>* l; int k; int operator()() const { l->push_back(-1); return k - 1; } };
static void scalars(Src& s) {
    typedef efp::Enum<int, double, char, bool, unsigned, long long, std::string> E;
    int a = s.draw(7), x = (int)s.draw(2), k = (int)s.draw(1000);
    E e;
    switch (a) {
        case 0: e = x; break;
        case 1: e = (double)x; break;
        case 2: e = (char)x; break;
        case 3: e = (bool)x; break;
        case 4: e = (unsigned)x; break;
        case 5: e = (long long)x; break;
        default: e = std::string(x, 'q');
    }
    PCHECK(e.index() == a, "assigning a value of alternative " << a << " gave alternative " << (int)e.index());
    std::vector<int> l;
    int r = 0;
    FI fi = {&l, k}; FD fd = {&l, k}; FC fc = {&l, k}; FB fb = {&l, k}; FU fu = {&l, k}; FL fl = {&l, k}; FS fs = {&l, k}; FW fw = {&l, k};
    unsigned mask = 0, how = s.draw(11);
    PLOG(s, "scalar alternative " << a << ", branch set " << how);
    switch (how) {
        case 0: r = e.match(fi, fw); mask = 1; break;
        case 1: r = e.match(fd, fw); mask = 2; break;
        case 2: r = e.match(fc, fb, fw); mask = 4 | 8; break;
        case 3: r = e.match(fu, fi, fw); mask = 16 | 1; break;
        case 4: r = e.match(fs, fl, fw); mask = 64 | 32; break;
        case 5: r = e.match(fi, fd, fc, fb, fu, fl, fs); mask = 127; break;
        case 6: r = e.match(fs, fl, fu, fb, fc, fd, fi); mask = 127; break;
        case 7: r = e.match(fb, fd, fl, fw); mask = 8 | 2 | 32; break;
        case 8: r = e.match(fw); mask = 0; break;
        case 9: r = e.match([&](int v) noexcept { return fi(v); }, [&](const std::string& v) noexcept { return fs(v); }, [&]() noexcept { return fw(); }); mask = 64 | 1; break;
        default: r = e.match([&](double v) { return fd(v); }, [&](bool v) noexcept { return fb(v); }, [&]() noexcept { return fw(); }); mask = 8 | 2;
    }
    bool has = mask >> a & 1;
    PCHECK(l.size() == 1 && l[0] == (has ? a : -1), "alternative " << a << " ran branch " << (l.empty() ? -9 : l[0]) << " of " << l.size() << " calls (-1: wildcard)");
    PCHECK(r == (has ? k + x : k - 1), "match did not return the branch's result");
    s.label("convertible alternatives");
    s.nontrivial();
}

void pbt_case(Src& s) {
    // part of the sizes is compiled in each translation unit (see -DPART)
#if PART == 0
    switch (s.draw(12)) {
        case 0: Run<AltP, 2, true>::go(s); break;
        case 1: Run<AltO, 2, true>::go(s); break;
        case 2: Run<Alt3, 3, true>::go(s); break;
        case 3: Run<AltO, 4, true>::go(s); break;
        case 4: Run<Alt3, 5, true>::go(s); break;
        case 5: Run<Alt3, 8, true>::go(s); break;
        case 6: Run<Alt3, 9, true>::go(s); break;
        case 7: Run<AltP, 16, true>::go(s); break;
        case 8: Run<Alt3, 17, true>::go(s); break;
        case 9: Run<Alt3, 33, false>::go(s); break;
        default: scalars(s);
    }
#elif PART == 1
    Run<Alt3, 64, false>::go(s);
#elif PART == 2
    if (s.flip()) Run<Alt3, 65, false>::go(s); else Run<Alt3, 40, false>::go(s);
#elif PART == 3
    Run<Alt3, 128, false>::go(s);
#elif PART == 4
    Run<AltP, 129, false>::go(s);
#elif PART == 5
    Run<Alt3, 256, false>::go(s);
#endif
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src&) { PCHECK(live_tracked() == 0, live_tracked() << " alternatives still alive at the end"); }
