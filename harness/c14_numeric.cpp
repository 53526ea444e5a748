// C14: reductions over every numeric sequence kind, scalar helpers, compile-time folds.
#include "user_seq.hpp"
#include "efp.hpp"
#include "pbt.hpp"
#include "nums.hpp"
using namespace pbt;

const char* const pbt_name = "c14_numeric";
const char* const pbt_rule = "";

typedef __int128 I128;
// product, or a value that fits no element type
static I128 wmul(I128 a, I128 b) { I128 r; return __builtin_mul_overflow(a, b, &r) ? ((I128)1 << 126) : r; }
static long double wmul(long double a, long double b) { return a * b; }
template<typename T, bool fl = std::is_floating_point<T>::value> struct Num;
// exact integers
template<typename T> struct Num<T, false> {
    typedef I128 Wide;
    static bool fits(Wide w) { return w >= (Wide)std::numeric_limits<T>::min() && w <= (Wide)std::numeric_limits<T>::max(); }
    static T gen(Src& s) {
        const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
        switch (s.draw(7)) {
            case 0: case 1: return (T)s.draw(5);
            case 2: return std::numeric_limits<T>::is_signed ? (T)(0 - (int)s.draw(100)) : (T)s.draw(100);
            case 3: return (T)(hi - (T)s.draw(3));
            case 4: return (T)(lo + (T)s.draw(3));
            case 5: return (T)(std::numeric_limits<T>::is_signed ? s.range(-120, 120) : s.range(0, 200));
            default: return (T)s.bits64();
        }
    }
    static bool same(T a, Wide w, Wide) { return (Wide)a == w; }
};
// floating point: whole numbers of moderate size (exact), fractions, extremes, infinities
template<typename T> struct Num<T, true> {
    typedef long double Wide;
    static bool fits(Wide w) { return std::fabs(w) <= (Wide)std::numeric_limits<T>::max() * 0.999L; }
    static T gen(Src& s) {
        switch (s.draw(8)) {
            case 0: case 1: return (T)s.range(-50, 50);
            case 2: return (T)(-1.0 - s.draw(1000) / 16.0);
            case 3: return (T)(s.range(-100000, 100000) / 128.0);
            case 4: return (T)-std::numeric_limits<T>::min() * (T)(1 + s.draw(4));
            case 5: return std::numeric_limits<T>::max() * (s.flip() ? (T)1 : (T)-1) / (T)(1 + s.draw(8));
            case 6: return (T)(std::ldexp(1.0, s.range(-60, 60)) * (s.flip() ? 1 : -1));
            default: return (T)-0.0;
        }
    }
    static bool same(T a, Wide w, Wide scale) { return (Wide)a == w || std::fabs((Wide)a - w) <= scale * 8 * (Wide)std::numeric_limits<T>::epsilon(); }
};

template<typename T> struct Reduce {
    Src& s;
    explicit Reduce(Src& s_) : s(s_) {}
    template<typename S> void operator()(const S& x, const std::vector<T>& m) {
        typedef Num<T> N;
        typedef typename N::Wide W;
        if (!m.empty()) {
            T hi = m[0], lo = m[0];
            for (size_t i = 1; i < m.size(); ++i) { if (m[i] > hi) hi = m[i]; if (m[i] < lo) lo = m[i]; }
            T a = efp::max_elem(x), b = efp::min_elem(x);
            PCHECK(a == hi, "max_elem is " << +a << " for " << shown(m));
            PCHECK(b == lo, "min_elem is " << +b << " for " << shown(m));
            if (std::isfinite((long double)hi) && std::isfinite((long double)lo) && N::fits((W)hi - (W)lo)) {
                T d = efp::max_min(x);
                PCHECK(N::same(d, (W)hi - (W)lo, std::fabs((long double)hi) + std::fabs((long double)lo)), "max_min is " << +d << " for " << shown(m));
                s.label("spread");
            } else s.label("spread not representable");
            if (hi < 0) s.label("all negative");
            if (m.size() > 1) s.nontrivial();
        }
    }
};
// sums and products: every prefix is representable
template<typename T> struct SumProd {
    Src& s; bool prod;
    SumProd(Src& s_, bool p) : s(s_), prod(p) {}
    template<typename S> void operator()(const S& x, const std::vector<T>& m) {
        typedef Num<T> N;
        typedef typename N::Wide W;
        W acc = prod ? 1 : 0, scale = prod ? 1 : 0;
        for (size_t i = 0; i < m.size(); ++i) { if (prod) { acc *= (W)m[i]; } else { acc += (W)m[i]; scale += m[i] < 0 ? -(W)m[i] : (W)m[i]; } }
        if (prod) scale = (acc < 0 ? -acc : acc) * (W)(m.size() + 1);
        else scale *= (W)(m.size() + 1);
        T r = prod ? efp::product(x) : efp::sum(x);
        PCHECK(N::same(r, acc, scale), (prod ? "product" : "sum") << " is " << +r << ", expected " << (double)acc << " for " << shown(m));
        s.label(prod ? "product" : "sum");
        if (m.empty()) s.label("empty sum or product");
        if (m.size() > 1) s.nontrivial();
    }
};
template<typename T> static void sequences(Src& s) {
    typedef Num<T> N;
    typedef typename N::Wide W;
    unsigned what = s.draw(3);
    if (what == 0) {
        bool negative = s.chance(1, 3), infs = std::numeric_limits<T>::has_infinity && s.chance(1, 6);
        auto g = [&](size_t n) {
            std::vector<T> m(n);
            for (size_t i = 0; i < n; ++i) {
                m[i] = N::gen(s);
                if (negative && std::numeric_limits<T>::is_signed && m[i] >= 0) m[i] = m[i] == 0 ? (T)-1 : (T)-m[i];
                if (infs && s.flip()) m[i] = s.flip() ? std::numeric_limits<T>::infinity() : (T)-std::numeric_limits<T>::infinity();
            }
            return m;
        };
        Reduce<T> v(s);
        any_num_seq<T>(s, 1, 60, g, v);
    } else {
        bool prod = what == 2;
        auto g = [&](size_t n) {
            std::vector<T> m(n);
            W acc = prod ? 1 : 0;
            for (size_t i = 0; i < n; ++i) {
                T e = N::gen(s);
                // mostly factors that keep the product going
                if (prod && s.chance(3, 4)) e = (T)(1 + s.draw(3));
                W next = prod ? wmul(acc, (W)e) : acc + (W)e;
                bool ok = N::fits(next);
                // |a product| of two fitting values fits 128 bits for up to 64-bit elements
                if (prod && std::is_floating_point<T>::value && (std::fabs((long double)next) < std::numeric_limits<T>::min() * 1e10L && next != 0)) ok = false;
                if (prod && std::is_floating_point<T>::value && e == 0) ok = false;
                if (!ok) { e = prod ? (T)1 : (T)0; next = acc; }
                m[i] = e;
                acc = next;
            }
            return m;
        };
        SumProd<T> v(s, prod);
        any_num_seq<T>(s, 0, 60, g, v);
    }
}

template<typename T, size_t N> static void folds(Src& s) {
    typedef Num<T> M;
    typedef typename M::Wide W;
    T a[N];
    std::vector<T> m(N);
    for (size_t i = 0; i < N; ++i) a[i] = m[i] = M::gen(s);
    PLOG(s, "compile-time style folds over " << shown(m));
    T hi = a[0], lo = a[0];
    for (size_t i = 1; i < N; ++i) { if (a[i] > hi) hi = a[i]; if (a[i] < lo) lo = a[i]; }
    PCHECK(efp::_maximum(a) == hi, "_maximum is " << +efp::_maximum(a) << " for " << shown(m));
    PCHECK(efp::_minimum(a) == lo, "_minimum is " << +efp::_minimum(a) << " for " << shown(m));
    W sum = 0, prod = 1, ssc = 0;
    bool sok = true, pok = true;
    for (size_t i = 0; i < N; ++i) {
        sum += (W)a[i]; ssc += a[i] < 0 ? -(W)a[i] : (W)a[i]; sok = sok && M::fits(sum);
        if (pok) prod = wmul(prod, (W)a[i]);
        pok = pok && M::fits(prod);
        if (std::is_floating_point<T>::value && std::fabs((long double)prod) < std::numeric_limits<T>::min() * 1e10L) pok = false;
    }
    if (sok) { T r = efp::_sum(a); PCHECK(M::same(r, sum, ssc * (W)(N + 1)), "_sum is " << +r << " for " << shown(m)); s.label("fold sum"); }
    if (pok) { T r = efp::_product(a); PCHECK(M::same(r, prod, (prod < 0 ? -prod : prod) * (W)(N + 1)), "_product is " << +r << " for " << shown(m)); s.label("fold product"); }
    // order of the general fold
    unsigned c = s.draw(97);
    auto f = [=](unsigned acc, const T& e) -> unsigned { return acc * 31u + (unsigned)(long long)(std::fabs((long double)e) < 1e9 ? (long long)e : 7) + c; };
    unsigned want = 5;
    for (size_t i = 0; i < N; ++i) want = f(want, a[i]);
    PCHECK(efp::_foldl(f, 5u, a) == want, "_foldl order for " << shown(m));
    bool bs[N], all = true, any = false;
    for (size_t i = 0; i < N; ++i) { bs[i] = s.chance(i % 2 ? 3 : 1, 4); all = all && bs[i]; any = any || bs[i]; }
    PCHECK(efp::_all(bs) == all && efp::_any(bs) == any, "_all/_any of " << N << " flags");
    if (N > 1) s.nontrivial();
    s.label("folds");
}

template<typename T> static void arith(Src& s) {
    typedef Num<T> M;
    typedef typename M::Wide W;
    T a = M::gen(s), b = s.chance(1, 6) ? a : M::gen(s);
    PLOG(s, "scalars " << +a << ", " << +b);
    PCHECK(efp::op_eq(a, b) == (a == b) && efp::op_neq(a, b) == (a != b) && efp::op_gt(a, b) == (a > b) && efp::op_lt(a, b) == (a < b)
           && efp::op_geq(a, b) == (a >= b) && efp::op_leq(a, b) == (a <= b), "a comparison operator on " << +a << ", " << +b);
    PCHECK(efp::max(a, b) == (a > b ? a : b), "max(" << +a << ", " << +b << ") is " << +efp::max(a, b));
    PCHECK(efp::min(a, b) == (a < b ? a : b), "min(" << +a << ", " << +b << ") is " << +efp::min(a, b));
    struct Sc { static W of(W x) { return x < 0 ? -x : x; } };
    W wa = (W)a, wb = (W)b;
    if (M::fits(wa + wb)) PCHECK(M::same(efp::op_add(a, b), wa + wb, Sc::of(wa + wb)), "op_add(" << +a << ", " << +b << ")");
    if (M::fits(wa - wb)) PCHECK(M::same(efp::op_sub(a, b), wa - wb, Sc::of(wa - wb)), "op_sub(" << +a << ", " << +b << ")");
    W p = wmul(wa, wb);
    bool tiny = std::is_floating_point<T>::value && p != 0 && std::fabs((long double)p) < std::numeric_limits<T>::min();
    if (M::fits(p) && !tiny) PCHECK(M::same(efp::op_mul(a, b), p, Sc::of(p)), "op_mul(" << +a << ", " << +b << ")");
    if (b != 0 && M::fits(wa / wb)) {
        W q = wa / wb;
        if (!(std::is_floating_point<T>::value && q != 0 && std::fabs((long double)q) < std::numeric_limits<T>::min()))
            PCHECK(M::same(efp::op_div(a, b), q, Sc::of(q)), "op_div(" << +a << ", " << +b << ")");
    }
    if (std::numeric_limits<T>::is_signed && M::fits(-wa)) PCHECK(M::same(efp::op_neg(a), -wa, 0), "op_neg(" << +a << ")");
    W ab = wa < 0 ? -wa : wa;
    if (M::fits(ab)) PCHECK(M::same(efp::abs(a), ab, 0), "abs(" << +a << ") is " << +efp::abs(a));
    W sq = wmul(wa, wa);
    bool sqt = std::is_floating_point<T>::value && sq != 0 && std::fabs((long double)sq) < std::numeric_limits<T>::min();
    if (M::fits(sq) && !sqt) PCHECK(M::same(efp::square(a), sq, sq), "square(" << +a << ") is " << +efp::square(a));
    T lo = efp::min(a, b), hi = efp::max(a, b), x = s.chance(1, 6) ? lo : s.chance(1, 6) ? hi : M::gen(s);
    T c = efp::clamp(lo, hi, x), w = x < lo ? lo : x > hi ? hi : x;
    PCHECK(c == w, "clamp(" << +lo << ", " << +hi << ", " << +x << ") is " << +c);
    s.label(x < lo ? "clamp below" : x > hi ? "clamp above" : "clamp inside");
    s.nontrivial();
}
template<typename T> static void mods(Src& s) {
    T a = Num<T>::gen(s), b = Num<T>::gen(s);
    if (b == 0 || (std::numeric_limits<T>::is_signed && b == (T)-1)) b = 7;
    PLOG(s, "op_mod(" << +a << ", " << +b << ")");
    PCHECK((I128)efp::op_mod(a, b) == (I128)a % (I128)b, "op_mod(" << +a << ", " << +b << ") is " << +efp::op_mod(a, b));
    s.label("modulo");
    s.nontrivial();
}
static void mixed(Src& s) {
    int lo = s.range(-1000, 1000), hi = lo + (int)s.draw(1000);
    double x = s.range(-24000, 24000) / 8.0;
    PLOG(s, "mixed clamp " << lo << " " << hi << " " << x);
    double c = efp::clamp(lo, hi, x);
    PCHECK(c == (x < lo ? lo : x > hi ? hi : x), "clamp(int, int, double) is " << c);
    double dl = lo / 4.0, dh = hi / 4.0;
    int xi = s.range(-600, 600);
    double d = efp::clamp(dl, dh, xi);
    PCHECK(d == (xi < dl ? dl : xi > dh ? dh : xi), "clamp(double, double, int) is " << d);
    bool p = s.flip(), q = s.flip();
    PCHECK(efp::op_and(p, q) == (p && q) && efp::op_or(p, q) == (p || q) && efp::op_not(p) == !p, "logical operators on " << p << ", " << q);
    // hosted functions
    double a = Num<double>::gen(s);
    if (std::fabs(a) < 1e15) {
        PCHECK(efp::sin(a) == std::sin(a) && efp::cos(a) == std::cos(a) && efp::tan(a) == std::tan(a), "sin/cos/tan of " << a);
        PCHECK(efp::sqrt(std::fabs(a)) == std::sqrt(std::fabs(a)), "sqrt of " << std::fabs(a));
    }
    // equality up to one machine epsilon, same floating type
    double e = a + (double)s.range(-3, 3) * std::numeric_limits<double>::epsilon();
    if (std::fabs(a) < 1e300) PCHECK((bool)efp::is_approx(a, e) == (std::fabs(a - e) <= std::numeric_limits<double>::epsilon()), "is_approx(" << a << ", " << e << ")");
    // of different types, in the one that holds more of the value
    {
        float f = (float)(s.range(-4000, 4000) / 16.0);
        if (s.chance(1, 4)) f = 0.1f;
        const double deps = std::numeric_limits<double>::epsilon(), feps = std::numeric_limits<float>::epsilon();
        double off;
        switch (s.draw(5)) {
            case 0: off = 0; break;
            case 1: off = s.range(-2, 2) * deps; break;
            case 2: off = s.range(-64, 64) * deps * 1024; break;
            case 3: off = s.range(-64, 64) * (feps / 128); break;
            default: off = s.range(-3, 3) * feps;
        }
        double g = s.chance(1, 4) ? 0.1 : (double)f + off;
        bool near = std::fabs((double)f - g) <= deps;
        PCHECK((bool)efp::is_approx(f, g) == near, "is_approx(float " << f << ", double " << g << "), difference " << (double)f - g);
        PCHECK((bool)efp::is_approx(g, f) == near, "is_approx(double " << g << ", float " << f << "), difference " << (double)f - g);
        float h = (float)((double)f + s.range(-3, 3) * (double)feps);
        PCHECK((bool)efp::is_approx(f, h) == (std::fabs(f - h) <= std::numeric_limits<float>::epsilon()), "is_approx(float " << f << ", float " << h << ")");
        int n = s.range(-1000, 1000);
        double dn = n + s.range(-2, 2) * deps * (s.flip() ? 1 : 1e6);
        PCHECK((bool)efp::is_approx(dn, n) == (std::fabs(dn - n) <= deps), "is_approx(" << dn << ", int " << n << ")");
        if (f != g && near) s.label("near, of different types");
        if (f != g && !near && (float)g == f) s.label("told apart only in the wider type");
    }
    // complex conversions
    efp::Complex<double> z(a, dl);
    PCHECK((efp::complex_cast<false>(z) == a), "complex to real");
    PCHECK((efp::complex_cast<true>(a) == efp::Complex<double>(a, 0)), "real to complex");
    PCHECK((efp::complex_cast<true>(z) == z && efp::complex_cast<false>(a) == a), "identity conversions");
    s.label("mixed types and hosted functions");
    s.nontrivial();
}
// values that the compiler computes
namespace ct {
    template<int x0, int... xr> struct Check {
        static bool ok() {
            const int a[] = {x0, xr...};
            int hi = a[0], lo = a[0];
            for (size_t i = 1; i < (1 + sizeof...(xr)); ++i) { if (a[i] > hi) hi = a[i]; if (a[i] < lo) lo = a[i]; }
            long long s = 0, p = 1;
            bool all = true, any = false;
            for (size_t i = 0; i < (1 + sizeof...(xr)); ++i) { s += a[i]; p *= a[i]; all = all && a[i] > 0; any = any || a[i] > 0; }
            constexpr int cs = efp::_sum({x0, xr...}), cp = efp::_product({x0, xr...});
            constexpr bool call = efp::_all({(x0 > 0), (xr > 0)...}), cany = efp::_any({(x0 > 0), (xr > 0)...});
            return efp::Maximum<efp::CtConst<int, x0>, efp::CtConst<int, xr>...>::value == hi && efp::Mininum<efp::CtConst<int, x0>, efp::CtConst<int, xr>...>::value == lo && cs == s && cp == p
                && call == all && cany == any && efp::All<efp::Bool<(x0 > 0)>, efp::Bool<(xr > 0)>...>::value == all && efp::Any<efp::Bool<(x0 > 0)>, efp::Bool<(xr > 0)>...>::value == any;
        }
    };
}
static void consts(Src& s) {
    unsigned k = s.draw(8);
    bool ok = true;
    switch (k) {
        case 0: ok = ct::Check<1>::ok(); break;
        case 1: ok = ct::Check<-5>::ok(); break;
        case 2: ok = ct::Check<-5, -7>::ok(); break;
        case 3: ok = ct::Check<3, -7, 12>::ok(); break;
        case 4: ok = ct::Check<0, 0, 9, -1>::ok(); break;
        case 5: ok = ct::Check<2147483647>::ok(); break;
        case 6: ok = ct::Check<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>::ok(); break;
        default: ok = ct::Check<-2147483647 - 1, 1>::ok(); break;
    }
    PLOG(s, "compile-time values, set " << k);
    PCHECK(ok, "a compile-time fold, set " << k);
    using efp::operator+; using efp::operator-; using efp::operator*; using efp::operator/; using efp::operator==; using efp::operator!=;
    typedef efp::CtConst<int, 12> A; typedef efp::CtConst<int, 5> B;
    PCHECK((decltype(A() + B())::value == 17 && decltype(A() - B())::value == 7 && decltype(A() * B())::value == 60 && decltype(A() / B())::value == 2
            && !decltype(A() == B())::value && decltype(A() != B())::value), "constants arithmetic");
    s.label("compile-time values");
}

template<typename T> static void one(Src& s) {
    switch (s.draw(8)) {
        case 0: folds<T, 1>(s); break;
        case 1: folds<T, 2>(s); break;
        case 2: folds<T, 7>(s); break;
        case 3: arith<T>(s); break;
        default: sequences<T>(s);
    }
}
void pbt_case(Src& s) {
    switch (s.draw(17)) {
        case 14: one<signed char>(s); break;
        case 15: one<unsigned short>(s); break;
        case 16: one<long double>(s); break;
        case 0: case 1: one<int>(s); break;
        case 2: one<long long>(s); break;
        case 3: one<unsigned>(s); break;
        case 4: one<size_t>(s); break;
        case 5: one<short>(s); break;
        case 6: one<unsigned char>(s); break;
        case 7: case 8: one<double>(s); break;
        case 9: case 10: one<float>(s); break;
        case 11: mixed(s); break;
        case 12: switch (s.draw(4)) { case 0: mods<int>(s); break; case 1: mods<long long>(s); break; case 2: mods<size_t>(s); break; default: mods<unsigned char>(s); } break;
        default: consts(s);
    }
}
void pbt_reset() {}
void pbt_end(Src&) {}
