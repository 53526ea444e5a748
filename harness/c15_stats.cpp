// C15: every statistic against its textbook definition evaluated in long double, with an
// error bound derived from the rounding of the intermediate steps.
#include "user_seq.hpp"
#include "efp.hpp"
#include "pbt.hpp"
#include "nums.hpp"
using namespace pbt;

const char* const pbt_name = "c15_stats";
const char* const pbt_rule = "";
typedef long double L;

static std::string num(L x) { std::ostringstream o; o.precision(21); o << x; return o.str(); }

template<typename T> struct Data {
    std::vector<T> v;
    L n, mean, var, sd, mabs, maxabs, lo, hi;   // population moments
    L D(L eps) const { return (n + 4) * eps * maxabs; }   // bound on the error of one deviation
    void done() {
        n = (L)v.size();
        mean = mabs = maxabs = var = 0;
        lo = hi = v.empty() ? 0 : v[0];
        for (size_t i = 0; i < v.size(); ++i) { mean += v[i]; mabs += std::fabs((L)v[i]); maxabs = std::max(maxabs, std::fabs((L)v[i])); lo = std::min(lo, (L)v[i]); hi = std::max(hi, (L)v[i]); }
        mean /= n; mabs /= n;
        for (size_t i = 0; i < v.size(); ++i) var += ((L)v[i] - mean) * ((L)v[i] - mean);
        var /= n;
        sd = std::sqrt(var);
    }
};
template<typename T> static std::vector<T> gen(Src& s, size_t n) {
    std::vector<T> v(n);
    unsigned k = s.draw(7);
    L off = s.range(-1000, 1000), amp = 1 + s.draw(50), tr = s.range(-40, 40) / 8.0L;
    static const char* const names[] = {"small integers", "eighths", "offset and noise", "trend", "wave", "negative", "wide magnitudes"};
    s.label(names[k]);
    unsigned seed = s.draw(65536);
    for (size_t i = 0; i < n; ++i) {
        // long data sets take their noise from one choice, short ones from a choice each
        unsigned r = n > 40 ? (unsigned)(mix(seed * 65537ull + i) & 0xffff) : s.draw(65536);
        switch (k) {
            case 0: v[i] = (T)((int)(r % 7) - 3); break;
            case 1: v[i] = (T)(((int)(r % 2001) - 1000) / 8.0); break;
            case 2: v[i] = (T)(off + (L)(r % 1000) / 500); break;
            case 3: v[i] = (T)(off + tr * (L)i + (L)(r % 100) / 100); break;
            case 4: v[i] = (T)(amp * (L)((i % 17) < 8 ? 1 : -1) + (L)(r % 10)); break;
            case 5: v[i] = (T)(-1 - (int)(r % 500)); break;
            default: v[i] = (T)(std::ldexp((double)((int)(r % 513) - 256), (int)(r % 21) - 10)); break;
        }
    }
    return v;
}
#define NEAR(got, want, tol, what) do { L g__ = (got), w__ = (want), t__ = (tol); PCHECK(std::fabs(g__ - w__) <= t__, what << " is " << num(g__) << ", expected " << num(w__) << " within " << num(t__)); } while (0)

template<typename T, typename R> static L unit() { return std::max<L>((L)std::numeric_limits<T>::epsilon(), (L)std::numeric_limits<R>::epsilon()); }

template<typename R, typename T, typename S>
void single(Src& s, const S& x, const Data<T>& d) {
    const L e = unit<T, R>(), n = d.n, K = 6;
    const size_t len = d.v.size();
    const L D = d.D(e);
    NEAR(efp::mean<R>(x), d.mean, K * (n + 2) * e * d.mabs, "mean");
    L ms = d.var + d.mean * d.mean;
    NEAR(efp::rms<R>(x), std::sqrt(ms), K * (n + 4) * e * std::sqrt(ms), "rms");
    L vt = K * (2 * d.sd * D + D * D + (n + 4) * e * d.var);
    NEAR((efp::variance<R>(x)), d.var, vt, "variance");
    bool good = D < 1e-2L * d.sd;
    if (good) NEAR((efp::standard_deviation<R>(x)), d.sd, vt / d.sd + K * e * d.sd, "standard_deviation");
    if (len >= 2) {
        L c = n / (n - 1);
        NEAR((efp::variance<R, true>(x)), d.var * c, vt * c, "corrected variance");
        if (good) NEAR((efp::standard_deviation<R, true>(x)), d.sd * std::sqrt(c), vt * c / d.sd + K * e * d.sd * 2, "corrected standard_deviation");
    }
    // autocovariance at a random lag
    size_t lag = s.chance(1, 4) ? 0 : s.chance(1, 4) ? len - 1 : s.draw(len);
    PLOG(s, "lag " << lag);
    L ac = 0, wt = 0;
    for (size_t i = 0; i + lag < len; ++i) { L p = (L)d.v[i] - d.mean, q = (L)d.v[i + lag] - d.mean; ac += p * q; wt += std::fabs(p * q) * (n + 4) * e + (std::fabs(p) + std::fabs(q)) * D + D * D; }
    wt *= K;
    L m = n - (L)lag;
    NEAR((efp::autocovariance<R>(x, (int)lag)), ac / n, wt / n, "autocovariance");
    NEAR((efp::autocovariance<R, false, true>(x, (int)lag)), ac / m, wt / m, "adjusted autocovariance");
    if (len >= 2) NEAR((efp::autocovariance<R, true>(x, (int)lag)), ac / (n - 1), wt / (n - 1), "corrected autocovariance");
    if (m >= 2) NEAR((efp::autocovariance<R, true, true>(x, (int)lag)), ac / (m - 1), wt / (m - 1), "corrected adjusted autocovariance");
    if (good) {
        // quotient: relative error of both parts
        L rv = vt / d.var;
        if (rv < 0.05L) {
            NEAR((efp::autocorrelation<R>(x, (int)lag)), ac / n / d.var, 2 * (wt / n / d.var + std::fabs(ac / n / d.var) * (rv + 4 * e)), "autocorrelation");
            NEAR((efp::autocorrelation<R, false, true>(x, (int)lag)), ac / m / d.var, 2 * (wt / m / d.var + std::fabs(ac / m / d.var) * (rv + 4 * e)), "adjusted autocorrelation");
            if (len >= 2) { L cv = d.var * n / (n - 1); NEAR((efp::autocorrelation<R, true>(x, (int)lag)), ac / (n - 1) / cv, 2 * (wt / (n - 1) / cv + std::fabs(ac / (n - 1) / cv) * (rv + 4 * e)), "corrected autocorrelation"); }
            if (m >= 2) { L cv = d.var * n / (n - 1); NEAR((efp::autocorrelation<R, true, true>(x, (int)lag)), ac / (m - 1) / cv, 2 * (wt / (m - 1) / cv + std::fabs(ac / (m - 1) / cv) * (rv + 4 * e)), "corrected adjusted autocorrelation"); }
            s.label("correlation checked");
        }
    }
    // mean removal
    {
        auto r = efp::remove_dc<R>(x);
        PCHECK((size_t)efp::length(r) == len, "remove_dc gives " << (size_t)efp::length(r) << " elements for " << len);
        for (size_t i = 0; i < len; ++i) NEAR(efp::nth(i, r), (L)d.v[i] - d.mean, K * D, "remove_dc[" << i << "]");
        NEAR(efp::mean<R>(r), 0, K * 2 * D, "mean after mean removal");
    }
    if (len >= 2) {
        // regression on the index
        L mi = (n - 1) / 2, ss = 0, sii = 0, sa = 0;
        for (size_t i = 0; i < len; ++i) { ss += ((L)i - mi) * ((L)d.v[i] - d.mean); sii += ((L)i - mi) * ((L)i - mi); sa += std::fabs(((L)i - mi) * ((L)d.v[i] - d.mean)) * (n + 4) * e + std::fabs((L)i - mi) * D; }
        L b1 = ss / sii, b2 = d.mean - b1 * mi;
        L t1 = K * (sa / sii + 4 * e * std::fabs(b1)), t2 = t1 * mi + K * (D + 4 * e * (std::fabs(b1) * mi + d.mabs));
        efp::Tuple<R, R> t = efp::linear_regression_with_index<R>(x);
        NEAR(efp::get<0>(t), b1, t1, "slope of the regression on the index");
        NEAR(efp::get<1>(t), b2, t2, "intercept of the regression on the index");
        auto r = efp::detrend<R>(x);
        PCHECK((size_t)efp::length(r) == len, "detrend gives " << (size_t)efp::length(r) << " elements for " << len);
        for (size_t i = 0; i < len; ++i)
            NEAR(efp::nth(i, r), (L)d.v[i] - (b1 * (L)i + b2), t1 * (L)i + t2 + K * e * (d.maxabs + std::fabs(b1) * n + std::fabs(b2)), "detrend[" << i << "]");
    }
    if (len > 1290) s.label(len > 40000 ? "more than 40000 samples" : "more than 1290 samples");
    if (len >= 2 && d.var > 0) s.nontrivial();
}
template<typename R, typename T, typename S, typename S2>
void pair(Src& s, const S& x, const Data<T>& a, const S2& y, const Data<T>& b) {
    const L e = unit<T, R>(), n = a.n, K = 6;
    const size_t len = a.v.size();
    const L Da = a.D(e), Db = b.D(e);
    L sse = 0, ss = 0, sw = 0;
    for (size_t i = 0; i < len; ++i) {
        L d = (L)a.v[i] - (L)b.v[i];
        sse += d * d;
        L p = (L)a.v[i] - a.mean, q = (L)b.v[i] - b.mean;
        ss += p * q; sw += std::fabs(p * q) * (n + 4) * e + std::fabs(p) * Db + std::fabs(q) * Da + Da * Db;
    }
    sw *= K;
    const L rt = K * (n + 4) * e;
    NEAR((efp::sse<R>(x, y)), sse, rt * sse, "sse");
    NEAR((efp::mse<R>(x, y)), sse / n, rt * sse / n, "mse");
    L rm = std::sqrt(sse / n);
    NEAR((efp::rmse<R>(x, y)), rm, rt * rm, "rmse");
    L me = K * (n + 2) * e * b.mabs;   // error of the mean
    if (me < 0.01L * std::fabs(b.mean)) { L q = rm / b.mean; NEAR((efp::nrmse_mean<R>(x, y)), q, 2 * std::fabs(q) * (rt + me / std::fabs(b.mean) + 4 * e), "nrmse_mean"); }
    if (b.hi > b.lo) { L q = rm / (b.hi - b.lo); NEAR((efp::nrmse_max_min<R>(x, y)), q, 2 * q * (rt + 6 * e), "nrmse_max_min"); }
    NEAR((efp::covariance<R>(x, y)), ss / n, sw / n, "covariance");
    if (len >= 2) NEAR((efp::covariance<R, true>(x, y)), ss / (n - 1), sw / (n - 1), "corrected covariance");
    L vta = K * (2 * a.sd * Da + Da * Da + (n + 4) * e * a.var), vtb = K * (2 * b.sd * Db + Db * Db + (n + 4) * e * b.var);
    if (a.var > 0 && b.var > 0 && vta < 0.02L * a.var && vtb < 0.02L * b.var) {
        L c = ss / n / (a.sd * b.sd), t = 2 * (sw / n / (a.sd * b.sd) + std::fabs(c) * (vta / a.var + vtb / b.var + 6 * e));
        NEAR((efp::correlation<R>(x, y)), c, t, "correlation");
        if (len >= 2) NEAR((efp::correlation<R, true>(x, y)), c, 2 * t, "corrected correlation");
        s.label("correlation of two data sets");
    }
    if (len >= 2 && a.var > 0 && vta < 0.02L * a.var) {
        L b1 = ss / (n * a.var), b2 = b.mean - b1 * a.mean;
        L t1 = 2 * (sw / (n * a.var) + std::fabs(b1) * (vta / a.var + 4 * e)), t2 = t1 * std::fabs(a.mean) + K * (Db + std::fabs(b1) * Da + 4 * e * (std::fabs(b.mean) + std::fabs(b1 * a.mean)));
        efp::Tuple<R, R> t = efp::linear_regression<R>(x, y);
        NEAR(efp::get<0>(t), b1, t1, "regression slope");
        NEAR(efp::get<1>(t), b2, t2, "regression intercept");
        s.label("regression of two data sets");
    }
    // the covariance of data with itself is its variance
    NEAR((efp::covariance<R>(x, x)), (L)efp::variance<R>(x), 2 * vta, "covariance of data with itself");
    s.label("two data sets");
    if (len >= 2 && a.var > 0) s.nontrivial();
}
template<typename R, typename T, typename S>
void use(Src& s, const S& x, const Data<T>& a) {
    if (s.flip()) { single<R>(s, x, a); return; }
    Data<T> b;
    b.v = gen<T>(s, a.v.size());
    if (s.chance(1, 3)) for (size_t i = 0; i < b.v.size(); ++i) b.v[i] = (T)(a.v[i] * (T)3 + b.v[i]);
    b.done();
    PLOG(s, "second data set " << shown(b.v));
    std::vector<T> bk(b.v);
    if (s.flip()) { efp::Vector<T> y; for (size_t i = 0; i < b.v.size(); ++i) y.push_back(b.v[i]); pair<R>(s, x, a, y, b); }
    else pair<R>(s, x, a, efp::VectorView<T>(bk.data(), bk.size()), b);
}
template<typename T> static Data<T> data(Src& s, size_t n, const char* kind) {
    Data<T> a;
    a.v = gen<T>(s, n);
    a.done();
    PLOG(s, "data set in " << kind << " " << shown(a.v));
    s.label(kind);
    return a;
}
template<typename R, typename T> static void any(Src& s) {
    switch (s.draw(8)) {
        case 7: { Data<T> a = data<T>(s, 1 + s.len(40), "a user's sequence"); ext::Dyn<T> x(a.v.size()); for (size_t i = 0; i < a.v.size(); ++i) x.p[i] = a.v[i]; use<R>(s, x, a); break; }
        case 0: { Data<T> a = data<T>(s, 6, "Array"); efp::Array<T, 6> x; for (size_t i = 0; i < 6; ++i) x[i] = a.v[i]; use<R>(s, x, a); break; }
        case 1: { Data<T> a = data<T>(s, 6, "Vcb"); efp::Vcb<T, 6> x; size_t j = s.draw(9); for (size_t i = 0; i < j; ++i) x.push_back((T)i); for (size_t i = 0; i < 6; ++i) x.push_back(a.v[i]); use<R>(s, x, a); break; }
        case 2: { Data<T> a = data<T>(s, 1 + s.draw(9), "ArrVec"); efp::ArrVec<T, 9> x; for (size_t i = 0; i < a.v.size(); ++i) x.push_back(a.v[i]); use<R>(s, x, a); break; }
        case 3: {
            size_t n = 1 + s.len(40);
            Data<T> a = data<T>(s, n, "VectorView");
            efp::VectorView<const T> x(a.v.data(), n);
            use<R>(s, x, a); break;
        }
        default: {
            size_t n = s.chance(1, 40) ? (s.chance(1, 40) ? 40000 + s.draw(40000) : 1000 + s.draw(3000)) : 1 + s.len(60);
            Data<T> a = data<T>(s, n, "Vector");
            efp::Vector<T> x; for (size_t i = 0; i < n; ++i) x.push_back(a.v[i]);
            use<R>(s, x, a);
        }
    }
}
void pbt_case(Src& s) {
    switch (s.draw(4)) {
        case 0: any<float, float>(s); break;
        case 1: any<double, float>(s); break;
        default: any<double, double>(s);
    }
}
void pbt_reset() {}
void pbt_end(Src&) {}
