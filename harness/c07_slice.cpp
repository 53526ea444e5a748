// C07: take, drop, slice, take_while, drop_while, tail, init, head, last on every sequence kind.
#include "user_seq.hpp"
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
using namespace pbt;

const char* const pbt_name = "c07_slice";
const char* const pbt_rule = "";

// a count or bound between 0 and far beyond the length n
static size_t bound(Src& s, size_t n) {
    switch (s.draw(6)) {
        case 0: case 1: return s.draw(n + 1);
        case 2: return n + s.draw(3);
        case 3: return n ? n - 1 : 0;
        case 4: { static const size_t t[] = {100, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0xfffffffffffffffeull};
                  return t[s.draw(sizeof t / sizeof *t)]; }
        default: return s.draw(2 * n + 2);
    }
}

// the view denotes elements [from, to) of the sequence at base
template<typename E, typename V>
void expect_view(V& v, const E* base, const Model& m, size_t from, size_t to, const char* what) {
    const V& c = v;
    size_t n = to - from;
    PCHECK((size_t)c.size() == n && (size_t)efp::length(c) == n, what << ": " << (size_t)c.size() << " elements, expected elements " << from << ".." << to << " of " << show(m));
    PCHECK(c.empty() == (n == 0), what << ": empty()");
    PCHECK((size_t)(c.end() - c.begin()) == n && (size_t)(v.end() - v.begin()) == n, what << ": iteration range");
    for (size_t i = 0; i < n; ++i) {
        PCHECK(&c[i] == base + from + i && &v[i] == base + from + i, what << ": element " << i << " is not element " << from + i << " of the source " << show(m));
        PCHECK(&efp::nth(i, c) == base + from + i && c.begin() + i == base + from + i && c.data() + i == base + from + i, what << ": element " << i << " through nth, begin or data");
        PCHECK(El<E>::val(c[i]) == m[from + i], what << ": value of element " << i);
    }
}
// whether elements reached through the sequence are const
template<typename V> constexpr bool reads_only() { return std::is_const<typename std::remove_reference<decltype(efp::nth(0, std::declval<V&>()))>::type>::value; }
// a view of a const sequence cannot change it
template<typename Seq, typename V> void expect_access(const V&, bool of_const, const char* what) {
    if (of_const) PCHECK(reads_only<V>(), what << ": elements of a const sequence can be changed");
}
template<typename F> bool throws(F f) {
    try { f(); } catch (pbt::Fail&) { throw; } catch (const std::exception&) { return true; }
    return false;
}

template<typename E, typename Seq, typename N>
void take_drop(Src& s, const Seq& x, Seq& y, const Model& m, N n, const char* how) {
    size_t k = (size_t)n, c = std::min(k, m.size());
    const E* base = efp::data(x);
    PLOG(s, "take and drop " << k << how);
    auto t = efp::take(n, x);
    expect_view<E>(t, base, m, 0, c, "take");
    auto d = efp::drop(n, x);
    expect_view<E>(d, base, m, c, m.size(), "drop");
    PCHECK(t.size() + d.size() == m.size(), "take and drop do not split the sequence");
    auto t2 = efp::take(n, y);
    expect_view<E>(t2, base, m, 0, c, "take of a mutable sequence");
    auto d2 = efp::drop(n, y);
    expect_view<E>(d2, base, m, c, m.size(), "drop of a mutable sequence");
    expect_access<Seq>(t, true, "take"); expect_access<Seq>(d, true, "drop");
    expect_access<Seq>(t2, false, "take of a mutable sequence"); expect_access<Seq>(d2, false, "drop of a mutable sequence");
    if (k > m.size()) s.label("count beyond the length");
}
template<typename E, typename Seq, typename S, typename T>
void slice_is(Src& s, const Seq& x, Seq& y, const Model& m, S st, T en, const char* how) {
    size_t e = std::min((size_t)en, m.size()), b = std::min((size_t)st, e);
    PLOG(s, "slice " << (size_t)st << " .. " << (size_t)en << how);
    auto v = efp::slice(st, en, x);
    // an empty slice may lie anywhere
    expect_view<E>(v, efp::data(x), m, b, e, "slice");
    auto w = efp::slice(st, en, y);
    expect_view<E>(w, efp::data(x), m, b, e, "slice of a mutable sequence");
    expect_access<Seq>(v, true, "slice"); expect_access<Seq>(w, false, "slice of a mutable sequence");
    s.label((size_t)en < (size_t)st ? "reversed bounds" : (size_t)en > m.size() ? "end beyond the length" : "bounds inside");
}
template<typename E, typename Seq, bool fix, size_t cap> struct Unsafe {
    static void run(Src& s, const Seq& x, Seq& y, const Model& m) {
        size_t n = s.draw(m.size() + 1), e = n + s.draw(m.size() - n + 1);
        PLOG(s, "unsafe forms at " << n << ", " << e);
        auto t = efp::take_unsafe(n, x);  expect_view<E>(t, efp::data(x), m, 0, n, "take_unsafe");
        auto d = efp::drop_unsafe(n, x);  expect_view<E>(d, efp::data(x), m, n, m.size(), "drop_unsafe");
        auto l = efp::slice_unsafe(n, e, x); expect_view<E>(l, efp::data(x), m, n, e, "slice_unsafe");
        auto t2 = efp::take_unsafe(n, y);  expect_view<E>(t2, efp::data(x), m, 0, n, "take_unsafe, mutable");
        auto d2 = efp::drop_unsafe(n, y);  expect_view<E>(d2, efp::data(x), m, n, m.size(), "drop_unsafe, mutable");
        auto l2 = efp::slice_unsafe(n, e, y); expect_view<E>(l2, efp::data(x), m, n, e, "slice_unsafe, mutable");
        expect_access<Seq>(t, true, "take_unsafe"); expect_access<Seq>(d, true, "drop_unsafe"); expect_access<Seq>(l, true, "slice_unsafe");
        expect_access<Seq>(t2, false, "take_unsafe, mutable"); expect_access<Seq>(d2, false, "drop_unsafe, mutable"); expect_access<Seq>(l2, false, "slice_unsafe, mutable");
        if (m.size() >= 2) {
            auto t3 = efp::take_unsafe(efp::Size<2>{}, x); expect_view<E>(t3, efp::data(x), m, 0, 2, "take_unsafe, static");
        }
    }
};

template<typename E>
struct One {
    Src& s;
    explicit One(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) {
        typedef typename K::Seq Seq;
        const Seq& x = k.get();
        Seq& y = k.get();
        const E* base = efp::data(x);
        size_t n = m.size();
        if (n >= 2) s.nontrivial();
        switch (s.draw(9)) {
            case 0: case 1: take_drop<E>(s, x, y, m, bound(s, n), ""); break;
            case 2: { int b = (int)(bound(s, n) & 0x7fffffff); take_drop<E>(s, x, y, m, b, " (int)"); break; }
            case 3:
                switch (s.draw(4)) {
                    case 0: take_drop<E>(s, x, y, m, efp::Size<0>{}, " (compile time)"); break;
                    case 1: take_drop<E>(s, x, y, m, efp::Size<1>{}, " (compile time)"); break;
                    case 2: take_drop<E>(s, x, y, m, efp::Size<3>{}, " (compile time)"); break;
                    default: take_drop<E>(s, x, y, m, efp::Size<40>{}, " (compile time)"); break;
                }
                break;
            case 4: case 5: { size_t a = bound(s, n), b = bound(s, n); slice_is<E>(s, x, y, m, a, b, ""); break; }
            case 6:
                switch (s.draw(6)) {
                    case 0: slice_is<E>(s, x, y, m, efp::Size<0>{}, efp::Size<2>{}, " (compile time)"); break;
                    case 1: slice_is<E>(s, x, y, m, efp::Size<1>{}, efp::Size<3>{}, " (compile time)"); break;
                    case 2: slice_is<E>(s, x, y, m, efp::Size<2>{}, efp::Size<50>{}, " (compile time)"); break;
                    case 3: slice_is<E>(s, x, y, m, efp::Size<3>{}, efp::Size<1>{}, " (compile time)"); break;
                    case 4: slice_is<E>(s, x, y, m, efp::Size<1>{}, bound(s, n), " (start at compile time)"); break;
                    default: slice_is<E>(s, x, y, m, bound(s, n), efp::Size<3>{}, " (end at compile time)"); break;
                }
                break;
            case 7: {
                int c = s.draw(5), mode = s.draw(4);
                auto p = [&](const E& e) { unsigned a = (unsigned)El<E>::val(e); return mode == 0 ? false : mode == 1 ? true : mode == 2 ? (int)(a & 3) < c : a % 5 != (unsigned)c; };
                size_t q = 0;
                while (q < n && p(El<E>::make(m[q]))) ++q;
                PLOG(s, "take_while / drop_while, boundary at " << q);
                auto t = efp::take_while(p, x);
                expect_view<E>(t, base, m, 0, q, "take_while");
                auto d = efp::drop_while(p, x);
                expect_view<E>(d, base, m, q, n, "drop_while");
                auto eat = [&](E e) { E b(std::move(e)); return p(b); };
                auto te = efp::take_while(eat, x);
                expect_view<E>(te, base, m, 0, q, "take_while by value");
                auto de = efp::drop_while(eat, x);
                expect_view<E>(de, base, m, q, n, "drop_while by value");
                expect_access<Seq>(t, true, "take_while"); expect_access<Seq>(d, true, "drop_while");
                s.label(q == 0 ? "while: none" : q == n ? "while: all" : "while: some");
                break;
            }
            default: {
                PLOG(s, "head, last, tail, init, is_null");
                PCHECK(efp::is_null(x) == (n == 0), "is_null");
                if (n == 0) {
                    s.label("ends of empty");
                    PCHECK(throws([&] { (void)efp::head(x); }), "head of an empty sequence raised no error");
                    PCHECK(throws([&] { (void)efp::last(x); }), "last of an empty sequence raised no error");
                    PCHECK(throws([&] { (void)efp::tail(x); }) && throws([&] { (void)efp::tail(y); }), "tail of an empty sequence raised no error");
                    PCHECK(throws([&] { (void)efp::init(x); }) && throws([&] { (void)efp::init(y); }), "init of an empty sequence raised no error");
                } else {
                    PCHECK(&efp::head(x) == base, "head is not the first element");
                    PCHECK(&efp::last(x) == base + n - 1, "last is not the last element");
                    auto t = efp::tail(x);  expect_view<E>(t, base, m, 1, n, "tail");
                    auto t2 = efp::tail(y); expect_view<E>(t2, base, m, 1, n, "tail of a mutable sequence");
                    auto i = efp::init(x);  expect_view<E>(i, base, m, 0, n - 1, "init");
                    auto i2 = efp::init(y); expect_view<E>(i2, base, m, 0, n - 1, "init of a mutable sequence");
                    expect_access<Seq>(t, true, "tail"); expect_access<Seq>(i, true, "init"); expect_access<Seq>(t2, false, "tail of a mutable sequence"); expect_access<Seq>(i2, false, "init of a mutable sequence");
                }
                Unsafe<E, Seq, K::kFix, K::kCap>::run(s, x, y, m);
            }
        }
        expect_same<E>(x, m, "the source after the call");
    }
};

// chains of slicing on views of views
template<typename V>
void chain(Src& s, V v, const int* base, const Model& m) {
    size_t from = 0, to = m.size();
    size_t steps = 1 + s.draw(8);
    for (size_t i = 0; i < steps && !s.exhausted(); ++i) {
        size_t n = to - from, a = bound(s, n);
        switch (s.draw(5)) {
            case 0: PLOG(s, "chain: take " << a); v = efp::take(a, v); to = from + std::min(a, n); break;
            case 1: PLOG(s, "chain: drop " << a); v = efp::drop(a, v); from += std::min(a, n); break;
            case 2: { size_t b = bound(s, n); PLOG(s, "chain: slice " << a << ".." << b); v = efp::slice(a, b, v);
                      size_t e = std::min(b, n), st = std::min(a, e); to = from + e; from = from + st; break; }
            case 3: { int c = s.draw(4); PLOG(s, "chain: take_while");
                      v = efp::take_while([&](int x) { return (x & 3) != c; }, v);
                      size_t q = from; while (q < to && (m[q] & 3) != c) ++q; to = q; break; }
            default: { int c = s.draw(4); PLOG(s, "chain: drop_while");
                      v = efp::drop_while([&](int x) { return (x & 3) == c; }, v);
                      while (from < to && (m[from] & 3) == c) ++from; }
        }
        expect_view<int>(v, base, m, from, to, "chained view");
        if (i >= 1 && to > from) s.nontrivial();
    }
}
static void chained(Src& s) {
    s.label("chained views");
    if (s.flip()) {
        Model m = Gen(20, true, 80000)(s, false, 0);
        KVector<int> k(m);
        PLOG(s, "Vector " << show(m));
        chain(s, efp::VectorView<const int>(k.get().data(), m.size()), k.get().data(), m);
    } else {
        Model m = Gen(20, true)(s, false, 8);
        KArrVec<int, 8> k(m);
        PLOG(s, "ArrVec " << show(m));
        chain(s, efp::ArrVecView<const int, 8>(k.get().data(), m.size()), k.get().data(), m);
    }
}
static void texts(Src& s) {
    std::string m;
    size_t n = s.chance(1, 24) ? s.big(700) : s.len(12);
    for (size_t i = 0; i < n; ++i) m += "ab \0z"[s.draw(5)];
    efp::String x(m.data(), m.size());
    const efp::String& cx = x;
    size_t a = bound(s, n), b = bound(s, n);
    PLOG(s, "String of " << n << " characters, take/drop " << a << ", slice .." << b);
    auto t = efp::take(a, cx); auto d = efp::drop(a, cx); auto l = efp::slice(a, b, cx);
    auto w = efp::take_while([](char c) { return c != ' '; }, cx); auto dw = efp::drop_while([](char c) { return c != ' '; }, cx);
    auto t2 = efp::take(a, m); auto d2 = efp::drop(a, m);
    size_t e = std::min(a, n), f = std::min(b, n), g = std::min(a, f), q = std::min(m.find(' '), n);
    auto is = [](const char* p, size_t k, const char* base, size_t from, size_t to) { return k == to - from && (k == 0 || p == base + from); };
    PCHECK(is(t.data(), t.size(), cx.data(), 0, e), "take of a String");
    PCHECK(is(d.data(), d.size(), cx.data(), e, n), "drop of a String");
    PCHECK(is(l.data(), l.size(), cx.data(), g, f), "slice of a String");
    PCHECK(is(w.data(), w.size(), cx.data(), 0, q), "take_while of a String");
    PCHECK(is(dw.data(), dw.size(), cx.data(), q, n), "drop_while of a String");
    PCHECK(is(t2.data(), t2.size(), m.data(), 0, e), "take of a std::string");
    PCHECK(is(d2.data(), d2.size(), m.data(), e, n), "drop of a std::string");
    s.label("strings");
}

typedef Kinds<KArray<int, 1>, KArray<int, 5>, KArrVec<int, 1>, KArrVec<int, 6>, KArray<int, 70>, KArrVec<int, 300>, KVector<int>, KArrayView<int, 4>, KArrVecView<int, 6, const int>, KVectorView<int>, KVcb<int, 4>, KVcq<int, 5>, KStdArray<int, 4>, KStdVector<int>, KUserDyn<int>, KUserBound<int, 6>, KUserFix<int, 4>> L1;
typedef Kinds<KArray<std::string, 3>, KArrVec<std::string, 5>, KVector<std::string>, KVcq<std::string, 3>> L1S;

void pbt_case(Src& s) {
    switch (s.draw(8)) {
        case 0: case 1: case 2: case 3: { One<int> v(s); any_kind<L1>(s, v, Gen(14, s.flip(), 80000)); break; }
        case 4: { One<std::string> v(s); any_kind<L1S>(s, v, Gen(8, s.flip(), 500)); break; }
        case 5: texts(s); break;
        default: chained(s);
    }
}
void pbt_reset() {}
void pbt_end(Src&) {}
