// C09: work on statically bounded arguments: compile-time bounds of the results, and no heap.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
#include "life.hpp"
using namespace pbt;

const char* const pbt_name = "c09_static";
const char* const pbt_rule = "";

// allocations made while a Watch is open
static int g_watch;
static size_t g_allocs;
static inline void seen() { if (g_watch && !hush()) ++g_allocs; }
#ifdef PBT_ASAN
static void on_malloc(const volatile void*, size_t) { seen(); }
static void on_free(const volatile void*) {}
static int g_hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#else
void* operator new(size_t n) { seen(); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { seen(); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { seen(); return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { seen(); return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
struct Watch {
    size_t a, r;
    Watch() : a(g_allocs), r(refusals()) { ++g_watch; }
    ~Watch() { if (g_watch) --g_watch; }
    // raising an error allocates the exception object: not counted
    void done(const char* what) {
        --g_watch;
        size_t n = g_allocs - a, e = refusals() - r;
        bool bad = n != 0 && e == 0;
        if (bad) { Hush h; fail(std::string(what) + " allocated heap memory (" + std::to_string(n) + " times)"); }
        ++g_watch;
    }
};

typedef Tracked T;
static const size_t DYN = efp::dyn;
template<typename R> struct Bound {
    static size_t size() { return efp::CtSize<R>::value; }
    static size_t cap() { return efp::CtCapacity<R>::value; }
};
// size != dyn: the documented compile-time size; else the documented capacity
template<typename R>
void expect_bound(const R& r, size_t size, size_t cap, const char* what) {
    Hush h;
    if (size != DYN) PCHECK(Bound<R>::size() == size, what << ": compile-time size " << Bound<R>::size() << ", documented " << size);
    else PCHECK(Bound<R>::size() == DYN, what << ": compile-time size " << Bound<R>::size() << " for a run-time length");
    PCHECK(Bound<R>::cap() == cap, what << ": compile-time capacity " << Bound<R>::cap() << ", documented " << cap);
    PCHECK((size_t)efp::length(r) <= cap, what << ": " << (size_t)efp::length(r) << " elements exceed the capacity " << cap);
    PCHECK(size == DYN || (size_t)efp::length(r) == size, what << ": length " << (size_t)efp::length(r) << " is not the compile-time size " << size);
}
// views: any static bound that is not above the source's
template<typename R>
void expect_view(const R& r, size_t cap, const char* what) {
    Hush h;
    PCHECK(Bound<R>::cap() != DYN && Bound<R>::cap() <= cap, what << ": compile-time capacity " << Bound<R>::cap() << " of a view of a sequence of capacity " << cap);
    PCHECK((size_t)efp::length(r) <= Bound<R>::cap(), what << ": " << (size_t)efp::length(r) << " elements exceed the bound " << Bound<R>::cap());
}
static size_t mul(size_t a, size_t b) { return a == DYN || b == DYN ? DYN : a * b; }
static size_t add(size_t a, size_t b) { return a == DYN || b == DYN ? DYN : a + b; }
static size_t least(size_t a, size_t b) { return a == DYN || b == DYN ? DYN : a < b ? a : b; }
template<typename K> size_t ksize() { return K::kFix ? (size_t)K::kCap : DYN; }
template<typename K> size_t kcap() { return K::kCap; }

template<size_t N, typename S, typename K> void static_views(const S& x, K& k) {
    S& y = k.get();
    { Watch w; auto r = efp::take(efp::Size<N> {}, y); touch_all(r); w.done("take of a static count"); expect_view(r, N < kcap<K>() ? N : kcap<K>(), "take of a static count"); }
    { Watch w; auto r = efp::drop(efp::Size<N> {}, y); touch_all(r); w.done("drop of a static count"); expect_view(r, N < kcap<K>() ? kcap<K>() - N : 0, "drop of a static count"); }
    { Watch w; auto r = efp::take(efp::Size<N> {}, x); touch_all(r); w.done("take of a static count"); expect_view(r, N < kcap<K>() ? N : kcap<K>(), "take of a static count"); }
    { Watch w; auto r = efp::drop(efp::Size<N> {}, x); touch_all(r); w.done("drop of a static count"); expect_view(r, N < kcap<K>() ? kcap<K>() - N : 0, "drop of a static count"); }
}
template<typename E> struct One {
    Src& s;
    explicit One(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, Model& m) {
        typedef typename K::Seq S;
        const S& x = k.get();
        const size_t ks = ksize<K>(), kc = kcap<K>(), n = m.size();
        if (n > 0) s.nontrivial();
        int bound = (int)s.draw(8) - 2;
        unsigned op = s.draw(12);
        PLOG(s, "operation " << op);
        switch (op) {
            case 0: { Watch w; auto r = efp::map([](const E& e) { return e; }, x); w.done("map"); expect_bound(r, ks, kc, "map"); break; }
            case 1: { Watch w; auto r = efp::filter([&](const E& e) { return El<E>::val(e) > bound; }, x); w.done("filter"); expect_bound(r, DYN, kc, "filter"); break; }
            case 2: {
                Watch w;
                long long a = efp::foldl([](long long t, const E& e) { return t + El<E>::val(e); }, 0LL, x);
                long long b = efp::foldr([](const E& e, long long t) { return t + El<E>::val(e); }, 0LL, x);
                w.done("folding");
                PCHECK(a == b, "folds");
                break;
            }
            case 3: { Watch w; auto r = efp::map_with_index([](size_t, const E& e) { return e; }, x); w.done("map_with_index"); expect_bound(r, ks, kc, "map_with_index"); break; }
            case 4: {
                int cnt = 0;
                Watch w;
                efp::for_each([&](const E&) { ++cnt; }, x);
                efp::for_each_with_index([&](size_t, const E&) { ++cnt; }, x);
                efp::cartesian_for_each([&](const E&, const E&) { ++cnt; }, x, x);
                w.done("traversal");
                PCHECK(cnt == (int)(2 * n + n * n), "traversals");
                break;
            }
            case 5: {
                E v = El<E>::make(n ? m[s.draw(n)] : 1);
                Watch w;
                bool a = efp::elem(v, x);
                auto b = efp::elem_index(v, x);
                auto r = efp::elem_indices(v, x);
                bool c = efp::find([&](const E& e) { return El<E>::val(e) > bound; }, x);
                auto d = efp::find_index([&](const E& e) { return El<E>::val(e) > bound; }, x);
                auto q = efp::find_indices([&](const E& e) { return El<E>::val(e) > bound; }, x);
                w.done("searching");
                PCHECK(a == (bool)b && c == (bool)d, "searches");
                expect_bound(r, DYN, kc, "elem_indices");
                expect_bound(q, DYN, kc, "find_indices");
                break;
            }
            case 6: {
                size_t a = s.draw(n + 3), b = s.draw(n + 3);
                Watch w;
                auto r0 = efp::take(a, x); touch_all(r0);
                auto r1 = efp::drop(a, x); touch_all(r1);
                auto r2 = efp::slice(a, b, x); touch_all(r2);
                auto r3 = efp::take_while([&](const E& e) { return El<E>::val(e) > bound; }, x); touch_all(r3);
                auto r4 = efp::drop_while([&](const E& e) { return El<E>::val(e) > bound; }, x); touch_all(r4);
                auto q0 = efp::take(a, k.get()); touch_all(q0);
                auto q1 = efp::drop(a, k.get()); touch_all(q1);
                auto q2 = efp::slice(a, b, k.get()); touch_all(q2);
                w.done("slicing");
                expect_view(r0, kc, "take"); expect_view(r1, kc, "drop"); expect_view(r2, kc, "slice"); expect_view(r3, kc, "take_while"); expect_view(r4, kc, "drop_while");
                expect_view(q0, kc, "take of a mutable sequence"); expect_view(q1, kc, "drop of a mutable sequence"); expect_view(q2, kc, "slice of a mutable sequence");
                break;
            }
            case 7: static_views<0>(x, k); static_views<1>(x, k); static_views<3>(x, k); static_views<9>(x, k); break;
            case 8: {
                if (n == 0) break;
                Watch w;
                efp::head(x); efp::last(x);
                auto t = efp::tail(x); touch_all(t);
                auto i = efp::init(x); touch_all(i);
                w.done("head, last, tail and init");
                expect_view(t, kc - 1, "tail"); expect_view(i, kc - 1, "init");
                auto t2 = efp::tail(k.get()); expect_view(t2, kc - 1, "tail of a mutable sequence");
                auto i2 = efp::init(k.get()); expect_view(i2, kc - 1, "init of a mutable sequence");
                auto d1 = efp::drop_unsafe(efp::Size<1> {}, x); expect_view(d1, kc - 1, "drop_unsafe of a static count");
                auto d2 = efp::drop_unsafe(efp::Size<1> {}, k.get()); expect_view(d2, kc - 1, "drop_unsafe of a static count");
                auto t3 = efp::take_unsafe(efp::Size<1> {}, x); expect_view(t3, 1, "take_unsafe of a static count");
                auto t4 = efp::take_unsafe(efp::Size<1> {}, k.get()); expect_view(t4, 1, "take_unsafe of a static count");
                break;
            }
            case 9: {
                Watch w;
                auto r = efp::from_function(efp::Size<K::kCap> {}, [&](size_t i) { return (int)i + bound; });
                w.done("from_function of a static length");
                expect_bound(r, kc, kc, "from_function of a static length");
                break;
            }
            case 10: {   // a sequence of sequences
                { Watch w; auto nested = efp::map([&](const E& e) { return efp::Array<E, 2> {e, e}; }, x); auto r = efp::concat(nested); efp::Array<E, 1> sep {El<E>::make(0)}; auto q = efp::intercalate(sep, nested); w.done("concat and intercalate of arrays");
                  expect_bound(r, mul(ks, 2), kc * 2, "concat of arrays"); expect_bound(q, ks == DYN ? DYN : ks * 3 - 1, kc * 3 - 1, "intercalate of arrays"); }
                { Watch w; auto nested = efp::map([&](const E& e) { efp::ArrVec<E, 3> v; for (int i = (unsigned)El<E>::val(e) % 4; i > 0; --i) v.push_back(e); return v; }, x); auto r = efp::concat(nested); efp::ArrVec<E, 2> sep {El<E>::make(0)}; auto q = efp::intercalate(sep, nested); w.done("concat and intercalate of bounded sequences");
                  expect_bound(r, DYN, kc * 3, "concat of bounded sequences"); expect_bound(q, DYN, kc * 5 - 2, "intercalate of bounded sequences"); }
                break;
            }
            default: {
                typedef efp::ArrVec<E, K::kCap> A;
                Watch w;
                A a;
                for (size_t i = 0; i < n; ++i) a.push_back(efp::nth(i, x));
                A b(a), c;
                c = b;
                b = efp::move(c);
                efp::Maybe<A> mb(b);
                efp::Maybe<A> mc = mb.fmap([](const A& q) { return q; });
                auto tp = efp::tuple(a, b, 1);
                bool eq = efp::get<0>(tp) == b && mc.value() == a;
                w.done("copying, wrapping and comparing");
                PCHECK(eq, "copies");
            }
        }
    }
};
template<typename E, typename K1> struct Two2 {
    Src& s; K1& k1; const Model& m1;
    Two2(Src& s_, K1& k, const Model& m) : s(s_), k1(k), m1(m) {}
    template<typename K> void with(K& k, Model& m) {
        const typename K1::Seq& x = k1.get();
        const typename K::Seq& y = k.get();
        size_t sx = ksize<K1>(), sy = ksize<K>(), cx = kcap<K1>(), cy = kcap<K>();
        if (m.size() != m1.size()) s.nontrivial();
        unsigned op = s.draw(5);
        PLOG(s, "operation " << op);
        switch (op) {
            case 0: { Watch w; auto r = efp::map([](const E& a, const E& b) { return (long long)El<E>::val(a) - El<E>::val(b); }, x, y); w.done("map of two"); expect_bound(r, least(sx, sy), least(cx, cy), "map of two"); break; }
            case 1: { Watch w; auto r = efp::append(x, y); w.done("append"); expect_bound(r, add(sx, sy), cx + cy, "append"); break; }
            case 2: { Watch w; auto r = efp::append(x, y, x); w.done("append of three"); expect_bound(r, add(add(sx, sy), sx), cx + cy + cx, "append of three"); break; }
            case 3: { Watch w; auto r = efp::cartesian_map([](const E& a, const E& b) { return (long long)El<E>::val(a) - El<E>::val(b); }, x, y); w.done("cartesian_map"); expect_bound(r, mul(sx, sy), cx * cy, "cartesian_map"); break; }
            default: { Watch w; auto r = efp::map_with_index([](size_t i, const E& a, const E& b) { return (long long)El<E>::val(a) - El<E>::val(b) + (long long)i; }, x, y); w.done("map_with_index of two"); expect_bound(r, least(sx, sy), least(cx, cy), "map_with_index of two"); }
        }
    }
};
template<typename E> using Ks = Kinds<KArray<E, 1>, KArray<E, 4>, KArrVec<E, 1>, KArrVec<E, 5>, KVcb<E, 3>, KVcq<E, 4>, KArrVecView<E, 4>, KArrayView<E, 3>, KStdArray<E, 2>>;
template<typename E> using Ks2 = Kinds<KArray<E, 4>, KArrVec<E, 5>, KVcb<E, 3>, KVcq<E, 2>, KArrVecView<E, 6>, KArrayView<E, 3>>;
template<typename E> using KsBig = Kinds<KArray<E, 70>, KArrVec<E, 40>, KVcb<E, 34>, KVcq<E, 33>, KArrVecView<E, 130>>;
template<typename E> struct Two1 {
    Src& s;
    explicit Two1(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, Model& m) {
        Two2<E, K> v(s, k, m);
        Gen g(9, false);
        any_kind<Ks2<E>>(s, v, g);
    }
};
template<typename E> struct Stat {
    Src& s;
    explicit Stat(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, Model& m) {
        const typename K::Seq& x = k.get();
        if (m.size() < 2) return;
        s.nontrivial();
        Watch w;
        efp::sum(x); efp::product(x); efp::max_elem(x); efp::min_elem(x); efp::mean<double>(x);
        w.done("numeric reductions");
        efp::rms<double>(x); efp::variance<double>(x); efp::standard_deviation<double>(x); efp::covariance<double>(x, x); efp::correlation<double>(x, x);
        auto r = efp::remove_dc<double>(x);
        auto d = efp::detrend<double>(x);
        w.done("statistics");
        expect_bound(r, ksize<K>(), kcap<K>(), "remove_dc");
        expect_bound(d, ksize<K>(), kcap<K>(), "detrend");
    }
};

template<typename C>
PBT_NOINLINE void history(Src& s) {
    PLOG(s, Ops<C>::name());
    Boxes<C> b(s);
    int n = 1 + (int)s.len(40), done = 0;
    for (int k = 0; k < n && !s.exhausted(); ++k, ++done) {
        Watch w;
        b.step();
        w.done("an operation on a statically bounded type");
    }
    if (done >= 8) s.nontrivial();
    for (int i = 0; i < b.K; ++i) b.drop(i);
}
template<typename Qu> struct Take { static void take(Qu& q, size_t& left) { if (left) { T t = q.dequeue(); t.get(); --left; } } };
template<typename A, size_t n> struct Take<efp::NonBlockingQ<A, n>> {
    static void take(efp::NonBlockingQ<A, n>& q, size_t& left) { efp::Maybe<T> t = q.dequeue(); if (t && left) --left; q.is_empty(); }
};
template<typename Qu>
PBT_NOINLINE void queue(Src& s, size_t cap) {
    Watch w;
    {
        Qu q;
        size_t left = 0;
        int n = 1 + (int)s.len(30);
        for (int k = 0; k < n; ++k) {
            if (s.draw(5) < 3) { PLOG(s, "enqueue"); q.enqueue(T(s.ival())); if (left < cap) ++left; }
            else { PLOG(s, "dequeue"); Take<Qu>::take(q, left); }
            w.done("an operation on a fixed-capacity queue");
        }
        if (n > 8) s.nontrivial();
    }
}
PBT_NOINLINE void dbuf(Src& s) {
    efp::DoubleBuffer<T, 3> q;
    int n = 1 + (int)s.len(30);
    Watch w;
    for (int k = 0; k < n; ++k) {
        switch (s.draw(5)) {
            case 0: case 1: { PLOG(s, "enqueue"); const T t(s.ival()); q.enqueue(t); break; }
            case 2: PLOG(s, "swap"); q.swap_buffer(); break;
            default: if (!q.empty()) { PLOG(s, "dequeue"); T t = q.dequeue(); t.get(); }
        }
        w.done("an operation on the double buffer");
    }
    if (n > 8) s.nontrivial();
}

typedef efp::ArrVec<Tracked, 3> AT;
typedef efp::Enum<Tracked, Alt<1>, Alt<3>> E3;
typedef void (*Run)(Src&);
static const Run kTypes[] = {
    history<efp::ArrVec<Tracked, 1>>, history<efp::ArrVec<Tracked, 4>>, history<efp::ArrVec<Wide, 3>>, history<efp::ArrVec<int, 40>>, history<efp::ArrVec<AT, 3>>, history<efp::ArrVec<efp::Maybe<Tracked>, 3>>,
    history<efp::Array<Tracked, 4>>, history<efp::Array<int, 64>>, history<efp::Array<AT, 2>>,
    history<efp::Vcb<Tracked, 3>>, history<efp::Vcb<int, 33>>, history<efp::Vcb<AT, 2>>,
    history<efp::Vcq<Tracked, 3>>, history<efp::Vcq<int, 33>>, history<efp::Vcq<AT, 3>>,
    history<efp::Maybe<Tracked>>, history<efp::Maybe<Wide>>, history<efp::Maybe<AT>>, history<efp::Maybe<efp::Array<int, 200>>>,
    history<E3>, history<efp::Enum<int, Tracked, Wide, AT>>, history<efp::Enum<efp::Maybe<Tracked>, efp::Vcq<Tracked, 2>, efp::Array<int, 200>>>,
    history<efp::Tuple<Tracked, AT, E3>>,
};
void pbt_case(Src& s) {
    Gen g(9, false);
    switch (s.draw(11)) {
        case 10:
            switch (s.draw(3)) {
                case 0: { One<int> v(s); any_kind<KsBig<int>>(s, v, g); break; }
                case 1: { Two1<int> v(s); any_kind<KsBig<int>>(s, v, g); break; }
                default: { Stat<double> v(s); any_kind<KsBig<double>>(s, v, g); }
            }
            s.label("capacity above 32");
            break;
        case 0: case 1: { One<int> v(s); any_kind<Ks<int>>(s, v, g); break; }
        case 2: { One<T> v(s); any_kind<Ks<T>>(s, v, g); break; }
        case 3: { Two1<int> v(s); any_kind<Ks2<int>>(s, v, g); break; }
        case 4: { Two1<T> v(s); any_kind<Ks2<T>>(s, v, g); break; }
        case 5: { Stat<double> v(s); any_kind<Ks2<double>>(s, v, g); break; }
        case 6:
            switch (s.draw(4)) {
                case 0: PLOG(s, "BlockingQ<3>"); queue<efp::BlockingQ<T, 3>>(s, 3); break;
                case 1: PLOG(s, "NonBlockingQ<2>"); queue<efp::NonBlockingQ<T, 2>>(s, 2); break;
                case 2: PLOG(s, "BlockingQ<40>"); queue<efp::BlockingQ<T, 40>>(s, 40); break;
                default: PLOG(s, "DoubleBuffer"); dbuf(s);
            }
            break;
        default: kTypes[s.draw(sizeof kTypes / sizeof *kTypes)](s);
    }
}
void pbt_reset() { reset_tracked(); g_watch = 0; refusals() = 0; }
void pbt_end(Src&) {}
