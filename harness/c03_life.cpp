// C03: element lifetimes.  Histories over every owning type (also nested in one another) with
// elements that check their own lifetime; no value model, only: constructed once, destroyed
// once, used alive, properly aligned, and nothing left at the end.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
#include "life.hpp"
using namespace pbt;

const char* const pbt_name = "c03_life";
const char* const pbt_rule = "";

template<typename C>
PBT_NOINLINE void history(Src& s) {
    PLOG(s, Ops<C>::name());
    Boxes<C> b(s);
    int n = 1 + (int)s.len(40), done = 0;
    for (int k = 0; k < n && !s.exhausted(); ++k, ++done) b.step();
    if (done >= 8) s.nontrivial();
    for (int i = 0; i < b.K; ++i) b.drop(i);
    b.pend("destroying everything");
    PCHECK(live_tracked() == 0, Ops<C>::name() << ": " << live_tracked() << " elements still alive after their owners are gone");
}

// sequence functions over element-owning sequences, results bound or dropped
typedef Tracked T;
struct Hof {
    Src& s;
    explicit Hof(Src& s_) : s(s_) {}
    void pend(const char* after) { if (!pending().empty()) fail(std::string("after ") + after + ": " + pending()); }
    template<typename K> void with(K& k, Model& m) {
        typedef typename K::Seq S;
        const S& x = k.get();
        size_t n = m.size();
        if (n > 1) s.nontrivial();
        int bound = (int)s.draw(8) - 2;
        switch (s.draw(17)) {
            case 0: { auto r = efp::map([](const T& e) { return T(e.get() / 2); }, x); touch_all(r); pend("map"); break; }
            case 1: { auto r = efp::filter([&](const T& e) { return e.get() > bound; }, x); touch_all(r); pend("filter"); break; }
            case 2: { T r = efp::foldl([](const T& a, const T& e) { return T(a.get() ^ e.get()); }, T(1), x); r.get(); pend("foldl"); break; }
            case 3: { T r = efp::foldr([](const T& e, const T& a) { return T(a.get() ^ e.get()); }, T(1), x); r.get(); pend("foldr"); break; }
            case 4: { auto r = efp::append(x, x); touch_all(r); pend("append"); break; }
            case 5: { auto r = efp::append(x, x, x); auto q = efp::append(r, x); touch_all(q); touch_all(r); pend("append of a result"); break; }
            case 6: { auto r = efp::map([](const T& a, const T& b) { Alt<1> r(a.get()); r.u[0] = b; return r; }, x, x); touch_all(r); pend("map of two"); break; }
            case 7: { auto r = efp::map_with_index([](size_t i, const T& e) { return T(e.get() / 2 + (int)i); }, x); touch_all(r); pend("map_with_index"); break; }
            case 8: { auto r = efp::cartesian_map([](const T& a, const T& b) { return T(a.get() ^ b.get()); }, x, x); touch_all(r); pend("cartesian_map"); break; }
            case 9: { auto r = efp::from_function(n, [&](size_t i) { return T(x[i]); }); touch_all(r); pend("from_function"); break; }
            case 10: { auto r = efp::from_function(efp::Size<5> {}, [&](size_t i) { return T((int)i); }); touch_all(r); pend("from_function of static length"); break; }
            case 11: {
                auto nested = efp::map([&](const T& e) { return efp::ArrVec<T, 3> {e, T(1)}; }, x);
                auto r = efp::concat(nested);
                touch_all(r);
                efp::ArrVec<T, 2> sep {T(9)};
                auto q = efp::intercalate(sep, nested);
                touch_all(q);
                pend("concat and intercalate");
                break;
            }
            case 12: {
                auto nested = efp::map([&](const T& e) { efp::Vector<T> v; for (int i = (unsigned)e.v % 4; i > 0; --i) v.push_back(e); return v; }, x);
                auto r = efp::concat(nested);
                touch_all(r);
                efp::Vector<T> sep {T(9), T(8)};
                auto q = efp::intercalate(sep, nested);
                touch_all(q);
                pend("concat and intercalate of vectors");
                break;
            }
            case 13: {
                auto a = efp::take((size_t)s.draw(n + 3), x); touch_all(a);
                auto b = efp::drop((size_t)s.draw(n + 3), x); touch_all(b);
                auto c = efp::slice((size_t)s.draw(n + 3), (size_t)s.draw(n + 3), x); touch_all(c);
                auto d = efp::take_while([&](const T& e) { return e.get() > bound; }, x); touch_all(d);
                auto e = efp::drop_while([&](const T& e) { return e.get() > bound; }, x); touch_all(e);
                efp::Vector<T> o(d.begin() == d.end() ? efp::Vector<T>() : efp::map([](const T& e) { return e; }, d).size() ? efp::append(efp::Vector<T>(), d) : efp::Vector<T>());
                touch_all(o);
                pend("slicing");
                break;
            }
            case 14: {
                efp::elem(T(1), x); efp::elem_index(T(1), x); auto a = efp::elem_indices(T(1), x); (void)a;
                efp::find([&](const T& e) { return e.get() > bound; }, x);
                auto b = efp::find_indices([&](const T& e) { return e.get() > bound; }, x); (void)b;
                pend("searching");
                break;
            }
            case 15: {
                efp::for_each([](const T& e) { e.get(); }, x);
                efp::for_each_with_index([](size_t, const T& e) { e.get(); }, x);
                efp::cartesian_for_each([](const T& a, const T& b) { a.get(); b.get(); }, x, x);
                pend("traversal");
                break;
            }
            default: {
                refused([&] { efp::head(x).get(); }); refused([&] { efp::last(x).get(); });
                refused([&] { auto t = efp::tail(x); touch_all(t); });
                refused([&] { auto t = efp::init(x); touch_all(t); });
                pend("head, last, tail or init");
            }
        }
        touch_all(x);
        pend("reading the argument again");
    }
};
typedef Kinds<KArray<T, 1>, KArray<T, 4>, KArrVec<T, 5>, KArrVec<T, 40>, KVector<T>, KVcb<T, 3>, KVcq<T, 4>, KVectorView<T>, KArrVecView<T, 4>> HofKinds;

PBT_NOINLINE void sorts(Src& s) {
    size_t n = s.chance(1, 30) ? s.big(600) : s.len(90);
    efp::Vector<T> v;
    for (size_t i = 0; i < n; ++i) v.push_back(T((int)s.draw(12)));
    if (n > 2) s.nontrivial();
    unsigned k = s.draw(8);
    PLOG(s, "sort " << k << " of " << n);
    auto lt = [](const T& a, const T& b) { return a.get() < b.get(); };
    switch (k) {
        case 0: efp::sort(v); break;
        case 1: efp::sort_by(v, lt); break;
        case 2: efp::quicksort(v); break;
        case 3: efp::heapsort(v); break;
        case 4: efp::timsort(v); break;
        case 5: efp::sort_unstable(v); break;
        case 6: if (n) efp::merge_sort_by(v, 0, n - 1, lt); break;
        default: efp::insertion_sort(v); break;
    }
    touch_all(v);
    if (!pending().empty()) fail("after sorting: " + pending());
}

template<typename Qu, bool kMaybe> struct Queue;
template<typename Qu> struct Queue<Qu, false> {
    static void take(Qu& q, size_t& left) { if (left) { T t = q.dequeue(); t.get(); --left; } }
};
template<typename Qu> struct Queue<Qu, true> {
    static void take(Qu& q, size_t& left) {
        efp::Maybe<T> t = q.dequeue();
        if (t) { t.value().get(); if (left) --left; }
        q.is_empty();
    }
};
template<typename Qu, bool kMaybe>
PBT_NOINLINE void queue(Src& s, size_t cap) {
    Qu q;
    size_t left = 0;
    int n = 1 + (int)s.len(30);
    for (int k = 0; k < n; ++k) {
        if (s.draw(5) < 3) { PLOG(s, "enqueue"); q.enqueue(T(s.ival())); if (left < cap) ++left; }
        else { PLOG(s, "dequeue"); Queue<Qu, kMaybe>::take(q, left); }
        if (!pending().empty()) fail("after a queue operation: " + pending());
    }
    if (n > 8) s.nontrivial();
}
PBT_NOINLINE void dbuf(Src& s) {
    efp::DoubleBuffer<T, 3> q;
    int n = 1 + (int)s.len(30);
    for (int k = 0; k < n; ++k) {
        switch (s.draw(5)) {
            case 0: case 1: { PLOG(s, "enqueue"); const T t(s.ival()); q.enqueue(t); break; }
            case 2: PLOG(s, "swap"); q.swap_buffer(); break;
            default: if (!q.empty()) { PLOG(s, "dequeue"); T t = q.dequeue(); t.get(); }
        }
        if (!pending().empty()) fail("after a double buffer operation: " + pending());
    }
    if (n > 8) s.nontrivial();
}

typedef efp::Vector<Tracked> VT;
typedef efp::ArrVec<Tracked, 3> AT;
typedef efp::Enum<Tracked, Alt<1>, Alt<3>> E3;
typedef void (*Run)(Src&);
static const Run kTypes[] = {
    history<efp::Vector<Tracked>>, history<efp::Vector<Heavy>>, history<efp::Vector<Only>>, history<efp::Vector<VT>>, history<efp::Vector<efp::Maybe<Tracked>>>, history<efp::Vector<E3>>,
    history<efp::ArrVec<Tracked, 1>>, history<efp::ArrVec<Tracked, 4>>, history<efp::ArrVec<Tracked, 40>>, history<efp::Array<Tracked, 35>>, history<efp::Vcb<Tracked, 35>>, history<efp::Vcq<Tracked, 35>>, history<efp::ArrVec<Wide, 3>>, history<efp::ArrVec<Heavy, 3>>, history<efp::ArrVec<Only, 3>>, history<efp::ArrVec<VT, 3>>, history<efp::ArrVec<efp::Maybe<Tracked>, 3>>,
    history<efp::Array<Tracked, 4>>, history<efp::Array<Wide, 2>>, history<efp::Array<VT, 2>>, history<efp::Array<AT, 2>>,
    history<efp::Vcb<Tracked, 1>>, history<efp::Vcb<Tracked, 3>>, history<efp::Vcb<Wide, 2>>, history<efp::Vcb<VT, 2>>, history<efp::Vcb<Heavy, 2>>,
    history<efp::Vcq<Tracked, 1>>, history<efp::Vcq<Tracked, 3>>, history<efp::Vcq<Wide, 2>>, history<efp::Vcq<VT, 3>>, history<efp::Vcq<Heavy, 3>>,
    history<efp::Maybe<Tracked>>, history<efp::Maybe<Wide>>, history<efp::Maybe<Heavy>>, history<efp::Maybe<Only>>, history<efp::Maybe<VT>>, history<efp::Maybe<AT>>,
    history<E3>, history<efp::Enum<int, Tracked, Wide, VT>>, history<efp::Enum<VT, AT, Heavy>>, history<efp::Enum<efp::Maybe<Tracked>, efp::Vcq<Tracked, 2>>>,
    history<efp::Tuple<Tracked, VT, Heavy>>, history<efp::Tuple<int, efp::Maybe<Tracked>, E3>>,
};
void pbt_case(Src& s) {
    switch (s.draw(8)) {
        case 0: { Hof h(s); Gen g(9, false, 90); any_kind<HofKinds>(s, h, g); break; }
        case 1:
            switch (s.draw(6)) {
                case 0: sorts(s); break;
                case 1: PLOG(s, "BlockingQ<3>"); queue<efp::BlockingQ<T, 3>, false>(s, 3); break;
                case 2: PLOG(s, "BlockingQ"); queue<efp::BlockingQ<T>, false>(s, 1000); break;
                case 3: PLOG(s, "NonBlockingQ<2>"); queue<efp::NonBlockingQ<T, 2>, true>(s, 2); break;
                case 4: PLOG(s, "NonBlockingQ"); queue<efp::NonBlockingQ<T>, true>(s, 1000); break;
                default: PLOG(s, "DoubleBuffer"); dbuf(s);
            }
            break;
        default: kTypes[s.draw(sizeof kTypes / sizeof *kTypes)](s);
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src& s) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
