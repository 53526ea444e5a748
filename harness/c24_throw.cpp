// C24: a user function that throws at any of its calls: the error passes to the caller, no
// further call is made, what was not to change has not changed, and nothing is lost or leaked.
#include "efp.hpp"
#include "efp/format.hpp"
#include "efp/c_utility.hpp"
#include "efp/sort.hpp"
#include "efp/numeric.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
#include <memory>
using namespace pbt;

const char* const pbt_name = "c24_throw";
const char* const pbt_rule = "";

struct Boom { size_t call; Tracked t; explicit Boom(size_t c) : call(c), t((int)c) {} };
struct BoomStd : std::runtime_error { size_t call; explicit BoomStd(size_t c) : std::runtime_error("boom"), call(c) {} };

// the record of calls of the user function under test, one of which throws
struct Calls {
    std::vector<Model> seen;
    bool armed;
    size_t at;
    unsigned kind;
    Calls() : armed(false), at(0), kind(0) {}
    void row(const Model& m) {
        { Hush h; seen.push_back(m); }
        if (armed && seen.size() - 1 == at) {
            switch (kind) {
                case 0: throw Boom(at);
                case 1: throw BoomStd(at);
                default: throw (long)at;
            }
        }
    }
    void operator()() { row(Model()); }
    void operator()(int a) { row(Model(1, a)); }
    void operator()(int a, int b) { Model m(1, a); m.push_back(b); row(m); }
    void operator()(int a, int b, int c) { Model m(1, a); m.push_back(b); m.push_back(c); row(m); }
};
static std::string show_calls(const std::vector<Model>& v) { std::string r; for (size_t i = 0; i < v.size() && i < 40; ++i) r += show(v[i]); return r; }

// run the operation once undisturbed, then with one call throwing
template<typename B> void probe(Src& s, const char* what, const B& body) {
    PLOG(s, what);
    Calls full;
    body(full);
    const size_t n = full.seen.size();
    if (n == 0) { s.label("function not called"); return; }
    Calls c;
    c.armed = true;
    switch (s.draw(4)) { case 0: c.at = 0; break; case 1: c.at = n - 1; break; default: c.at = s.draw(n); }
    c.kind = s.draw(3);
    PLOG(s, "  throws at call " << c.at << " of " << n << (c.kind == 0 ? ", a Boom" : c.kind == 1 ? ", a standard exception" : ", a number"));
    const size_t live = live_tracked();
    long got = -1;
    unsigned kind = 9;
    try { body(c); }
    catch (Fail&) { throw; }
    catch (Boom& b) { kind = 0; got = (long)b.call; }
    catch (BoomStd& b) { kind = 1; got = (long)b.call; }
    catch (long k) { kind = 2; got = k; }
    PCHECK(kind != 9, what << ": the function threw at call " << c.at << " and no error reached the caller");
    PCHECK(kind == c.kind && got == (long)c.at, what << ": another error than the one thrown reached the caller");
    PCHECK(c.seen.size() == c.at + 1, what << ": " << c.seen.size() << " calls though call " << c.at << " threw");
    for (size_t i = 0; i <= c.at; ++i) PCHECK(c.seen[i] == full.seen[i], what << ": calls were " << show_calls(c.seen) << ", without error " << show_calls(full.seen));
    PCHECK(live_tracked() == live, what << ": " << live_tracked() << " elements alive after the error, " << live << " before");
    s.label(c.at == 0 ? "first call throws" : c.at == n - 1 ? "last call throws" : "a call between throws");
    if (n >= 2) s.nontrivial();
}

template<typename E> int val(const E& e) { return El<E>::val(e); }
// for functions that take their argument by value and use it up
template<typename E> int used(E& e) { E b(std::move(e)); return El<E>::val(b); }

template<typename E, typename K, bool mut = K::kMut> struct Mut {
    static void run(Src& s, const Model& m) {
        const unsigned which = s.draw(3);
        probe(s, which == 0 ? "for_each_mut" : which == 1 ? "for_each_with_index_mut" : "cartesian_for_each_mut", [&](Calls& c) {
            K k(m);
            size_t n = 0;
            auto check = [&] {
                Model w = m;
                for (size_t i = 0; i < n; ++i) w[i] = val(El<E>::make(w[i] ^ 5));
                expect_same<E>(k.get(), w, "after a mutating traversal that was broken off");
            };
            auto f = [&](E& e) { c(val(e)); e = El<E>::make(val(e) ^ 5); ++n; };
            try {
                if (which == 0) efp::for_each_mut(f, k.get());
                else if (which == 1) efp::for_each_with_index_mut([&](size_t, E& e) { f(e); }, k.get());
                else efp::cartesian_for_each_mut(f, k.get());
            } catch (Fail&) { throw; } catch (...) { check(); throw; }
            check();
        });
    }
};
template<typename E, typename K> struct Mut<E, K, false> { static void run(Src&, const Model&) {} };

template<typename E>
struct One {
    Src& s;
    explicit One(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) {
        const typename K::Seq& x = k.get();
        const unsigned salt = s.draw(64);
        auto q = [salt](int a) { return (mix((unsigned)a + salt * 977u) & 1) != 0; };
        switch (s.draw(20)) {
            case 0: probe(s, "map", [&](Calls& c) { efp::map([&](const E& e) { c(val(e)); return val(e); }, x); }); break;
            case 1: probe(s, "map to elements", [&](Calls& c) { efp::map([&](const E& e) { c(val(e)); return Tracked(val(e)); }, x); }); break;
            case 2: probe(s, "map to strings", [&](Calls& c) { efp::map([&](const E& e) { c(val(e)); return El<std::string>::make(val(e)); }, x); }); break;
            case 3: probe(s, "map_with_index", [&](Calls& c) { efp::map_with_index([&](size_t i, const E& e) { c((int)i, val(e)); return Tracked(val(e)); }, x); }); break;
            case 4: probe(s, "filter", [&](Calls& c) { efp::filter([&](const E& e) { c(val(e)); return q(val(e)); }, x); }); break;
            case 5: probe(s, "foldl", [&](Calls& c) { efp::foldl([&](const Tracked& a, const E& e) { c(a.get(), val(e)); return Tracked(a.get() ^ val(e)); }, Tracked(1), x); }); break;
            case 6: probe(s, "foldr", [&](Calls& c) { efp::foldr([&](const E& e, const std::string& a) { c(val(e), (int)a.size()); return a + "a long enough piece of text"; }, std::string(), x); }); break;
            case 7: probe(s, "for_each", [&](Calls& c) { efp::for_each([&](const E& e) { c(val(e)); }, x); }); break;
            case 8: probe(s, "for_each_with_index", [&](Calls& c) { efp::for_each_with_index([&](size_t i, const E& e) { c((int)i, val(e)); }, x); }); break;
            case 9: probe(s, "take_while", [&](Calls& c) { efp::take_while([&](const E& e) { c(val(e)); return val(e) % 3 != 2; }, x); }); break;
            case 10: probe(s, "drop_while", [&](Calls& c) { efp::drop_while([&](const E& e) { c(val(e)); return val(e) % 3 != 2; }, x); }); break;
            case 11: probe(s, "find", [&](Calls& c) { efp::find([&](const E& e) { c(val(e)); return val(e) % 5 == 4; }, x); }); break;
            case 12: probe(s, "find_index", [&](Calls& c) { efp::find_index([&](const E& e) { c(val(e)); return val(e) % 5 == 4; }, x); }); break;
            case 13: probe(s, "find_indices", [&](Calls& c) { efp::find_indices([&](const E& e) { c(val(e)); return q(val(e)); }, x); }); break;
            case 14: probe(s, "map by value", [&](Calls& c) { efp::map([&](E e) { const int v = used(e); c(v); return Tracked(v); }, x); }); break;
            case 15: probe(s, "filter by value", [&](Calls& c) { efp::filter([&](E e) { const int v = used(e); c(v); return q(v); }, x); }); break;
            case 16: probe(s, "foldl by value", [&](Calls& c) { efp::foldl([&](Tracked a, E e) { const int v = used(e); c(a.get(), v); return a; }, Tracked(1), x); }); break;
            case 17: probe(s, "find_index by value", [&](Calls& c) { efp::find_index([&](E e) { const int v = used(e); c(v); return v % 5 == 4; }, x); }); break;
            default: Mut<E, K>::run(s, m);
        }
        expect_same<E>(x, m, "the argument afterwards");
    }
};
template<typename E>
struct Two {
    Src& s;
    explicit Two(Src& s_) : s(s_) {}
    template<typename K> struct Second {
        Src& s; const K& k; const Model& m;
        template<typename L> void with(L& l, const Model& n) {
            const typename L::Seq& y = l.get();
            const typename std::remove_reference<decltype(const_cast<K&>(k).get())>::type& x = const_cast<K&>(k).get();
            switch (s.draw(6)) {
                case 0: probe(s, "map of two", [&](Calls& c) { efp::map([&](const E& a, const E& b) { c(val(a), val(b)); return Tracked(val(a)); }, x, y); }); break;
                case 1: probe(s, "for_each of two", [&](Calls& c) { efp::for_each([&](const E& a, const E& b) { c(val(a), val(b)); }, x, y); }); break;
                case 2: probe(s, "cartesian_map", [&](Calls& c) { efp::cartesian_map([&](const E& a, const E& b) { c(val(a), val(b)); return El<std::string>::make(val(b)); }, x, y); }); break;
                case 3: probe(s, "cartesian_for_each", [&](Calls& c) { efp::cartesian_for_each([&](const E& a, const E& b) { c(val(a), val(b)); }, x, y); }); break;
                case 4: probe(s, "map_with_index of two", [&](Calls& c) { efp::map_with_index([&](size_t i, const E& a, const E& b) { c((int)i, val(a), val(b)); return Tracked(val(b)); }, x, y); }); break;
                default: probe(s, "for_each_with_index of two", [&](Calls& c) { efp::for_each_with_index([&](size_t i, const E& a, const E& b) { c((int)i, val(a), val(b)); }, x, y); });
            }
            expect_same<E>(x, m, "the first argument afterwards");
            expect_same<E>(y, n, "the second argument afterwards");
        }
    };
    template<typename K> void with(K& k, const Model& m) {
        Second<K> v = {s, k, m};
        any_kind<Kinds<KArray<E, 3>, KArrVec<E, 4>, KVector<E>, KVcq<E, 3>>>(s, v, Gen(6, false));
    }
};

static void indices(Src& s) {
    const size_t n = s.len(12), k = s.len(4);
    switch (s.draw(5)) {
        case 0: probe(s, "from_function", [&](Calls& c) { efp::from_function(n, [&](size_t i) { c((int)i); return Tracked((int)i); }); }); break;
        case 1: probe(s, "from_function of constant length", [&](Calls& c) { efp::from_function(efp::Size<5>{}, [&](size_t i) { c((int)i); return Tracked((int)i); }); }); break;
        case 2: probe(s, "for_index", [&](Calls& c) { efp::for_index([&](size_t i) { c((int)i); }, n); }); break;
        case 3: probe(s, "cartesian_for_index", [&](Calls& c) { efp::cartesian_for_index([&](size_t i, size_t j) { c((int)i, (int)j); }, n, k); }); break;
        default: probe(s, "from_function to strings", [&](Calls& c) { efp::from_function(n, [&](size_t i) { c((int)i); return El<std::string>::make((int)i * 2 + 2); }); });
    }
    s.label("index functions");
}

// comparators: the vector keeps its length, every element is alive, and it can be sorted again
template<typename E> struct Sorts {
    static void run(Src& s) {
        const size_t n = s.chance(1, 4) ? 30 + s.draw(120) : s.len(20);
        const unsigned which = s.draw(7), order = s.draw(3), shape = s.draw(3);
        Model m(n);
        for (size_t i = 0; i < n; ++i) m[i] = shape == 0 ? (int)s.draw(n + 1) : shape == 1 ? (int)i : (int)(n - i);
        static const char* const names[] = {"sort_by", "sort_unstable_by", "heapsort_by", "insertion_sort_by", "timsort_by", "quicksort_by", "merge_sort_by"};
        PLOG(s, n << " elements " << show(m));
        probe(s, names[which], [&](Calls& c) {
            efp::Vector<E> v;
            for (size_t i = 0; i < n; ++i) v.push_back(El<E>::make(m[i]));
            auto less = [&](const E& a, const E& b) {
                const int x = val(a), y = val(b);
                c(x, y);
                return order == 0 ? x < y : order == 1 ? y < x : x / 4 < y / 4;
            };
            try {
                switch (which) {
                    case 0: efp::sort_by(v, less); break;
                    case 1: efp::sort_unstable_by(v, less); break;
                    case 2: efp::heapsort_by(v, less); break;
                    case 3: efp::insertion_sort_by(v, less); break;
                    case 4: efp::timsort_by(v, less); break;
                    case 5: if (n) efp::quicksort_by(v, 0, n - 1, less); break;
                    default: if (n) efp::merge_sort_by(v, 0, n - 1, less);
                }
            } catch (Fail&) { throw; } catch (...) {
                PCHECK(v.size() == n && (size_t)(v.end() - v.begin()) == n, "the vector has " << v.size() << " elements after a sort of " << n << " was broken off");
                for (size_t i = 0; i < n; ++i) { val(v[i]); v[i] = El<E>::make(m[i]); }
                v.push_back(El<E>::make(-1));
                efp::sort(v);
                for (size_t i = 1; i <= n; ++i) PCHECK(!(v[i] < v[i - 1]), "the vector cannot be sorted after a sort was broken off");
                PCHECK(v.size() == n + 1, "size after sorting again");
                throw;
            }
        });
        s.label("sorts");
    }
};

static void sums(Src& s) {
    typedef efp::Enum<int, Tracked, std::string, efp::Vector<Tracked>> En;
    En e;
    const unsigned alt = s.draw(4);
    const int x = s.ival();
    efp::Vector<Tracked> vec;
    vec.push_back(Tracked(x)); vec.push_back(Tracked(3));
    switch (alt) { case 0: e = En(x); break; case 1: e = En(Tracked(x)); break; case 2: e = En(El<std::string>::make(x)); break; default: e = En(vec); }
    const En before(e);
    switch (s.draw(3)) {
        case 0: probe(s, "match", [&](Calls& c) {
            e.match([&](const int& i) { c(0, i); return Tracked(i); }, [&](const Tracked& t) { c(1, t.get()); return Tracked(t); },
                    [&](const std::string& t) { c(2, val(t)); return Tracked(1); }, [&](const efp::Vector<Tracked>& v) { c(3, v[0].get()); return v[1]; });
        }); break;
        case 1: probe(s, "match with a wildcard", [&](Calls& c) {
            e.match([&](const Tracked& t) { c(1, t.get()); return std::string("an element, that is to say"); }, [&]() { c(9); return std::string("something else, whatever it is"); });
        }); break;
        default: probe(s, "match without result", [&](Calls& c) {
            e.match([&](const int& i) { c(0, i); }, [&](const efp::Vector<Tracked>& v) { c(3, (int)v.size()); }, [&]() { c(9); });
        });
    }
    PCHECK(e.index() == alt && e == before, "the sum type changed though the branch only threw");
    s.nontrivial();
    s.label("match");
}

template<typename E> void optionals(Src& s) {
    typedef efp::Maybe<E> M;
    const int x = s.ival();
    const bool full = s.chance(5, 6);
    M a;
    if (full) a = M(El<E>::make(x));
    const M before(a);
    switch (s.draw(13)) {
        case 8: probe(s, "member fmap by value", [&](Calls& c) { a.fmap([&](E e) { const int v = used(e); c(v); return Tracked(v); }); }); break;
        case 9: probe(s, "fmap by value", [&](Calls& c) { efp::fmap([&](E e) { const int v = used(e); c(v); return Tracked(v); }, a); }); break;
        case 10: probe(s, "member bind by value", [&](Calls& c) { a.bind([&](E e) { const int v = used(e); c(v); return efp::Maybe<Tracked>(Tracked(v)); }); }); break;
        case 11: probe(s, "bind by value", [&](Calls& c) { efp::bind(a, [&](E e) { const int v = used(e); c(v); return efp::Maybe<Tracked>(Tracked(v)); }); }); break;
        case 12: probe(s, ">>= by value", [&](Calls& c) { (void)(a >>= [&](E e) { const int v = used(e); c(v); return efp::Maybe<Tracked>(efp::nothing); }); }); break;
        case 0: probe(s, "member fmap", [&](Calls& c) { a.fmap([&](const E& e) { c(val(e)); return Tracked(val(e)); }); }); break;
        case 1: probe(s, "fmap", [&](Calls& c) { efp::fmap([&](const E& e) { c(val(e)); return Tracked(val(e)); }, a); }); break;
        case 2: probe(s, "member bind", [&](Calls& c) { a.bind([&](const E& e) { c(val(e)); return efp::Maybe<std::string>(El<std::string>::make(val(e))); }); }); break;
        case 3: probe(s, "bind", [&](Calls& c) { efp::bind(a, [&](const E& e) { c(val(e)); return efp::Maybe<E>(e); }); }); break;
        case 4: probe(s, ">>=", [&](Calls& c) { (void)(a >>= [&](const E& e) { c(val(e)); return efp::Maybe<Tracked>(efp::nothing); }); }); break;
        case 5: probe(s, "member ap", [&](Calls& c) { auto f = [&](const E& e) { c(val(e)); return Tracked(val(e)); }; a.ap(efp::Maybe<decltype(f)>(f)); }); break;
        case 6: probe(s, "ap", [&](Calls& c) { auto f = [&](const E& e) { c(val(e)); return Tracked(val(e)); }; efp::ap(efp::Maybe<decltype(f)>(f), a); }); break;
        default: probe(s, "fmap twice", [&](Calls& c) { a.fmap([&](const E& e) { c(0, val(e)); return Tracked(val(e)); }).fmap([&](const Tracked& t) { c(1, t.get()); return t; }); s.nontrivial(); });
    }
    PCHECK(a.has_value() == full && (!full || val(a.value()) == val(before.value())), "the optional changed though the function only threw");
    s.label("optionals");
}

struct Adapted { Calls* c; int operator()(int a, const Tracked& b) const { (*c)(a, b.get()); return a; } };
static void callables(Src& s) {
    const int x = s.ival() / 4;
    switch (s.draw(4)) {
        case 0: probe(s, "compose", [&](Calls& c) {
            auto f = [&](const Tracked& t) { c(2, t.get()); return t.get(); };
            auto g = [&](const std::string& t) { c(1, (int)t.size()); return Tracked((int)t.size()); };
            auto h = [&](int a) { c(0, a); return El<std::string>::make(a); };
            const auto fg = efp::compose(f, g, h);
            fg(x);
        }); break;
        case 1: probe(s, "structured application", [&](Calls& c) {
            efp::Tuple<int, Tracked, std::string> t(x, Tracked(x), El<std::string>::make(x));
            try { t.match([&](int a, const Tracked& b, const std::string& d) { c(a, b.get(), val(d)); return Tracked(a); }); }
            catch (Fail&) { throw; }
            catch (...) { PCHECK(t.get<0>() == x && t.get<1>().get() == x && val(t.get<2>()) == x, "tuple changed"); throw; }
        }); s.nontrivial(); break;
        case 2: probe(s, "pointer made from a callable", [&](Calls& c) {
            Adapted f = {&c};
            auto p = efp::func_ptr(f);
            p(x, Tracked(1));
            p(x + 1, Tracked(2));
        }); break;
        default: probe(s, "compose of two", [&](Calls& c) {
            auto f = [&](const std::string& t) { c(1, val(t)); return t + t; };
            auto g = [&](int a) { c(0, a); return El<std::string>::make(a); };
            efp::compose(f, g)(x);
        });
    }
    s.label("callables");
}

// a user-defined formatter
struct Bomb { Calls* c; int id; };
template<> struct efp_fmt::formatter<Bomb> {
    template<typename P> constexpr auto parse(P& ctx) const -> efp_fmt::format_parse_context::iterator { return ctx.begin(); }
    template<typename F> auto format(const Bomb& b, F& ctx) const -> efp_fmt::format_context::iterator {
        (*b.c)(b.id);
        return efp_fmt::format_to(ctx.out(), "<{}>", b.id);
    }
};
static void formatting(Src& s) {
    const size_t n = s.chance(1, 6) ? s.draw(400) : s.len(8);
    switch (s.draw(4)) {
        case 0: probe(s, "format", [&](Calls& c) { Bomb a = {&c, 1}, b = {&c, 2}, d = {&c, 3}; efp::format("{} and {}, then {}", a, b, d); }); break;
        case 1: probe(s, "format of a vector", [&](Calls& c) {
            efp::Vector<Bomb> v;
            for (size_t i = 0; i < n; ++i) { Bomb b = {&c, (int)i}; v.push_back(b); }
            efp::format("{}{:>5}", v, 7);
        }); break;
        case 2: probe(s, "format of nested sequences", [&](Calls& c) {
            efp::Vector<efp::ArrVec<Bomb, 3>> v;
            for (size_t i = 0; i < n; ++i) { efp::ArrVec<Bomb, 3> w; Bomb b = {&c, (int)i}; w.push_back(b); w.push_back(b); v.push_back(w); }
            efp::format("{}", v);
        }); break;
        default: probe(s, "format to a buffer", [&](Calls& c) {
            char buf[64];
            memset(buf, '#', sizeof buf);
            Bomb a = {&c, 1}, b = {&c, 22};
            try { efp_fmt::format_to_n(buf, 16, "{}{}", a, b); }
            catch (Fail&) { throw; }
            catch (...) { for (size_t i = 16; i < sizeof buf; ++i) PCHECK(buf[i] == '#', "written past the bound"); throw; }
        });
    }
    s.label("user-defined formatter");
}

template<typename E> struct L { typedef Kinds<KArray<E, 1>, KArray<E, 5>, KArrVec<E, 6>, KVector<E>, KArrayView<E, 4>, KArrVecView<E, 6>, KVectorView<E>, KVcb<E, 3>, KVcq<E, 5>, KStdArray<E, 4>, KStdVector<E>> All; };

void pbt_case(Src& s) {
    switch (s.draw(14)) {
        case 0: case 1: { One<Tracked> v(s); any_kind<L<Tracked>::All>(s, v, Gen(10, false, 300)); break; }
        case 2: case 3: { One<int> v(s); any_kind<L<int>::All>(s, v, Gen(10, false, 2000)); break; }
        case 4: { One<std::string> v(s); any_kind<Kinds<KArray<std::string, 3>, KArrVec<std::string, 5>, KVector<std::string>, KVcb<std::string, 3>>>(s, v, Gen(8, false)); break; }
        case 5: { Two<Tracked> v(s); any_kind<Kinds<KArray<Tracked, 2>, KArrVec<Tracked, 4>, KVector<Tracked>, KVcb<Tracked, 2>>>(s, v, Gen(6, false)); break; }
        case 6: indices(s); break;
        case 7: Sorts<Tracked>::run(s); break;
        case 8: Sorts<std::string>::run(s); break;
        case 9: sums(s); break;
        case 10: optionals<Tracked>(s); break;
        case 11: optionals<std::string>(s); break;
        case 12: callables(s); break;
        default: formatting(s);
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src&) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
