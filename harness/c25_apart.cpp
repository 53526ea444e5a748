// C25: reading shared objects from several threads, and using separate objects in any way, from
// several threads or from within a user function another call is running, does not interfere.
#include <atomic>
#include <thread>
#include <memory>
#include <string>
#include "efp.hpp"
#include "efp/format.hpp"
#include "efp/c_utility.hpp"
#include "efp/sort.hpp"
#include "efp/numeric.hpp"
#include "efp/scientific.hpp"
#include "efp/io.hpp"
#include "efp/concurrency.hpp"
#include "pbt.hpp"
#include <sys/stat.h>
using namespace pbt;

const char* const pbt_name = "c25_apart";
const char* const pbt_rule = "";

typedef std::string Str;
static std::string g_dir;
static pid_t g_owner;
static const unsigned kThreads = 4, kPaths = 8;
static std::string path_of(unsigned t, unsigned i) { return g_dir + "/t" + std::to_string(t) + "-" + std::to_string(i); }
static void bye() {
    if (getpid() != g_owner) return;
    for (unsigned t = 0; t <= kThreads; ++t) for (unsigned i = 0; i < kPaths; ++i) unlink(path_of(t, i).c_str());
    rmdir(g_dir.c_str());
}
static void scratch() {
    if (!g_dir.empty()) return;
    const char* b = getenv("PBT_SCRATCH");
    std::string t = std::string(b ? b : "/tmp") + "/c25.XXXXXX";
    std::vector<char> v(t.begin(), t.end());
    v.push_back(0);
    if (!mkdtemp(v.data())) { perror("mkdtemp"); exit(3); }
    g_dir = v.data();
    g_owner = getpid();
    atexit(bye);
}

struct Rng {
    uint64_t z;
    explicit Rng(uint64_t s) : z(mix(s)) {}
    unsigned operator()(unsigned n) { z = z * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((z >> 33) % n); }
};
struct Dig {
    uint64_t h;
    Dig() : h(1) {}
    Dig& add(uint64_t x) { h = mix(h ^ x) + 0x51ed27; return *this; }
    Dig& add(const char* p, size_t n) { add((uint64_t)n); for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 0x100000001b3ull; return *this; }
};
static void put(Dig& d, int x) { d.add((uint64_t)(int64_t)x); }
static void put(Dig& d, size_t x) { d.add((uint64_t)x); }
static void put(Dig& d, bool x) { d.add((uint64_t)x + 3); }
static void put(Dig& d, double x) { uint64_t u; memcpy(&u, &x, 8); d.add(u); }
static void put(Dig& d, const Str& s) { d.add(s.data(), s.size()); }
static void put(Dig& d, const efp::String& s) { d.add(s.data(), s.size()); }
static void put(Dig& d, char c) { d.add((uint64_t)(unsigned char)c); }
template<typename E, size_t N> void put(Dig& d, const efp::ArrVec<E, N>& s);
template<typename S> void put_seq(Dig& d, const S& s) { const size_t n = (size_t)efp::length(s); d.add(n); for (size_t i = 0; i < n; ++i) put(d, efp::nth(i, s)); }
template<typename E, size_t N> void put(Dig& d, const efp::ArrVec<E, N>& s) { put_seq(d, s); }
template<typename A> void put_maybe(Dig& d, const efp::Maybe<A>& m) { put(d, m.has_value()); if (m) put(d, m.value()); }

static Str text(int x) { return std::to_string(x) + "-is-text-too-long-to-be-held-inside"; }

typedef efp::Enum<int, Str, efp::Vector<int>> En;
typedef efp::Tuple<int, Str, efp::Vector<int>> Tp;
// what all threads read
struct World {
    efp::Vector<int> vi;
    efp::Vector<Str> vs;
    efp::ArrVec<int, 8> av;
    efp::ArrVec<Str, 4> avs;
    efp::Array<int, 4> ai;
    efp::Array<Str, 3> as;
    efp::Vcb<int, 4> cb;
    efp::Vcq<int, 5> cq;
    efp::Vector<double> vd;
    efp::Vector<efp::ArrVec<int, 3>> nested;
    efp::String str, str2;
    efp::Maybe<Str> mb;
    En en;
    Tp tp;
    efp::VectorView<const int> vw;
    World(Rng& r) : tp((int)r(100), text((int)r(100)), efp::Vector<int> {1, 2, 3}) {
        for (unsigned n = 1 + r(9); n; --n) vi.push_back((int)r(20));
        for (unsigned n = r(4); n; --n) vs.push_back(text((int)r(20)));
        for (unsigned n = r(9); n; --n) av.push_back((int)r(20));
        for (unsigned n = r(5); n; --n) avs.push_back(text((int)r(20)));
        for (unsigned i = 0; i < 4; ++i) ai[i] = (int)r(20);
        for (unsigned i = 0; i < 3; ++i) as[i] = text((int)r(20));
        for (unsigned n = r(9); n; --n) cb.push_back((int)r(20));
        for (unsigned n = r(9); n; --n) cq.push_back((int)r(20));
        for (unsigned n = 2 + r(9); n; --n) vd.push_back((double)r(1000) / 8 - 30);
        for (unsigned n = 1 + r(4); n; --n) { efp::ArrVec<int, 3> x; for (unsigned k = r(4); k; --k) x.push_back((int)r(9)); nested.push_back(x); }
        for (unsigned n = r(40); n; --n) { str.push_back((char)('a' + r(3))); str2.push_back((char)('a' + r(3))); }
        if (r(3)) mb = efp::Maybe<Str>(text((int)r(9)));
        switch (r(3)) { case 0: en = En((int)r(9)); break; case 1: en = En(text((int)r(9))); break; default: en = En(efp::Vector<int> {4, 5, (int)r(9)}); }
        vw = efp::VectorView<const int>(vi.data(), vi.size());
    }
};

static uint64_t run_op(unsigned op, uint64_t seed, const World& w, unsigned thread);
// in the case on nested use: which operation to run at which call of a user function
struct Nest {
    long countdown;
    unsigned op;
    uint64_t seed, want;
    const World* w;
    Nest* next;
    bool ran, wrong;
};
static thread_local Nest* t_nest;
static thread_local unsigned t_path;
static thread_local long t_ticks;
static void tick() {
    ++t_ticks;
    Nest* n = t_nest;
    if (!n || n->countdown-- != 0) return;
    t_nest = n->next;
    n->ran = true;
    if (run_op(n->op, n->seed, *n->w, kThreads) != n->want) n->wrong = true;
    t_nest = n;
}

template<typename S, typename E> void reads(Dig& d, Rng& r, const S& x, const E& e) {
    auto pick = [&](const E& a) { tick(); Dig k; put(k, a); return k.h % 3 != 0; };
    switch (r(14)) {
        case 0: put_seq(d, efp::map([&](const E& a) { tick(); Dig k; put(k, a); return text((int)(k.h % 1000)); }, x)); break;
        case 1: put_seq(d, efp::map_with_index([&](size_t i, const E& a) { tick(); Dig k; put(k, a); return (int)(k.h % 1000 + i); }, x)); break;
        case 2: put_seq(d, efp::filter(pick, x)); break;
        case 3: put(d, efp::foldl([&](const Str& acc, const E& a) { tick(); Dig k; put(k, a); return acc + std::to_string(k.h % 97); }, Str("<"), x)); break;
        case 4: put(d, efp::foldr([&](const E& a, int acc) { tick(); Dig k; put(k, a); return (int)((k.h + (unsigned)acc * 31u) % 100003); }, 7, x)); break;
        case 5: efp::for_each([&](const E& a) { tick(); put(d, a); }, x); break;
        case 6: efp::for_each_with_index([&](size_t i, const E& a) { tick(); d.add(i); put(d, a); }, x); break;
        case 7: put(d, efp::elem(e, x)); put_maybe(d, efp::elem_index(e, x)); put_seq(d, efp::elem_indices(e, x)); break;
        case 8: put(d, efp::find(pick, x)); put_maybe(d, efp::find_index(pick, x)); put_seq(d, efp::find_indices(pick, x)); break;
        case 9: put_seq(d, efp::append(x, x)); break;
        case 10: put_seq(d, efp::cartesian_map([&](const E& a, const int& b) { tick(); Dig k; put(k, a); return (int)(k.h % 50) * 7 + b; }, x, efp::Array<int, 2> {3, 4})); break;
        case 11: efp::cartesian_for_each([&](const E& a, const E& b) { tick(); put(d, a); put(d, b); }, x, x); break;
        case 12: { S c(x); put_seq(d, c); d.add((size_t)c.size()); break; }
        default: d.add((size_t)efp::length(x)); put(d, efp::is_null(x)); for (auto p = x.begin(); p != x.end(); ++p) put(d, *p);
    }
}
template<typename S> void cuts(Dig& d, Rng& r, const S& x) {
    auto low = [&](const int& a) { tick(); return a < 12; };
    switch (r(6)) {
        case 0: put_seq(d, efp::take(r(12), x)); break;
        case 1: put_seq(d, efp::drop(r(12), x)); break;
        case 2: put_seq(d, efp::slice(r(6), r(12), x)); break;
        case 3: put_seq(d, efp::take_while(low, x)); break;
        case 4: put_seq(d, efp::drop_while(low, x)); break;
        default: if ((size_t)efp::length(x)) { put_seq(d, efp::tail(x)); put_seq(d, efp::init(x)); put(d, efp::head(x)); put(d, efp::last(x)); }
    }
}
template<typename E, typename M> void sorts(Dig& d, Rng& r, const M& make) {
    efp::Vector<E> v;
    const unsigned n = r(4) ? 1 + r(20) : 1 + r(120);
    for (unsigned i = 0; i < n; ++i) v.push_back(make((int)r(n)));
    auto less = [&](const E& a, const E& b) { tick(); return a < b; };
    switch (r(7)) {
        case 0: efp::sort_by(v, less); break;
        case 1: efp::sort_unstable_by(v, less); break;
        case 2: efp::heapsort_by(v, less); break;
        case 3: efp::insertion_sort_by(v, less); break;
        case 4: efp::timsort_by(v, less); break;
        case 5: efp::quicksort_by(v, 0, n - 1, less); break;
        default: efp::merge_sort_by(v, 0, n - 1, less);
    }
    put_seq(d, v);
}
template<typename E, typename M> void own_vector(Dig& d, Rng& r, const M& make) {
    efp::Vector<E> v, w;
    for (unsigned k = 0; k < 14; ++k) switch (r(9)) {
        case 0: case 1: case 2: v.push_back(make((int)r(50))); break;
        case 3: v.insert(r((unsigned)v.size() + 1), make((int)r(50))); break;
        case 4: if (v.size()) v.erase(r((unsigned)v.size())); break;
        case 5: v.resize(r(12)); break;
        case 6: w = v; break;
        case 7: efp::swap(v, w); break;
        default: v.reserve(r(30)); if (r(2)) v.shrink_to_fit();
    }
    put(d, v == w);
    put_seq(d, v); put_seq(d, w);
    efp::for_each_mut([&](E& e) { tick(); e = make(5); }, v);
    put_seq(d, v);
}
struct Adder { int k; int operator()(int a) const { tick(); return a + k; } };
// a user-defined formatter that calls back
struct Loud { int id; };
template<> struct efp_fmt::formatter<Loud> {
    template<typename P> constexpr auto parse(P& ctx) const -> efp_fmt::format_parse_context::iterator { return ctx.begin(); }
    template<typename F> auto format(const Loud& b, F& ctx) const -> efp_fmt::format_context::iterator { tick(); return efp_fmt::format_to(ctx.out(), "<{}>", b.id); }
};

enum { kOps = 30 };
static uint64_t run_op(unsigned op, uint64_t seed, const World& w, unsigned thread) {
    Rng r(seed * 0x9e37 + op);
    Dig d;
    switch (op) {
        case 0: reads(d, r, w.vi, (int)r(20)); break;
        case 1: reads(d, r, w.vs, text((int)r(20))); break;
        case 2: reads(d, r, w.av, (int)r(20)); break;
        case 3: reads(d, r, w.avs, text((int)r(20))); break;
        case 4: reads(d, r, w.ai, (int)r(20)); break;
        case 5: reads(d, r, w.as, text((int)r(20))); break;
        case 6: reads(d, r, w.cb, (int)r(20)); break;
        case 7: reads(d, r, w.cq, (int)r(20)); break;
        case 8: reads(d, r, w.str, (char)('a' + r(4))); break;
        case 9: if (r(2)) cuts(d, r, w.vi); else cuts(d, r, w.vw); break;
        case 10: if (r(2)) cuts(d, r, w.av); else cuts(d, r, w.cq); break;
        case 11: sorts<int>(d, r, [](int x) { return x; }); break;
        case 12: sorts<Str>(d, r, [](int x) { return text(x); }); break;
        case 13: own_vector<int>(d, r, [](int x) { return x; }); break;
        case 14: own_vector<Str>(d, r, [](int x) { return text(x); }); break;
        case 15:
            put(d, efp::max_elem(w.vi)); put(d, efp::min_elem(w.av)); put(d, efp::sum(w.vi)); put(d, efp::product(w.ai)); put(d, efp::max_min(w.vd)); put(d, efp::sum(w.vd));
            put(d, efp::clamp(2, 9, (int)r(20))); put(d, efp::is_approx(1.0, 1.0 + r(2)));
            break;
        case 16: {
            efp::Vector<double> v;
            for (unsigned i = 0; i < w.vd.size(); ++i) v.push_back((double)r(100));
            put(d, efp::mean<double>(w.vd)); put(d, efp::variance<double>(w.vd)); put(d, efp::standard_deviation<double>(v)); put(d, efp::covariance<double>(w.vd, v));
            put(d, efp::rmse<double>(w.vd, v)); put_seq(d, efp::remove_dc<double>(w.vd)); put_seq(d, efp::detrend<double>(w.vd));
            const auto l = efp::linear_regression<double>(w.vd, v);
            put(d, efp::fst(l)); put(d, efp::snd(l));
            break;
        }
        case 17: {
            efp::String s(w.str);
            s += w.str2;
            s.insert(r((unsigned)s.size() + 1), "inserted");
            s.append("and a tail").append(r(20), 'x');
            if (s.size()) s.erase(r((unsigned)s.size()));
            put(d, s); put(d, s.substr(r((unsigned)s.size() + 1), r(20))); put(d, Str(s.c_str()));
            put(d, w.str.compare(w.str2) < 0); put(d, w.str == w.str2); put(d, w.str == "aba"); put(d, (Str)w.str);
            break;
        }
        case 18: put_seq(d, efp::concat(w.nested)); put_seq(d, efp::intercalate(w.ai, w.nested)); break;
        case 19:
            put(d, w.en.match([&](const int& i) { tick(); return text(i); }, [&](const Str& t) { tick(); return t; }, [&](const efp::Vector<int>& v) { tick(); return text((int)v.size()); }));
            put(d, w.en.match([&](const Str& t) { tick(); return (int)t.size(); }, [&]() { tick(); return -1; }));
            put(d, (size_t)w.en.index());
            break;
        case 20: {
            En a(w.en), b((int)r(9));
            b = a; a = En(text((int)r(9)));
            put(d, a == b); put(d, b == w.en); put(d, a.get<Str>()); put(d, (size_t)b.index());
            break;
        }
        case 21:
            put_maybe(d, w.mb.fmap([&](const Str& t) { tick(); return (int)t.size(); }));
            put_maybe(d, w.mb.bind([&](const Str& t) { tick(); return t.size() % 2 ? efp::Maybe<Str>(t + t) : efp::Maybe<Str>(efp::nothing); }));
            put_maybe(d, efp::fmap([&](const Str& t) { tick(); return t + "!"; }, w.mb));
            put(d, w.mb == efp::Maybe<Str>(text(3)));
            break;
        case 22: {
            put(d, w.tp.match([&](int a, const Str& b, const efp::Vector<int>& c) { tick(); return b + std::to_string(a) + std::to_string(c.size()); }));
            Tp t(w.tp);
            t.get<1>() = text((int)r(9));
            put(d, t == w.tp); put(d, efp::fst(w.tp)); put(d, efp::snd(t)); put_seq(d, w.tp.get<2>());
            break;
        }
        case 23: {
            auto f = [&](int a) { tick(); return text(a); };
            Adder g = {(int)r(9)}, h = {(int)r(5)};
            put(d, efp::compose(f, g, h)((int)r(100)));
            break;
        }
        case 24: put(d, efp::format("{:>{}} {:08.3f} {} {:#x} {}", (int)r(1000), (int)r(12), w.vd[0], w.str, r(100000), w.vi)); break;
        case 25: {
            Loud a = {(int)r(9)}, b = {(int)r(9)};
            efp::Vector<Loud> v;
            for (unsigned i = 0; i < 5; ++i) { Loud x = {(int)r(99)}; v.push_back(x); }
            put(d, efp::format("{} and {}: {}", a, b, v));
            put(d, efp::format("{}{}", w.nested, w.cb));
            char buf[40];
            const auto res = efp_fmt::format_to_n(buf, 40, "{}|{}", w.vd[0], a);
            d.add(buf, res.size < 40 ? res.size : 40);
            try { efp::format(efp_fmt::runtime("{:d}{"), 1); } catch (efp_fmt::format_error& e) { put(d, Str(e.what())); }
            break;
        }
        case 26: {
            efp::Vcb<Str, 3> b;
            efp::Vcq<Str, 3> q;
            for (unsigned k = r(12); k; --k) { b.push_back(text((int)r(9))); q.push_back(text((int)r(9))); if (r(3) == 0 && q.size()) put(d, q.pop_front()); }
            put_seq(d, b); put_seq(d, q);
            efp::Vcb<int, 4> c(w.cb);
            c.push_back(1);
            put_seq(d, c); put_seq(d, w.cb);
            break;
        }
        case 27: {
            std::unique_ptr<efp::BlockingQ<int>> a(new efp::BlockingQ<int>());
            std::unique_ptr<efp::NonBlockingQ<Str, 4>> b(new efp::NonBlockingQ<Str, 4>());
            std::unique_ptr<efp::DoubleBuffer<int, 4>> c(new efp::DoubleBuffer<int, 4>());
            for (unsigned k = 0; k < 6; ++k) { int x = (int)r(50); a->enqueue(x); b->enqueue(text(x)); c->enqueue(x); }
            c->swap_buffer();
            for (unsigned k = 0; k < 6; ++k) { put(d, a->dequeue()); put_maybe(d, b->dequeue()); if (!c->empty()) put(d, c->dequeue()); }
            break;
        }
        case 28: {
            const std::string p = path_of(thread, t_path++ % kPaths);
            {
                auto f = efp::File::open(p.c_str(), r(2) ? "w" : "wb");
                if (f) { efp::File o(f.move()); for (unsigned k = r(6); k; --k) { o.write(efp::format("line {} of {}\n", r(100), text((int)r(9)).c_str())); if (r(3) == 0) o.write("\n"); } }
            }
            auto f = efp::File::open(efp::String(p.c_str()), "r");
            if (f) { efp::File o(f.move()); put_maybe(d, o.read_line()); put_seq(d, o.read_lines()); put(d, o.close()); }
            break;
        }
        default:
            put_seq(d, efp::from_function(r(8), [&](size_t i) { tick(); return text((int)i); }));
            efp::for_index([&](size_t i) { tick(); d.add(i); }, r(5));
            efp::cartesian_for_index([&](size_t i, size_t j) { tick(); d.add(i * 10 + j); }, r(4), r(4));
            put_seq(d, efp::map([&](const int& a, const int& b) { tick(); return a * 100 + b; }, w.vi, w.ai));
    }
    return d.h;
}
static const char* const op_name[kOps] = {"Vector<int>", "Vector<string>", "ArrVec<int>", "ArrVec<string>", "Array<int>", "Array<string>", "Vcb", "Vcq", "String", "slices of a vector or view",
    "slices of ArrVec or Vcq", "sort ints", "sort strings", "own Vector<int>", "own Vector<string>", "numbers", "statistics", "own String", "concat", "match", "own Enum", "Maybe", "Tuple", "compose", "format", "format back", "own rings", "own queues", "own file", "from_function"};

struct Step { unsigned op; uint64_t seed, want; };
static std::atomic<int> g_go, g_ready;

static void threads(Src& s) {
    const unsigned nt = 2 + s.draw(kThreads - 1);
    Rng wr(s.draw(1u << 20));
    const World w(wr);
    // often the same operation everywhere: that is where hidden state is shared
    const bool same = s.flip();
    // the results to expect are computed before, or only after the threads have run: then nothing was initialised before
    const bool before = s.flip();
    std::vector<unsigned> few;
    for (unsigned i = 0; i < 3; ++i) few.push_back(s.draw(kOps));
    std::vector<std::vector<Step>> plan(nt);
    for (unsigned t = 0; t < nt; ++t) for (unsigned n = 2 + s.draw(5); n; --n) {
        Step x = {same ? few[s.draw(3)] : s.draw(kOps), s.draw(1u << 16), 0};
        if (before) x.want = run_op(x.op, x.seed, w, t);
        PLOG(s, "thread " << t << ": " << op_name[x.op] << " " << x.seed);
        plan[t].push_back(x);
    }
    g_go = 0; g_ready = 0;
    std::vector<std::vector<uint64_t>> got(nt);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; ++t) {
        got[t].resize(plan[t].size());
        const std::vector<Step>* p = &plan[t];
        uint64_t* g = got[t].data();
        const World* wp = &w;
        th.emplace_back([p, g, wp, t]() {
            g_ready.fetch_add(1, std::memory_order_relaxed);
            while (g_go.load(std::memory_order_relaxed) == 0) {}
            for (size_t i = 0; i < p->size(); ++i) g[i] = run_op((*p)[i].op, (*p)[i].seed, *wp, t);
        });
    }
    while (g_ready.load(std::memory_order_relaxed) < (int)nt) std::this_thread::yield();
    g_go.store(1, std::memory_order_relaxed);
    for (auto& t : th) t.join();
    if (!before) for (unsigned t = 0; t < nt; ++t) for (Step& x : plan[t]) x.want = run_op(x.op, x.seed, w, t);
    for (unsigned t = 0; t < nt; ++t) for (size_t i = 0; i < plan[t].size(); ++i)
        PCHECK(got[t][i] == plan[t][i].want, "thread " << t << ": " << op_name[plan[t][i].op] << " gives another result than when run alone");
    s.label(same ? "threads, few kinds of operation" : "threads, many kinds of operation");
    s.nontrivial();
}
static void nested(Src& s) {
    Rng wr(s.draw(1u << 20));
    const World w(wr);
    const unsigned depth = 1 + s.draw(3);
    const bool same = s.flip();
    std::vector<Nest> n(depth);
    static const unsigned calling[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 19, 21, 22, 23, 25, 29};
    Step outer = {calling[s.draw(sizeof(calling) / sizeof(*calling))], s.draw(1u << 16), 0};
    t_ticks = 0;
    outer.want = run_op(outer.op, outer.seed, w, 0);
    long calls = t_ticks;
    PLOG(s, op_name[outer.op] << " " << outer.seed);
    for (unsigned i = 0; i < depth; ++i) {
        n[i].op = same ? outer.op : s.draw(kOps);
        n[i].seed = s.draw(1u << 16);
        n[i].countdown = calls ? (long)s.draw((uint64_t)calls) : 0;
        t_ticks = 0;
        n[i].want = run_op(n[i].op, n[i].seed, w, 0);
        calls = t_ticks;
        n[i].w = &w;
        n[i].ran = n[i].wrong = false;
        n[i].next = i + 1 < depth ? &n[i + 1] : nullptr;
        PLOG(s, "  within it, at call " << n[i].countdown << ": " << op_name[n[i].op] << " " << n[i].seed);
    }
    t_nest = &n[0];
    const uint64_t got = run_op(outer.op, outer.seed, w, kThreads);
    t_nest = nullptr;
    PCHECK(got == outer.want, op_name[outer.op] << " gives another result when a user function called by it uses the library");
    for (unsigned i = 0; i < depth; ++i) PCHECK(!n[i].wrong, op_name[n[i].op] << " gives another result when called from a user function of " << op_name[i ? n[i - 1].op : outer.op]);
    if (n[0].ran) { s.nontrivial(); s.label(depth > 1 && n[1].ran ? "nested twice" : "nested"); } else s.label("no user function called");
}
static void one_case(Src& s) {
#ifdef __SANITIZE_THREAD__
    threads(s);
#else
    if (s.chance(1, 8)) threads(s); else nested(s);
#endif
}
void pbt_case(Src& s) {
    scratch();
    // a schedule cannot be replayed: try the same case many times instead
    if (!s.replaying()) { one_case(s); return; }
    for (int i = 0; i < 20; ++i) { s.rewind(); one_case(s); }
}
void pbt_reset() { t_nest = nullptr; t_path = 0; }
void pbt_end(Src&) {}
