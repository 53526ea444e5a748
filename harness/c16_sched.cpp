// C16: every operation history of up to 5 threads on the queues and the double buffer, under
// chosen schedules, must be explained by some sequential order (linearizability), and no
// thread may be stuck while it could go on.
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <queue>
#include <deque>
#include <memory>
#include <thread>
#include <set>
#include <cstring>
#if defined(__has_include)
#if __has_include(<shared_mutex>) && __cplusplus >= 201402L
#include <shared_mutex>
#endif
#if __has_include(<semaphore>) && __cplusplus >= 202002L
#include <semaphore>
#endif
#endif
#include "efp/cpp_core.hpp"
#include "efp/meta.hpp"
#include "efp/trait.hpp"
#include "efp/sequence.hpp"
#include "efp/enum.hpp"
#include "efp/maybe.hpp"
#include "efp/prelude.hpp"
#include "efp/cyclic.hpp"
#include "pbt.hpp"
#include "sched.hpp"
#define mutex pbt_mutex
#define shared_mutex pbt_shared_mutex
#define timed_mutex pbt_timed_mutex
#define shared_timed_mutex pbt_shared_timed_mutex
#define recursive_mutex pbt_recursive_mutex
#define recursive_timed_mutex pbt_recursive_timed_mutex
#define atomic_bool pbt_atomic_bool
#define atomic_int pbt_atomic_int
#define atomic_uint pbt_atomic_uint
#define atomic_long pbt_atomic_long
#define atomic_size_t pbt_atomic_size_t
#define condition_variable pbt_condition_variable
#define condition_variable_any pbt_condition_variable_any
#define atomic_flag pbt_atomic_flag
#define atomic pbt_atomic
#include "efp/concurrency.hpp"
#undef mutex
#undef shared_mutex
#undef timed_mutex
#undef shared_timed_mutex
#undef recursive_mutex
#undef recursive_timed_mutex
#undef atomic_bool
#undef atomic_int
#undef atomic_uint
#undef atomic_long
#undef atomic_size_t
#undef condition_variable
#undef condition_variable_any
#undef atomic_flag
#undef atomic
using namespace pbt;

const char* const pbt_name = "c16_sched";
const char* const pbt_rule = "";

// an item whose every copy, move and destruction is a scheduling point
static long g_live = 0;
struct Item {
    int v;
    Item() : v(0) { ++g_live; pt(); }
    explicit Item(int x) : v(x) { ++g_live; }
    Item(const Item& o) : v(o.v) { ++g_live; pt(); }
    Item(Item&& o) noexcept : v(o.v) { o.v = -7; ++g_live; pt(); }
    Item& operator=(const Item& o) { pt(); v = o.v; pt(); return *this; }
    Item& operator=(Item&& o) noexcept { pt(); v = o.v; if (&o != this) o.v = -7; pt(); return *this; }
    ~Item() { pt(); v = -99; --g_live; }
    static void pt() { Sched::get().yield(); }
};

// ---- histories
enum Kind { ENQ, DEQ, TRY, ISEMPTY, SWAP, BDEQ, BEMPTY, EMPTY_NOW };
static const char* kind_name(Kind k) { static const char* n[] = {"enqueue", "dequeue", "try-dequeue", "is_empty", "swap_buffer", "buffer dequeue", "buffer empty", "observed empty"}; return n[k]; }
struct Op { Kind k; int arg, ret; unsigned inv, res; int thread; };   // ret: value, -1 for nothing, 0/1 for booleans
static const int kNothing = -1;
static std::vector<Op> H;
static unsigned g_clock;

struct Spec {
    std::deque<int> w, r;
    size_t cap;      // 0: unbounded
    bool step(const Op& o) {
        switch (o.k) {
            case ENQ: if (cap && w.size() == cap) w.pop_front(); w.push_back(o.arg); return true;
            case DEQ: if (w.empty() || w.front() != o.ret) return false; w.pop_front(); return true;
            case TRY: if (w.empty()) return o.ret == kNothing; if (w.front() != o.ret) return false; w.pop_front(); return true;
            case ISEMPTY: return o.ret == (int)w.empty();
            case EMPTY_NOW: return w.empty();
            case SWAP: w.swap(r); return true;
            case BDEQ: if (r.empty() || r.front() != o.ret) return false; r.pop_front(); return true;
            case BEMPTY: return o.ret == (int)r.empty();
        }
        return false;
    }
    std::string key() const { std::string s; for (size_t i = 0; i < w.size(); ++i) s += (char)w[i]; s += '\xff'; for (size_t i = 0; i < r.size(); ++i) s += (char)r[i]; return s; }
};
static bool explain(const std::vector<Op>& h, uint64_t done, const Spec& st, std::set<std::string>& seen) {
    if (done + 1 == (1ull << h.size())) return true;
    unsigned first_res = ~0u;
    for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].res < first_res) first_res = h[i].res;
    for (size_t i = 0; i < h.size(); ++i) {
        if ((done >> i & 1) || h[i].inv > first_res) continue;
        Spec n = st;
        if (!n.step(h[i])) continue;
        uint64_t d = done | 1ull << i;
        std::string k((const char*)&d, 8);
        k += n.key();
        if (!seen.insert(k).second) continue;
        if (explain(h, d, n, seen)) return true;
    }
    return false;
}
static std::string history() {
    std::ostringstream o;
    for (size_t i = 0; i < H.size(); ++i) o << "\n  thread " << H[i].thread << " [" << H[i].inv << "," << H[i].res << "] " << kind_name(H[i].k) << " " << (H[i].k == ENQ ? H[i].arg : H[i].ret);
    return o.str();
}
static void judge(size_t cap, const char* what) {
    Sched& sc = Sched::get();
    PCHECK(sc.error.empty(), what << ": " << sc.error << history());
    Spec st; st.cap = cap;
    std::set<std::string> seen;
    PCHECK(explain(H, 0, st, seen), what << ": no sequential order of the operations explains this history:" << history());
}

template<typename Q> struct Shape;   // which operations there are
template<typename A, size_t n> struct Shape<efp::BlockingQ<A, n>> { enum { blocking = 1 }; };
template<typename A, size_t n> struct Shape<efp::NonBlockingQ<A, n>> { enum { blocking = 0 }; };

struct Rec {   // records one operation
    size_t i;
    Rec(Kind k, int thread, int arg) { Op o = {k, arg, 0, ++g_clock, ~0u, thread}; _o = o; }
    void done(int ret) { _o.ret = ret; _o.res = ++g_clock; H.push_back(_o); }
    Op _o;
};
template<typename Q> void enq(Q& q, int v, int t) { Rec r(ENQ, t, v); { Item x(v); q.enqueue(x); } r.done(0); }
template<typename A, size_t n> int deq(efp::BlockingQ<A, n>& q, int t) { Rec r(DEQ, t, 0); int v; { Item x = q.dequeue(); v = x.v; } r.done(v); return v; }
template<typename A, size_t n> int deq(efp::NonBlockingQ<A, n>& q, int t) {
    Rec r(TRY, t, 0);
    int v = kNothing;
    { efp::Maybe<A> m = q.dequeue(); if (m) v = m.value().v; }
    r.done(v);
    return v;
}
template<typename A, size_t n> void look(efp::BlockingQ<A, n>&, int) {}
template<typename A, size_t n> void look(efp::NonBlockingQ<A, n>& q, int t) { Rec r(ISEMPTY, t, 0); r.done(q.is_empty()); }

struct Plan { std::vector<std::vector<int>> ops; };   // > 0 enqueue that value, 0 dequeue, -1 is_empty

template<typename Q> static void queue_case(Src& s, size_t cap, const char* name) {
    Sched& sc = Sched::get();
    const bool blocking = Shape<Q>::blocking;
    H.clear(); g_clock = 0;
    sc.begin(&s);
    sc.sticky = s.flip();
    sc.spurious = blocking && s.flip() ? (int)s.draw(4) : 0;
    unsigned nt = 2 + s.draw(3), budget = 12;
    Plan p;
    int val = 0, nenq = 0, ndeq = 0;
    for (unsigned t = 0; t < nt; ++t) {
        p.ops.push_back(std::vector<int>());
        unsigned role = s.draw(3), n = 1 + s.draw(4);
        for (unsigned i = 0; i < n && budget; ++i, --budget) {
            bool e = role == 0 ? true : role == 1 ? false : s.flip();
            if (e) { p.ops[t].push_back(++val); ++nenq; }
            else if (!blocking && s.chance(1, 4)) p.ops[t].push_back(-1);
            else { p.ops[t].push_back(0); ++ndeq; }
        }
        std::ostringstream o;
        for (size_t i = 0; i < p.ops[t].size(); ++i) o << (p.ops[t][i] > 0 ? " put" : p.ops[t][i] ? " empty?" : " take");
        PLOG(s, name << " thread " << t << ":" << o.str());
    }
    long live0 = g_live;
    std::unique_ptr<Q> q(new Q());
    bool stop = false;
    std::vector<int> got;
    for (unsigned t = 0; t < nt; ++t) {
        std::vector<int> ops = p.ops[t];
        Q* qq = q.get();
        sc.spawn([ops, t, qq, &stop, &got]() {
            for (size_t i = 0; i < ops.size() && !stop; ++i) {
                if (ops[i] > 0) enq(*qq, ops[i], t);
                else if (ops[i] == 0) got.push_back(deq(*qq, t));
                else look(*qq, t);
            }
        });
    }
    int waiting = sc.run();
    unsigned sw = sc.switches;
    PCHECK(sc.error.empty(), name << ": " << sc.error << history());
    if (!blocking) {
        PCHECK(waiting == 0, name << ": " << waiting << " threads are stuck" << history());
        // what is left, in order
        for (int i = 0; i < nenq + 1; ++i) if (deq(*q, 99) == kNothing) break;
    } else {
        for (size_t i = 0; i < sc.fibers.size(); ++i)
            PCHECK(sc.fibers[i].st == Sched::DONE || sc.fibers[i].st == Sched::WAITING, name << ": thread " << i << " is stuck for ever waiting for a lock" << history());
        if (waiting) s.label("waiters at the end");
        sc.spurious = 0;
        if (!waiting) {
            // take until it blocks
            Q* qq = q.get();
            sc.spawn([qq, &stop]() { while (!stop) deq(*qq, 99); });
            waiting = sc.run();
            PCHECK(sc.error.empty(), name << ": " << sc.error << history());
            PCHECK(waiting == 1, name << ": a consumer takes more than was put in" << history());
        }
        // everybody left waits: only right when nothing is there
        { Rec r(EMPTY_NOW, 99, 0); r.done(0); }
        judge(cap, name);
        // and each item put in now must release exactly one of them
        stop = true;
        int rescue = 100;
        while (waiting > 0) {
            Q* qq = q.get();
            int v = ++rescue;
            size_t before = H.size();
            sc.spawn([qq, v]() { enq(*qq, v, 98); });
            int left = sc.run();
            PCHECK(sc.error.empty(), name << ": " << sc.error << history());
            PCHECK(left == waiting - 1, name << ": " << waiting << " consumers waited, one item was put in, " << left << " still wait" << history());
            bool taken = false;
            for (size_t i = before; i < H.size(); ++i) if (H[i].k == DEQ) { PCHECK(H[i].ret == v && !taken, name << ": a waiting consumer got " << H[i].ret << " instead of " << v); taken = true; }
            waiting = left;
        }
    }
    judge(cap, name);
    q.reset();
    PCHECK(g_live == live0, name << ": " << g_live - live0 << " items were not destroyed once");
    s.label(name);
    if (sw >= 3 && nenq && ndeq) s.nontrivial();
    if (sc.spurious_done) s.label("spurious wakeup");
    if (cap && nenq > (int)cap) s.label("possible overflow");
}

template<size_t cap> static void buffer_case(Src& s) {
    Sched& sc = Sched::get();
    H.clear(); g_clock = 0;
    sc.begin(&s);
    sc.sticky = s.flip();
    unsigned nw = 1 + s.draw(6), rounds = 1 + s.draw(3);
    long live0 = g_live;
    typedef efp::DoubleBuffer<Item, cap> Q;
    std::unique_ptr<Q> q(new Q());
    Q* qq = q.get();
    std::vector<unsigned> take;
    for (unsigned i = 0; i < rounds; ++i) take.push_back(s.chance(1, 4) ? s.draw(cap + 1) : (unsigned)cap);
    PLOG(s, "DoubleBuffer of " << cap << ": " << nw << " writes, " << rounds << " swaps");
    sc.spawn([qq, nw]() { for (unsigned i = 1; i <= nw; ++i) { Rec r(ENQ, 0, (int)i); { Item x((int)i); qq->enqueue(x); } r.done(0); } });
    auto drain = [qq](unsigned most) {
        for (unsigned k = 0; k < most; ++k) {
            bool e; { Rec r(BEMPTY, 1, 0); e = qq->empty(); r.done(e); }
            if (e) break;
            Rec r(BDEQ, 1, 0);
            int v; { Item x = qq->dequeue(); v = x.v; }
            r.done(v);
        }
    };
    sc.spawn([qq, take, drain]() {
        for (size_t i = 0; i < take.size(); ++i) {
            { Rec r(SWAP, 1, 0); qq->swap_buffer(); r.done(0); }
            drain(take[i]);
        }
    });
    int left = sc.run();
    unsigned sw = sc.switches;
    PCHECK(sc.error.empty(), "DoubleBuffer: " << sc.error << history());
    PCHECK(left == 0, "DoubleBuffer: " << left << " threads are stuck" << history());
    // the rest
    for (int i = 0; i < 2; ++i) { drain(cap + 1); { Rec r(SWAP, 1, 0); qq->swap_buffer(); r.done(0); } }
    drain(cap + 1);
    judge(cap, "DoubleBuffer");
    q.reset();
    PCHECK(g_live == live0, "DoubleBuffer: " << g_live - live0 << " items were not destroyed once");
    s.label("DoubleBuffer");
    if (sw >= 3) s.nontrivial();
}

void pbt_case(Src& s) {
    switch (s.draw(11)) {
        case 0: case 1: queue_case<efp::BlockingQ<Item>>(s, 0, "unbounded BlockingQ"); break;
        case 2: queue_case<efp::BlockingQ<Item, 1>>(s, 1, "BlockingQ of 1"); break;
        case 3: queue_case<efp::BlockingQ<Item, 2>>(s, 2, "BlockingQ of 2"); break;
        case 4: queue_case<efp::BlockingQ<Item, 4>>(s, 4, "BlockingQ of 4"); break;
        case 5: queue_case<efp::NonBlockingQ<Item>>(s, 0, "unbounded NonBlockingQ"); break;
        case 6: queue_case<efp::NonBlockingQ<Item, 1>>(s, 1, "NonBlockingQ of 1"); break;
        case 7: queue_case<efp::NonBlockingQ<Item, 3>>(s, 3, "NonBlockingQ of 3"); break;
        case 8: buffer_case<1>(s); break;
        case 9: buffer_case<2>(s); break;
        default: buffer_case<5>(s); break;
    }
}
void pbt_reset() { g_live = 0; }
void pbt_end(Src&) {}
