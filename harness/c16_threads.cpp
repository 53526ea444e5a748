// C16: the queues and the double buffer under real threads, built with the thread sanitizer:
// every item once, in the order of its producer, nothing lost, nobody stuck, no data race.
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <string>
#include "efp.hpp"
#include "pbt.hpp"
using namespace pbt;

const char* const pbt_name = "c16_threads";
const char* const pbt_rule = "";

struct Msg3 {   // torn values show
    int a, b, c;
    Msg3() : a(0), b(0), c(0) {}
    explicit Msg3(int x) : a(x), b(x * 3), c(~x) {}
    int get() const { return b == a * 3 && c == ~a ? a : -1000000; }
};
template<typename E> struct Of;
template<> struct Of<int> { static int make(int x) { return x; } static int val(const int& x) { return x; } };
template<> struct Of<Msg3> { static Msg3 make(int x) { return Msg3(x); } static int val(const Msg3& x) { return x.get(); } };
template<> struct Of<std::string> {
    static std::string make(int x) { return std::to_string(x) + "-some-text-that-does-not-fit-inside"; }
    static int val(const std::string& s) { int x = atoi(s.c_str()); return make(x) == s ? x : -1000000; }
};

// relaxed operations only: the harness must not order the threads for the queue
static std::atomic<int> g_go, g_ready, g_exited;
static void gate(int n) {
    g_ready.fetch_add(1, std::memory_order_relaxed);
    while (g_go.load(std::memory_order_relaxed) == 0) {}
    (void)n;
}
static void open_gate(int n) { while (g_ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); g_go.store(1, std::memory_order_relaxed); }
static void pause_for(unsigned r) { for (volatile unsigned i = 0; i < r; ++i) {} }

struct Plan { unsigned np, nc, per; uint64_t noise; };
static const int kStop = 1000000;

static void judge(const Plan& p, const std::vector<std::vector<int>>& got, bool lossy, const char* name) {
    std::vector<int> seen(p.np * p.per, 0);
    for (size_t c = 0; c < got.size(); ++c) {
        std::vector<int> last(p.np, -1);
        for (size_t i = 0; i < got[c].size(); ++i) {
            int v = got[c][i];
            PCHECK(v >= 1 && v <= (int)(p.np * p.per), name << ": consumer " << c << " got " << v << ", which nobody put in");
            int pr = (v - 1) / p.per;
            PCHECK(last[pr] < v, name << ": consumer " << c << " got " << v << " after " << last[pr] << " of the same producer");
            last[pr] = v;
            PCHECK(!seen[v - 1], name << ": item " << v << " was delivered twice");
            seen[v - 1] = 1;
        }
    }
    if (!lossy) for (size_t i = 0; i < seen.size(); ++i) PCHECK(seen[i], name << ": item " << i + 1 << " was lost");
}
static Plan plan(Src& s) {
    Plan p;
    p.np = 1 + s.draw(3); p.nc = 1 + s.draw(3); p.per = 1 + s.draw(30); p.noise = s.draw(1u << 30);
    return p;
}

template<typename E, size_t cap> static void blocking(Src& s, bool lossy, const char* name) {
    Plan p = plan(s);
    PLOG(s, name << ": " << p.np << " producers of " << p.per << ", " << p.nc << " consumers");
    typedef efp::BlockingQ<E, cap> Q;
    std::unique_ptr<Q> q(new Q());
    g_go = 0; g_ready = 0; g_exited = 0;
    std::vector<std::vector<int>> got(p.nc);
    std::vector<std::thread> prod, cons;
    for (unsigned c = 0; c < p.nc; ++c) cons.emplace_back([&, c]() {
        gate(0);
        for (;;) { int v = Of<E>::val(q->dequeue()); if (v >= kStop) break; got[c].push_back(v); if (got[c].size() > 10000) break; }
        g_exited.fetch_add(1, std::memory_order_relaxed);
    });
    for (unsigned t = 0; t < p.np; ++t) prod.emplace_back([&, t]() {
        gate(0);
        for (unsigned i = 0; i < p.per; ++i) { pause_for((unsigned)(mix(p.noise + t * 131 + i) % 200)); q->enqueue(Of<E>::make((int)(t * p.per + i + 1))); }
    });
    open_gate((int)(p.np + p.nc));
    for (auto& t : prod) t.join();
    // one stop at a time, so that a bounded queue does not discard it
    for (unsigned c = 0; c < p.nc; ++c) {
        if (!lossy || c == 0) { if (lossy) std::this_thread::yield(); }
        q->enqueue(Of<E>::make(kStop + (int)c));
        for (long spins = 0; g_exited.load(std::memory_order_relaxed) <= (int)c; ++spins) {
            if (spins > 200000) { fprintf(stderr, "%s: a consumer still waits although an item is available\n", name); _exit(99); }
            std::this_thread::yield();
            if (spins > 1000) usleep(100);
        }
    }
    for (auto& t : cons) t.join();
    judge(p, got, lossy, name);
    s.label(name);
    if (p.np + p.nc > 2 && p.per > 3) s.nontrivial();
}
template<typename E, size_t cap> static void nonblocking(Src& s, bool lossy, const char* name) {
    Plan p = plan(s);
    PLOG(s, name << ": " << p.np << " producers of " << p.per << ", " << p.nc << " consumers");
    typedef efp::NonBlockingQ<E, cap> Q;
    std::unique_ptr<Q> q(new Q());
    g_go = 0; g_ready = 0; g_exited = 0;
    std::vector<std::vector<int>> got(p.nc + 1);
    std::vector<std::thread> th;
    for (unsigned c = 0; c < p.nc; ++c) th.emplace_back([&, c]() {
        gate(0);
        for (unsigned i = 0; i < 2 * p.per; ++i) {
            if (mix(p.noise + c * 977 + i) % 4 == 0 && q->is_empty()) continue;
            efp::Maybe<E> m = q->dequeue();
            if (m) got[c].push_back(Of<E>::val(m.value()));
        }
    });
    for (unsigned t = 0; t < p.np; ++t) th.emplace_back([&, t]() {
        gate(0);
        for (unsigned i = 0; i < p.per; ++i) { pause_for((unsigned)(mix(p.noise + t * 131 + i) % 200)); q->enqueue(Of<E>::make((int)(t * p.per + i + 1))); }
    });
    open_gate((int)(p.np + p.nc));
    for (auto& t : th) t.join();
    for (size_t i = 0; i < 100000; ++i) { efp::Maybe<E> m = q->dequeue(); if (!m) break; got[p.nc].push_back(Of<E>::val(m.value())); }
    PCHECK(q->is_empty(), name << ": not empty after taking everything");
    judge(p, got, lossy, name);
    s.label(name);
    if (p.np + p.nc > 2 && p.per > 3) s.nontrivial();
}
template<typename E, size_t cap> static void buffer(Src& s) {
    Plan p = plan(s);
    p.np = 1; p.nc = 1;
    PLOG(s, "DoubleBuffer of " << cap << ": " << p.per << " writes");
    typedef efp::DoubleBuffer<E, cap> Q;
    std::unique_ptr<Q> q(new Q());
    g_go = 0; g_ready = 0; g_exited = 0;
    std::vector<std::vector<int>> got(1);
    std::thread w([&]() { gate(0); for (unsigned i = 0; i < p.per; ++i) { pause_for((unsigned)(mix(p.noise + i) % 200)); q->enqueue(Of<E>::make((int)i + 1)); } });
    std::thread r([&]() {
        gate(0);
        for (unsigned i = 0; i < p.per; ++i) { q->swap_buffer(); while (!q->empty()) got[0].push_back(Of<E>::val(q->dequeue())); }
    });
    open_gate(2);
    w.join(); r.join();
    q->swap_buffer();
    while (!q->empty()) got[0].push_back(Of<E>::val(q->dequeue()));
    judge(p, got, p.per > cap, "DoubleBuffer");
    PCHECK(got[0].size() && got[0].back() == (int)p.per, "DoubleBuffer: the last item did not arrive");
    s.label("DoubleBuffer");
    if (p.per > 3) s.nontrivial();
}
static void one_case(Src& s) {
    switch (s.draw(9)) {
        case 0: blocking<int, efp::dyn>(s, false, "unbounded BlockingQ"); break;
        case 1: blocking<std::string, efp::dyn>(s, false, "unbounded BlockingQ of strings"); break;
        case 2: blocking<Msg3, 100>(s, false, "BlockingQ of 100"); break;
        case 3: blocking<int, 3>(s, true, "BlockingQ of 3"); break;
        case 4: nonblocking<int, efp::dyn>(s, false, "unbounded NonBlockingQ"); break;
        case 5: nonblocking<std::string, 100>(s, false, "NonBlockingQ of 100"); break;
        case 6: nonblocking<Msg3, 2>(s, true, "NonBlockingQ of 2"); break;
        case 7: buffer<int, 40>(s); break;
        default: buffer<std::string, 3>(s); break;
    }
}
void pbt_case(Src& s) {
    // a schedule cannot be replayed: try the same case many times instead
    if (!s.replaying()) { one_case(s); return; }
    for (int i = 0; i < 40; ++i) { s.rewind(); one_case(s); }
}
void pbt_reset() {}
void pbt_end(Src&) {}
