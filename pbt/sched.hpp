// Deterministic scheduler: the threads of a case are fibers on one OS thread, and every
// choice of who runs next is a choice of the test case.  Stand-ins for the synchronisation
// primitives of the standard library (std::pbt_*) give control back to the scheduler at
// every operation; the harness makes the code under test use them by macro.
#ifndef PBT_SCHED_HPP_
#define PBT_SCHED_HPP_
#include <ucontext.h>
#include <functional>
#include <mutex>
#include <chrono>
#include <vector>
#include <string>
#include "pbt.hpp"

namespace pbt {

class Sched {
public:
    enum State { RUN, BLOCKED, WAITING, TIMED, DONE };
    struct Fiber {
        ucontext_t ctx;
        std::function<void()> fn;
        State st;
        const void* on;     // what it waits for
        bool spun;          // last step was a failed attempt
        bool timed_out;
        std::vector<char>* stack;
    };
    static Sched& get() { static Sched s; return s; }

    void begin(Src* s) {
        src = s; fibers.clear(); cur = -1; steps = 0; error.clear(); spurious = 0; sticky = false; switches = 0; spurious_done = 0;
    }
    int spawn(const std::function<void()>& fn) {
        fibers.push_back(Fiber());
        Fiber& f = fibers.back();
        f.fn = fn; f.st = RUN; f.on = nullptr; f.spun = false; f.timed_out = false;
        while (stacks.size() < fibers.size()) stacks.push_back(new std::vector<char>(128 * 1024));
        f.stack = stacks[fibers.size() - 1];
        return (int)fibers.size() - 1;
    }
    // run until nobody can go on; returns the number of fibers not done
    int run() {
        for (;;) {
            std::vector<int> c, sp;
            bool fresh = false;
            for (size_t i = 0; i < fibers.size(); ++i) if (fibers[i].st == RUN && !fibers[i].spun) fresh = true;
            // the one that ran last comes first: the simplest schedule has no switches
            for (int pass = 0; pass < 2; ++pass)
                for (size_t i = 0; i < fibers.size(); ++i) {
                    bool last_one = (int)i == last;
                    if (last_one != (pass == 0)) continue;
                    Fiber& f = fibers[i];
                    if (f.st == RUN && (!f.spun || !fresh)) c.push_back((int)i);
                    if (f.st == WAITING || f.st == TIMED) sp.push_back((int)i);
                }
            if (c.empty()) {
                // a timed wait ends by itself
                for (size_t i = 0; i < sp.size(); ++i) if (fibers[sp[i]].st == TIMED) { fibers[sp[i]].st = RUN; fibers[sp[i]].timed_out = true; c.push_back(sp[i]); break; }
            }
            if (c.empty()) break;
            if (++steps > 20000) { fail_with("no progress after 20000 steps: the threads spin for ever"); break; }
            int next;
            if (!sp.empty() && spurious > 0 && src->chance(1, 8)) {
                --spurious; ++spurious_done;
                next = sp[src->draw(sp.size())];
                fibers[next].timed_out = fibers[next].st == TIMED;
                fibers[next].st = RUN;
            } else if (steps > 4000) next = c[steps % c.size()];   // fair tail
            else if (sticky && c[0] == last && src->draw(4) < 3) next = c[0];
            else next = c[src->draw(c.size())];
            if (next != last) ++switches;
            last = cur = next;
            swapcontext(&main, start(next));
            cur = -1;
            if (!error.empty()) break;
        }
        int n = 0;
        for (size_t i = 0; i < fibers.size(); ++i) n += fibers[i].st != DONE;
        return n;
    }
    bool inside() const { return cur >= 0; }
    // scheduling point
    void yield() {
        if (cur < 0) return;
        int me = cur;
        swapcontext(&fibers[me].ctx, &main);
    }
    void progress() { for (size_t i = 0; i < fibers.size(); ++i) fibers[i].spun = false; }
    void failed_attempt() { if (cur >= 0) fibers[cur].spun = true; yield(); }
    void block(const void* on, State st) {
        if (cur < 0) { fail_with("the set-up thread would block for ever"); throw Fail(error); }
        int me = cur;
        fibers[me].st = st; fibers[me].on = on; fibers[me].timed_out = false;
        swapcontext(&fibers[me].ctx, &main);
    }
    bool timed_out() const { return cur >= 0 && fibers[cur].timed_out; }
    void wake(const void* on, State st, bool all) {
        std::vector<int> w;
        for (size_t i = 0; i < fibers.size(); ++i) if (fibers[i].on == on && (fibers[i].st == st || (st == WAITING && fibers[i].st == TIMED))) w.push_back((int)i);
        if (w.empty()) return;
        if (all) { for (size_t i = 0; i < w.size(); ++i) fibers[w[i]].st = RUN; }
        else fibers[w[src->draw(w.size())]].st = RUN;   // any of the waiters
    }
    void fail_with(const std::string& m) { if (error.empty()) error = m; }

    Src* src;
    std::vector<Fiber> fibers;
    int cur, last;
    unsigned steps, switches, spurious_done;
    int spurious;      // spurious wakeups still allowed
    bool sticky;
    std::string error;

private:
    Sched() : src(nullptr), cur(-1), last(-1), steps(0), switches(0), spurious_done(0), spurious(0), sticky(false) { fibers.reserve(64); }
    ucontext_t* start(int i) {
        Fiber& f = fibers[i];
        if (f.fn) {
            getcontext(&f.ctx);
            f.ctx.uc_stack.ss_sp = f.stack->data();
            f.ctx.uc_stack.ss_size = f.stack->size();
            f.ctx.uc_link = &main;
            makecontext(&f.ctx, &Sched::entry, 0);
        }
        return &f.ctx;
    }
    static void entry() {
        Sched& s = get();
        int me = s.cur;
        std::function<void()> fn;
        fn.swap(s.fibers[me].fn);
        try { fn(); }
        catch (const Fail& f) { s.fail_with(f.msg); }
        catch (const std::exception& e) { s.fail_with(std::string("an operation threw: ") + e.what()); }
        catch (...) { s.fail_with("an operation threw"); }
        s.fibers[me].st = DONE;
        s.progress();
    }
    ucontext_t main;
    std::vector<std::vector<char>*> stacks;
};

class SchedMutex {
public:
    SchedMutex() : _owner(-1), _depth(0) {}
    SchedMutex(const SchedMutex&) = delete;
    SchedMutex& operator=(const SchedMutex&) = delete;
    void lock() {
        Sched& s = Sched::get();
        s.yield();
        if (_owner == id()) s.fail_with("a thread locks a mutex it already holds");
        while (_owner != -1) s.block(this, Sched::BLOCKED);
        _owner = id();
    }
    bool try_lock() {
        Sched::get().yield();
        if (_owner != -1) { Sched::get().failed_attempt(); return false; }
        _owner = id();
        return true;
    }
    template<typename D> bool try_lock_for(const D&) { return try_lock(); }
    void unlock() {
        Sched& s = Sched::get();
        if (_owner != id()) s.fail_with("a mutex is unlocked by a thread that does not hold it");
        _owner = -1;
        s.progress();
        s.wake(this, Sched::BLOCKED, true);
        s.yield();
    }
    void lock_shared() { lock(); }
    bool try_lock_shared() { return try_lock(); }
    void unlock_shared() { unlock(); }
    void release_for_wait() {
        Sched& s = Sched::get();
        if (_owner != id()) s.fail_with("a condition is waited for without holding the mutex");
        _owner = -1;
        s.progress();
        s.wake(this, Sched::BLOCKED, true);
    }
    void relock() { while (_owner != -1) Sched::get().block(this, Sched::BLOCKED); _owner = id(); }
private:
    static int id() { int c = Sched::get().cur; return c < 0 ? 1000 : c; }
    int _owner, _depth;
};
class SchedRecursiveMutex {
public:
    SchedRecursiveMutex() : _by(-1), _depth(0) {}
    void lock() { if (_depth && _by == id()) { ++_depth; return; } _m.lock(); _by = id(); _depth = 1; }
    bool try_lock() { if (_depth && _by == id()) { ++_depth; return true; } if (!_m.try_lock()) return false; _by = id(); _depth = 1; return true; }
    void unlock() { if (--_depth == 0) { _by = -1; _m.unlock(); } }
    void release_for_wait() { _saved = _depth; _depth = 0; _by = -1; _m.release_for_wait(); }
    void relock() { _m.relock(); _by = id(); _depth = 1; }
private:
    static int id() { return Sched::get().cur; }
    SchedMutex _m;
    int _by, _depth, _saved;
};
class SchedCv {
public:
    SchedCv() {}
    SchedCv(const SchedCv&) = delete;
    SchedCv& operator=(const SchedCv&) = delete;
    template<typename L> void wait(L& l) { sleep(l, Sched::WAITING); }
    template<typename L, typename P> void wait(L& l, P p) { while (!p()) wait(l); }
    template<typename L, typename D> std::cv_status wait_for(L& l, const D&) { return sleep(l, Sched::TIMED) ? std::cv_status::timeout : std::cv_status::no_timeout; }
    template<typename L, typename D, typename P> bool wait_for(L& l, const D& d, P p) { while (!p()) if (wait_for(l, d) == std::cv_status::timeout) return p(); return true; }
    template<typename L, typename D> std::cv_status wait_until(L& l, const D& d) { return wait_for(l, d); }
    template<typename L, typename D, typename P> bool wait_until(L& l, const D& d, P p) { return wait_for(l, d, p); }
    void notify_one() noexcept { Sched& s = Sched::get(); s.yield(); s.wake(this, Sched::WAITING, false); s.progress(); s.yield(); }
    void notify_all() noexcept { Sched& s = Sched::get(); s.yield(); s.wake(this, Sched::WAITING, true); s.progress(); s.yield(); }
private:
    template<typename L> bool sleep(L& l, Sched::State st) {
        Sched& s = Sched::get();
        s.yield();
        l.mutex()->release_for_wait();
        s.block(this, st);
        bool t = s.timed_out();
        l.mutex()->relock();
        return t;
    }
};
class SchedFlag {
public:
    SchedFlag(bool b = false) noexcept : _b(b) {}
    SchedFlag(const SchedFlag&) = delete;
    SchedFlag& operator=(const SchedFlag&) = delete;
    bool test_and_set(int = 0) noexcept { return set(); }
    template<typename O> bool test_and_set(O) noexcept { return set(); }
    void clear() noexcept { reset(); }
    template<typename O> void clear(O) noexcept { reset(); }
    bool test() const noexcept { return look(); }
    template<typename O> bool test(O) const noexcept { return look(); }
private:
    bool set() { Sched& s = Sched::get(); s.yield(); bool o = _b; _b = true; if (o) s.failed_attempt(); return o; }
    void reset() { Sched& s = Sched::get(); s.yield(); _b = false; s.progress(); s.yield(); }
    bool look() const { Sched& s = Sched::get(); s.yield(); bool b = _b; if (b) s.failed_attempt(); return b; }
    bool _b;
};
template<typename T> class SchedAtomic {
public:
    SchedAtomic() noexcept : _v() {}
    SchedAtomic(T v) noexcept : _v(v) {}
    SchedAtomic(const SchedAtomic&) = delete;
    SchedAtomic& operator=(const SchedAtomic&) = delete;
    T operator=(T v) noexcept { store(v); return v; }
    operator T() const noexcept { return load(); }
    template<typename... O> T load(O...) const noexcept { Sched::get().yield(); T v = _v; if (_same++ > 3) { _same = 0; Sched::get().failed_attempt(); } return v; }
    template<typename... O> void store(T v, O...) noexcept { pt(); _v = v; Sched::get().progress(); Sched::get().yield(); }
    template<typename... O> T exchange(T v, O...) noexcept { pt(); T o = _v; _v = v; if (!(o == v)) Sched::get().progress(); else Sched::get().failed_attempt(); return o; }
    template<typename... O> bool compare_exchange_strong(T& e, T d, O...) noexcept { pt(); if (_v == e) { _v = d; Sched::get().progress(); return true; } e = _v; Sched::get().failed_attempt(); return false; }
    template<typename... O> bool compare_exchange_weak(T& e, T d, O...) noexcept { return compare_exchange_strong(e, d); }
    template<typename U, typename... O> T fetch_add(U x, O...) noexcept { pt(); T o = _v; _v = (T)(_v + x); Sched::get().progress(); return o; }
    template<typename U, typename... O> T fetch_sub(U x, O...) noexcept { pt(); T o = _v; _v = (T)(_v - x); Sched::get().progress(); return o; }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    bool is_lock_free() const noexcept { return true; }
private:
    void pt() { Sched::get().yield(); _same = 0; }
    T _v;
    mutable int _same = 0;
};

}  // namespace pbt
namespace std {
using pbt_mutex = pbt::SchedMutex;
using pbt_shared_mutex = pbt::SchedMutex;
using pbt_timed_mutex = pbt::SchedMutex;
using pbt_shared_timed_mutex = pbt::SchedMutex;
using pbt_recursive_mutex = pbt::SchedRecursiveMutex;
using pbt_recursive_timed_mutex = pbt::SchedRecursiveMutex;
using pbt_atomic_bool = pbt::SchedAtomic<bool>;
using pbt_atomic_int = pbt::SchedAtomic<int>;
using pbt_atomic_uint = pbt::SchedAtomic<unsigned>;
using pbt_atomic_long = pbt::SchedAtomic<long>;
using pbt_atomic_size_t = pbt::SchedAtomic<size_t>;
using pbt_condition_variable = pbt::SchedCv;
using pbt_condition_variable_any = pbt::SchedCv;
using pbt_atomic_flag = pbt::SchedFlag;
template<typename T> using pbt_atomic = pbt::SchedAtomic<T>;
}  // namespace std
#endif
