// C20: containers and their allocators: a ledger of blocks, arenas, injected allocation failures.
#include <cstdlib>
#include <new>
#include "efp.hpp"
#define AllocatorTraits OwnAllocatorTraits   // hosted builds already have another definition of the name
#include "efp/allocator.hpp"
#undef AllocatorTraits
#include "pbt.hpp"
#include "elem.hpp"
#include <memory>
using namespace pbt;

const char* const pbt_name = "c20_alloc";
const char* const pbt_rule = "";

// ---- every global allocation is counted
static long g_new;
static int g_lib;   // counted only inside calls of the library
void* operator new(size_t n) { g_new += g_lib; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { g_new += g_lib; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { g_new += g_lib; return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { g_new += g_lib; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ---- ledger
struct Block { char* p; size_t count, bytes; int arena; };
static Block g_blocks[64];
static int g_nblocks;
static int g_arena;        // of allocators built by default
static unsigned g_used;    // arenas blocks were taken from
static long g_taken;
static int g_fail_in;      // allocations until one fails; <0: never
struct Refused {};
static const size_t PAD = 32;
static const unsigned char CANARY = 0xC5;

static void* take(size_t count, size_t size, int arena) {
    if (g_fail_in == 0) { g_fail_in = -1; throw Refused(); }
    if (g_fail_in > 0) --g_fail_in;
    if (g_nblocks == 64) { flag("harness: ledger full"); throw Refused(); }
    if (count > 1000000) { flag("an absurd number of elements was requested"); throw Refused(); }
    size_t bytes = count * size;
#ifdef PBT_ASAN
    size_t pad = 0;
#else
    size_t pad = PAD;
#endif
    char* raw = (char*)malloc(bytes + 2 * pad + (bytes == 0));
    memset(raw, CANARY, bytes + 2 * pad);
    Block b = {raw + pad, count, bytes, arena};
    g_blocks[g_nblocks++] = b;
    ++g_taken;
    if (arena >= 0) g_used |= 1u << arena;
    return raw + pad;
}
static void give(void* p, size_t count, int arena) {
    for (int i = 0; i < g_nblocks; ++i) {
        Block& b = g_blocks[i];
        if (b.p != p) continue;
        if (b.count != count) flag("a block was given back with another element count than requested");
        if (b.arena != arena) flag("a block was given back to an allocator that is not equal to the one it is from");
#ifdef PBT_ASAN
        free(b.p);
#else
        for (size_t k = 0; k < PAD; ++k)
            if ((unsigned char)b.p[-1 - (long)k] != CANARY || (unsigned char)b.p[b.bytes + k] != CANARY) { flag("memory outside a requested block was written"); break; }
        memset(b.p, 0xDD, b.bytes);
        free(b.p - PAD);
#endif
        b = g_blocks[--g_nblocks];
        return;
    }
    flag(p ? "a block was given back that was not taken, or twice" : "a null block was given back");
}

// stateful, with the full interface of C++11 allocators left to the traits
template<typename T> struct Stateful {
    typedef T value_type;
    int arena;
    Stateful() : arena(g_arena) {}
    explicit Stateful(int a) : arena(a) {}
    Stateful(const Stateful& o) : arena(o.arena) {}
    template<typename U> Stateful(const Stateful<U>& o) : arena(o.arena) {}
    Stateful& operator=(const Stateful& o) { arena = o.arena; return *this; }
    T* allocate(size_t n) { return (T*)take(n, sizeof(T), arena); }
    void deallocate(T* p, size_t n) { give(p, n, arena); arena += 0; }
    template<typename U> bool operator==(const Stateful<U>& o) const { return arena == o.arena; }
    template<typename U> bool operator!=(const Stateful<U>& o) const { return arena != o.arena; }
    static const char* name() { return "stateful"; }
    static bool ledger() { return true; }
    static bool arenas() { return true; }
};
// stateless, with own construct and destroy
static long g_built, g_destroyed;
template<typename T> struct Stateless {
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference;
    typedef size_t size_type; typedef ptrdiff_t difference_type;
    template<typename U> struct rebind { typedef Stateless<U> other; };
    Stateless() {}
    template<typename U> Stateless(const Stateless<U>&) {}
    T* allocate(size_t n) { return (T*)take(n, sizeof(T), -1); }
    void deallocate(T* p, size_t n) { give(p, n, -1); }
    template<typename U, typename... A> void construct(U* p, A&&... a) { new ((void*)p) U(std::forward<A>(a)...); ++g_built; }
    template<typename U> void destroy(U* p) { p->~U(); ++g_destroyed; }
    size_t max_size() const { return 12345; }
    template<typename U> bool operator==(const Stateless<U>&) const { return true; }
    template<typename U> bool operator!=(const Stateless<U>&) const { return false; }
    static const char* name() { return "stateless"; }
    static bool ledger() { return true; }
    static bool arenas() { return false; }
};
// the library's own
template<typename T> struct Own : efp::Allocator<T> {
    template<typename U> struct rebind { typedef Own<U> other; };
    Own() {}
    template<typename U> Own(const Own<U>&) {}
    bool operator==(const Own&) const { return true; }
    bool operator!=(const Own&) const { return false; }
    static const char* name() { return "efp::Allocator"; }
    static bool ledger() { return false; }
    static bool arenas() { return false; }
};

static void settle(const char* what) { if (!pending().empty()) fail(std::string(what) + ": " + pending()); }
struct Lib { Lib() { ++g_lib; } ~Lib() { --g_lib; } };
#define LIB(x) do { Lib lib_; x; } while (0)
static void quiet(bool on, const char* what) { long n = g_new; g_new = 0; settle(what); if (on && n) fail(std::string(what) + ": memory was taken from elsewhere than the allocator"); }
static Block* block_of(const void* p) {
    for (int i = 0; i < g_nblocks; ++i) if ((const char*)p >= g_blocks[i].p && (const char*)p < g_blocks[i].p + (g_blocks[i].bytes ? g_blocks[i].bytes : 1)) return &g_blocks[i];
    return nullptr;
}

enum { K = 3, ARENAS = 3 };
template<typename E, template<typename> class Al> struct Vectors {
    typedef Al<E> A;
    typedef efp::Vector<E, A> V;
    Src& s;
    std::unique_ptr<V> v[K];
    std::vector<int> m[K];
    unsigned ok[K];    // arenas the storage may be from
    Vectors(Src& s_) : s(s_) {}
    static unsigned bit(int a) { return 1u << a; }
    void check(int i, const char* what) {
        settle(what);
        if (!v[i]) return;
        V& x = *v[i];
        const V& c = x;
        PCHECK(c.size() == m[i].size() && c.empty() == m[i].empty(), what << ": v" << i << " has " << c.size() << " elements, expected " << show(m[i]));
        for (size_t k = 0; k < m[i].size(); ++k) PCHECK(El<E>::val(c[k]) == El<E>::val(El<E>::make(m[i][k])), what << ": v" << i << "[" << k << "] is " << El<E>::val(c[k]) << ", expected " << show(m[i]));
        PCHECK(c.begin() == c.data() && c.end() == c.data() + c.size(), what << ": iteration range");
        PCHECK(c.capacity() >= c.size(), what << ": capacity " << c.capacity() << " below size " << c.size());
        if (A::ledger() && c.data()) {
            Block* b = block_of(c.data());
            PCHECK(b && b->p == (const char*)c.data(), what << ": the storage of v" << i << " is not a block of the allocator");
            PCHECK(c.capacity() <= b->count, what << ": capacity " << c.capacity() << " exceeds the block of " << b->count << " elements");
            if (A::arenas()) PCHECK(ok[i] & bit(b->arena), what << ": the storage of v" << i << " is from another allocator (" << b->arena << ") than its own");
        }
    }
    void fresh(int i, bool copyOf, int j, unsigned how) {
        std::vector<int> w;
        int n = s.range(0, 5);
        for (int k = 0; k < n; ++k) w.push_back(s.range(-9, 9));
        g_arena = s.draw(ARENAS);
        v[i].reset();
        void* mem = operator new(sizeof(V));
        if (!copyOf) switch (how) { case 0: w.clear(); break; case 1: if (n > 2) w.resize(2); break; case 2: w.resize(3); default: break; }
        V* p = nullptr;
        if (A::ledger() && s.chance(1, 8)) g_fail_in = 0;
        try {
            Lib lib_;
            if (copyOf) { p = how ? new (mem) V(efp::move(*v[j])) : new (mem) V(*v[j]); }
            else switch (how) {
                case 0: p = new (mem) V(); break;
                case 1: p = n == 0 ? new (mem) V(std::initializer_list<E>()) : n == 1 ? new (mem) V({El<E>::make(w[0])}) : new (mem) V({El<E>::make(w[0]), El<E>::make(w[1])}); break;
                case 2: { efp::Array<E, 3> a{El<E>::make(w[0]), El<E>::make(w[1]), El<E>::make(w[2])}; p = new (mem) V(a); break; }
                default: { efp::ArrVec<E, 8> a; for (int x : w) a.push_back(El<E>::make(x)); p = new (mem) V(a); }
            }
        } catch (const Refused&) {
            s.label("construction refused");
            PLOG(s, "constructing v" << i << " failed");
            operator delete(mem);
            g_fail_in = -1;
            return;
        }
        g_fail_in = -1;
        quiet(A::ledger(), "constructing");
        v[i].reset(p);
        if (copyOf) { ok[i] = ok[j]; m[i] = m[j]; if (how) m[j].clear(); }
        else { ok[i] = bit(g_arena); m[i] = w; }
        PLOG(s, "v" << i << (copyOf ? how ? " moved from v" : " copied from v" : " built, way ") << (copyOf ? j : (int)how) << " (arena " << g_arena << "): " << show(m[i]));
    }
    void step() {
        int i = s.draw(K), j = s.draw(K);
        if (!v[i]) {
            if (v[j] && s.flip()) fresh(i, true, j, s.draw(2)); else fresh(i, false, 0, s.draw(4));
            check(i, "construct");
            return;
        }
        V& x = *v[i];
        std::vector<int>& w = m[i];
        int val = s.range(-9, 9);
        g_arena = s.draw(ARENAS);
        bool inject = A::ledger() && s.chance(1, 8);
        unsigned op = s.draw(16);
        static const char* const N[] = {"push_back", "push_back", "push_back rvalue", "emplace_back", "insert", "erase", "pop_back", "resize", "reserve", "shrink_to_fit", "clear", "copy assign", "move assign", "destroy", "push_back own", "self assign"};
        PLOG(s, "v" << i << " " << N[op] << " " << val << (op == 11 || op == 12 ? " with v" + std::to_string(j) : std::string()) << (inject ? ", next allocation fails" : ""));
        bool growing = op <= 4 || op == 7 || op == 8 || op == 9 || op == 11 || op == 14;
        if (inject && growing) g_fail_in = 0; else inject = false;
        E e = El<E>::make(val);
        std::vector<int> before = w;
        g_used = 0;
        try {
            switch (op) {
                case 0: case 1: { const E& ce = e; LIB(x.push_back(ce)); w.push_back(val); break; }
                case 2: LIB(x.push_back(efp::move(e))); w.push_back(val); break;
                case 3: LIB(x.emplace_back(val)); w.push_back(val); break;
                case 4: { size_t k = s.draw(w.size() + 1); LIB(x.insert(k, e)); w.insert(w.begin() + k, val); break; }
                case 5: if (!w.empty()) { size_t k = s.draw(w.size()); LIB(x.erase(k)); w.erase(w.begin() + k); } break;
                case 6: if (!w.empty()) { LIB(x.pop_back()); w.pop_back(); } break;
                case 7: { size_t n = s.chance(1, 12) ? s.big(600) : s.draw(w.size() + 6); LIB(x.resize(n)); w.resize(n); break; }
                case 8: { size_t n = s.chance(1, 12) ? s.big(5000) : s.draw(2 * w.size() + 8); LIB(x.reserve(n)); PCHECK(x.capacity() >= n, "capacity below what was reserved"); break; }
                case 9: LIB(x.shrink_to_fit()); break;
                case 10: LIB(x.clear()); w.clear(); break;
                case 11: if (v[j]) { LIB(x = *v[j]); w = m[j]; ok[i] |= ok[j]; s.label("copy assignment"); } break;
                case 12: if (v[j] && i != j) { LIB(x = efp::move(*v[j])); w = m[j]; m[j].clear(); ok[i] |= ok[j]; ok[j] |= ok[i]; s.label("move assignment"); } break;
                case 13: LIB(v[i].reset()); w.clear(); break;
                case 14: if (!w.empty()) { size_t k = s.draw(w.size()); if (s.flip()) { LIB(x.push_back(x[k])); w.push_back(w[k]); } else { LIB(x.insert(0, x[k])); w.insert(w.begin(), w[k]); } } break;
                default: { V& y = x; if (s.flip()) { LIB(x = y); } else { LIB(x = efp::move(y)); } }
            }
        } catch (const Refused&) {
            PCHECK(inject, N[op] << ": the allocator's error came out of nowhere");
            s.label("allocation refused");
            w = before;
            if (op == 11) {   // assignment: only that the error arrives and the vector stays usable
                s.label("assignment refused");
                PCHECK(x.size() <= before.size(), "a refused assignment left " << x.size() << " elements");
                w.clear();
                for (size_t k = 0; k < x.size(); ++k) w.push_back(El<E>::val(x[k]));
            }
        }
        g_fail_in = -1;
        quiet(A::ledger(), N[op]);
        if (A::arenas()) PCHECK(!(g_used & ~(op == 12 ? ok[i] | ok[j] : ok[i])), N[op] << ": memory was taken from another allocator than that of v" << i);
        for (int k = 0; k < K; ++k) check(k, N[op]);
        if (v[j] && v[i]) PCHECK((*v[i] == *v[j]) == (m[i] == m[j]), "equality of v" << i << " and v" << j);
    }
    void run() {
        PLOG(s, "vectors of " << El<E>::name() << ", " << A::name() << " allocator");
        s.label(A::name());
        int n = s.range(1, 40);
        for (int k = 0; k < n && !s.exhausted(); ++k) step();
        if (n >= 4 && (g_taken > 2 || !A::ledger())) s.nontrivial();
        for (int i = 0; i < K; ++i) v[i].reset();
        settle("destroying");
        PCHECK(g_nblocks == 0, g_nblocks << " blocks were not given back");
    }
};

template<typename C, template<typename> class Al> struct Strings {
    typedef Al<C> A;
    typedef efp::Vector<C, A> V;
    typedef std::basic_string<C> S;
    Src& s;
    std::unique_ptr<V> v[K];
    S m[K];
    unsigned ok[K];
    Strings(Src& s_) : s(s_) {}
    S gen(size_t max) { S r; size_t n = s.draw(max + 1); for (size_t i = 0; i < n; ++i) r += (C)('a' + s.draw(4)); return r; }
    static std::string sh(const S& x) { std::string r = "\""; for (C c : x.substr(0, 80)) r += (char)c; return r + (x.size() > 80 ? "\"... of " + std::to_string(x.size()) : "\""); }
    void check(int i, const char* what) {
        settle(what);
        if (!v[i]) return;
        const V& c = *v[i];
        PCHECK(c.size() == m[i].size(), what << ": s" << i << " has " << c.size() << " characters, expected " << sh(m[i]));
        for (size_t k = 0; k < m[i].size(); ++k) PCHECK(c[k] == m[i][k], what << ": s" << i << " differs from " << sh(m[i]) << " at " << k);
        const C* z = c.c_str();
        PCHECK(z[m[i].size()] == C(0) && S(z, m[i].size()) == m[i], what << ": c_str of s" << i);
        if (A::ledger() && c.data()) {
            Block* b = block_of(c.data());
            PCHECK(b && b->p == (const char*)c.data(), what << ": the storage of s" << i << " is not a block of the allocator");
            PCHECK(c.capacity() <= b->count && c.size() < b->count, what << ": capacity " << c.capacity() << " and size " << c.size() << " of a block of " << b->count);
            if (A::arenas()) PCHECK(ok[i] & (1u << b->arena), what << ": the storage of s" << i << " is from another allocator (" << b->arena << ") than its own");
        }
    }
    A with(int a, Stateful<C>*) { return A(a); }
    A with(int, void*) { return A(); }
    void step() {
        int i = s.draw(K), j = s.draw(K);
        g_arena = s.draw(ARENAS);
        int a = s.draw(ARENAS);
        if (!v[i]) {
            S w = gen(6);
            unsigned how = s.draw(9);
            void* mem = operator new(sizeof(V));
            V* p = nullptr;
            ok[i] = 1u << g_arena;
            A al = with(a, (A*)nullptr);
            if ((how == 5 || how == 6) && !v[j]) how = 0;
            ++g_lib;
            switch (how) {
                case 0: p = new (mem) V(); break;
                case 1: p = new (mem) V(w.c_str()); break;
                case 2: p = new (mem) V(w.c_str(), w.size(), al); ok[i] = 1u << a; break;
                case 3: p = new (mem) V(w.begin(), w.end(), al); ok[i] = 1u << a; break;
                case 4: p = new (mem) V(w.size(), (C)'z'); break;
                case 5: p = new (mem) V(*v[j]); ok[i] = ok[j]; break;
                case 6: p = new (mem) V(efp::move(*v[j])); ok[i] = ok[j]; break;
                case 7: { efp::ArrVec<C, 8> t; for (C c : w) t.push_back(c); p = new (mem) V(t); break; }
                default: { efp::Array<C, 2> t{(C)'p', (C)'q'}; p = new (mem) V(t); }
            }
            --g_lib;
            quiet(A::ledger(), "constructing");
            if (how == 0) w.clear();
            if (how == 4) w.assign(w.size(), (C)'z');
            if (how == 8) { w.clear(); w += (C)'p'; w += (C)'q'; }
            if (how == 5 || how == 6) w = m[j];
            if (how == 6) m[j].clear();
            m[i] = w;
            v[i].reset(p);
            PLOG(s, "s" << i << " built, way " << how << ", default arena " << g_arena << ", given arena " << a << ": " << sh(w));
            check(i, "construct"); if (v[j]) check(j, "construct");
            return;
        }
        V& x = *v[i];
        S& w = m[i];
        unsigned op = s.draw(13);
        if ((op == 2 || op == 12) && w.size() + (v[j] ? m[j].size() : 0) > 20000) op = 7;
        S t = s.chance(1, 30) ? gen(0) + S(s.big(5000), (C)'y') : gen(s.flip() ? 4 : 20);
        size_t pos = s.draw(w.size() + 1), len = s.chance(1, 30) && (op == 1 || op == 6 || op == 7) ? s.big(2000) : s.draw(6), grow = len == 2 ? s.draw(5) : 0;
        C c = (C)('k' + s.draw(3));
        static const char* const N[] = {"append", "append n", "+=", "insert", "insert n", "assign", "assign n", "substr", "copy assign", "move assign", "push/pop/resize/shrink", "destroy", "self"};
        PLOG(s, "s" << i << " " << N[op] << " " << sh(t) << " pos " << pos << " len " << len << " other " << j);
        g_used = 0;
        ++g_lib;
        switch (op) {
            case 0: x.append(t.c_str()); break;
            case 1: x.append(len, c); break;
            case 2: if (v[j]) x += *v[j]; break;
            case 3: x.insert(pos, t.c_str()); break;
            case 4: x.insert(pos, t.c_str(), std::min(len, t.size())); break;
            case 5: x.assign(t.c_str()); break;
            case 6: x.assign(len, c); break;
            case 7: { V y = x.substr(pos, len); g_lib = 0; PCHECK(y.size() == w.substr(pos, len).size() && S(y.data(), y.size()) == w.substr(pos, len), "substr"); g_lib = 1; break; }
            case 8: if (v[j]) { x = *v[j]; ok[i] |= ok[j]; } break;
            case 9: if (v[j] && i != j) { x = efp::move(*v[j]); ok[i] |= ok[j]; ok[j] |= ok[i]; } break;
            case 10: if (len == 0) x.push_back(c); else if (len == 1) { if (!w.empty()) x.pop_back(); } else if (len == 2) x.resize(pos + grow); else if (len == 3) x.shrink_to_fit(); else if (len == 4) x.reserve(pos + 9); else x.clear(); break;
            case 11: v[i].reset(); break;
            default: if (len & 1) { V& y = x; x = y; } else { V& y = x; x += y; }
        }
        --g_lib;
        quiet(A::ledger(), N[op]);
        if (A::arenas() && op != 7) PCHECK(!(g_used & ~ok[i]), N[op] << ": memory was taken from another allocator than that of s" << i);
        switch (op) {
            case 0: w += t; break;
            case 1: w.append(len, c); break;
            case 2: if (v[j]) { S o = m[j]; w += o; } break;
            case 3: w.insert(pos, t); break;
            case 4: w.insert(pos, t, 0, std::min(len, t.size())); break;
            case 5: w = t; break;
            case 6: w.assign(len, c); break;
            case 8: if (v[j]) w = m[j]; break;
            case 9: if (v[j] && i != j) { w = m[j]; m[j].clear(); } break;
            case 10: if (len == 0) w += c; else if (len == 1) { if (!w.empty()) w.erase(w.size() - 1); } else if (len == 2) w.resize(pos + grow); else if (len >= 5) w.clear(); break;
            case 12: if (!(len & 1)) { S o = w; w += o; } break;
            default: break;
        }
        for (int k = 0; k < K; ++k) check(k, N[op]);
    }
    void run() {
        PLOG(s, "strings, " << A::name() << " allocator");
        s.label("strings");
        s.label(A::name());
        int n = s.range(1, 30);
        for (int k = 0; k < n && !s.exhausted(); ++k) step();
        if (n >= 4) s.nontrivial();
        for (int i = 0; i < K; ++i) v[i].reset();
        settle("destroying");
        PCHECK(g_nblocks == 0, g_nblocks << " blocks were not given back");
    }
};

// the freestanding traits over any allocator
static void own_traits(Src& s) {
    s.label("freestanding traits");
    typedef efp::Allocator<Tracked> A;
    typedef efp::OwnAllocatorTraits<A> T;
    A al;
    size_t n = s.range(1, 9);
    int val = s.range(-9, 9);
    Tracked* p = T::allocate(al, n);
    size_t built = s.draw(n + 1);
    for (size_t k = 0; k < built; ++k) { Tracked e(val + (int)k); if (s.flip()) T::construct(al, p + k, e); else T::construct(al, p + k, efp::move(e)); }
    for (size_t k = 0; k < built; ++k) PCHECK(El<Tracked>::val(p[k]) == val + (int)k, "element built by the freestanding allocator");
    for (size_t k = 0; k < built; ++k) T::destroy(al, p + k);
    T::deallocate(al, p, n);
    PCHECK(T::max_size(al) == size_t(-1) / sizeof(Tracked), "max_size");
    efp::Vector<int, Stateless<int>> v;
    PCHECK(v.max_size() == 12345, "max_size of a vector is not its allocator's");
    settle("freestanding traits");
}

void pbt_reset() { reset_tracked(); g_lib = 0; g_new = 0; g_nblocks = 0; g_taken = 0; g_fail_in = -1; g_arena = 0; g_used = 0; }
void pbt_case(Src& s) {
    switch (s.draw(12)) {
        case 0: case 1: { Vectors<int, Stateful> x(s); x.run(); break; }
        case 2: case 3: { Vectors<Tracked, Stateful> x(s); x.run(); break; }
        case 4: { Vectors<int, Stateless> x(s); x.run(); break; }
        case 5: { g_built = g_destroyed = 0; Vectors<Tracked, Stateless> x(s); x.run(); PCHECK(g_built == g_destroyed, g_built << " elements built and " << g_destroyed << " destroyed through the allocator"); break; }
        case 6: { Vectors<unsigned char, Stateful> x(s); x.run(); break; }
        case 7: { Vectors<Tracked, Own> x(s); x.run(); break; }
        case 8: { Strings<char, Stateful> x(s); x.run(); break; }
        case 9: { Strings<char32_t, Stateful> x(s); x.run(); break; }
        case 10: { Strings<char, Stateless> x(s); x.run(); break; }
        default: own_traits(s);
    }
}
void pbt_end(Src&) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
