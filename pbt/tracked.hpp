// Element type that polices its own lifetime: every construction, assignment, read and
// destruction is checked against a table of live addresses.
#ifndef PBT_TRACKED_HPP_
#define PBT_TRACKED_HPP_
#include "pbt.hpp"

namespace pbt {

// Table of addresses: a small one (fast to walk), a large one once that is half full
struct Registry {
    static const size_t SMALL = 1 << 16, LARGE = 1 << 23;
    const void** slot;
    size_t mask;
    size_t live;
    constexpr Registry(const void** s) : slot(s), mask(SMALL - 1), live(0) {}
    static const void** large() { static const void* a[LARGE]; return a; }
    static Registry& get() { static const void* a[SMALL]; static Registry r(a); return r; }
    size_t h(const void* p) const { return (size_t)(mix((uint64_t)(uintptr_t)p) & mask); }
    bool has(const void* p) const {
        for (size_t i = h(p);; i = (i + 1) & mask) {
            if (slot[i] == p) return true;
            if (slot[i] == nullptr) return false;
        }
    }
    void put(const void* p) {
        size_t i = h(p);
        while (slot[i] != nullptr) i = (i + 1) & mask;
        slot[i] = p;
    }
    void add(const void* p) {
        if (live * 2 > mask) {
            if (mask + 1 == LARGE) { flag("harness: too many live elements"); return; }
            const void** old = slot;
            slot = large();
            mask = LARGE - 1;
            for (size_t i = 0; i < SMALL; ++i)
                if (old[i]) { put(old[i]); old[i] = nullptr; }
            home() = old;
        }
        put(p);
        ++live;
    }
    static const void**& home() { static const void** a = nullptr; return a; }
    void del(const void* p) {
        size_t i = h(p);
        while (slot[i] != p) i = (i + 1) & mask;
        --live;
        // backward-shift deletion
        size_t j = i;
        for (;;) {
            slot[i] = nullptr;
            for (;;) {
                j = (j + 1) & mask;
                if (slot[j] == nullptr) return;
                size_t k = h(slot[j]);
                if (i <= j ? !(i < k && k <= j) : !(i < k || k <= j)) break;
            }
            slot[i] = slot[j];
            i = j;
        }
    }
    void clear() {
        if (live) memset((void*)slot, 0, (mask + 1) * sizeof *slot);
        live = 0;
        shrink();
    }
    // back to the small table, both being empty
    void shrink() { if (!live && home()) { slot = home(); mask = SMALL - 1; home() = nullptr; } }
};

struct Tracked {
    int v;
    static const int MOVED = -77777777;

    Tracked() : v(0) { born(); }
    Tracked(int x) : v(x) { born(); }
    Tracked(const Tracked& o) : v(0) { o.used("copied"); v = o.v; born(); }
    Tracked(Tracked&& o) noexcept : v(0) { o.used("moved"); v = o.v; o.v = MOVED; born(); }
    Tracked& operator=(const Tracked& o) {
        used("assigned to"); o.used("copy-assigned from");
        v = o.v;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept {
        used("assigned to"); o.used("move-assigned from");
        if (this != &o) { v = o.v; o.v = MOVED; }
        return *this;
    }
    ~Tracked() {
        Registry& r = Registry::get();
        if (!r.has(this)) flag("element destroyed that is not alive");
        else r.del(this);
        v = -66666666;
    }
    int get() const { used("read"); return v; }
    void used(const char* how) const {
        if (!Registry::get().has(this)) { std::string m("element "); m += how; m += " while not alive"; flag(m.c_str()); }
    }
    friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
    friend bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
    friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
private:
    void born() {
        Registry& r = Registry::get();
        if (r.has(this)) flag("element constructed over a live element");
        else r.add(this);
    }
};

inline size_t live_tracked() { return Registry::get().live; }
inline void reset_tracked() { Registry::get().clear(); }

}  // namespace pbt
#endif
