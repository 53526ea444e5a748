// C13: every sort against a stable reference sort, with tagged elements.
#include "efp.hpp"
#include <chrono>
#include "efp/sort.hpp"
#include "pbt.hpp"
#include "elem.hpp"
using namespace pbt;

const char* const pbt_name = "c13_sort";
const char* const pbt_rule = "";

// key and tag; ordered by key only, so that ties can be told apart
struct Rec {
    int key, tag;
    Tracked t;   // owns its lifetime
    Rec() : key(0), tag(-1), t(0) {}
    Rec(int k, int g) : key(k), tag(g), t(k) {}
    friend bool operator<(const Rec& a, const Rec& b) { return a.t < b.t; }
};
struct Pod {
    int key, tag;
    Pod() : key(0), tag(-1) {}
    Pod(int k, int g) : key(k), tag(g) {}
    friend bool operator<(const Pod& a, const Pod& b) { return a.key < b.key; }
};
static int key_of(const Rec& r) { return r.key == r.t.get() ? r.key : -999999999; }
static int key_of(const Pod& r) { return r.key; }

struct Ord {
    int how;
    long long rank(int k) const {
        switch (how) {
            case 0: return k;
            case 1: return -(long long)k;
            case 2: return ((k % 5) + 5) % 5;
            case 3: return k < 0 ? -(long long)k : k;
            case 4: return 0;                       // everything equal
            default: return (long long)(mix((unsigned)k) % 1000);
        }
    }
    bool operator()(int a, int b) const { return rank(a) < rank(b); }
};
struct Key { int key, tag; };

static std::vector<int> keys(Src& s) {
    size_t n;
    switch (s.draw(8)) {
        case 0: n = s.draw(6); break;
        case 1: n = s.range(28, 36); break;
        case 2: n = s.range(60, 68); break;
        case 3: n = s.draw(34); break;
        case 4: n = s.range(90, 132); break;
        case 5: n = s.draw(200); break;
        case 6: n = s.draw(100); break;
        default: n = s.chance(1, 1500) ? s.range(2500, 10000) : s.chance(1, 10) ? ((size_t)1 << (5 + s.draw(6))) * (1 + 2 * s.chance(1, 3)) - 2 + s.draw(5) : s.chance(1, 40) ? s.range(700, 2500) : s.chance(1, 8) ? s.range(250, 700) : s.draw(70);
    }
    std::vector<int> v(n);
    int shape = s.draw(9), span = s.flip() ? 5 : 1000, per = 1 + (int)s.draw(40);
    // contents come from one choice (expanded), with some single changes drawn one by one
    unsigned long long h = s.draw(1ull << 32);
    for (size_t i = 0; i < n; ++i) {
        int r = (int)(mix(h + i) % (unsigned)span) - span / 2;
        switch (shape) {
            case 0: case 1: v[i] = r; break;
            case 2: v[i] = (int)i; break;
            case 3: v[i] = (int)(n - i); break;
            case 4: v[i] = (int)i % per; break;
            case 5: v[i] = -((int)i % per); break;
            case 6: v[i] = (int)(i < n / 2 ? i : n - i); break;
            case 7: v[i] = (int)(i / per); break;
            default: v[i] = i + 1 < n ? (int)i : -1;
        }
    }
    if (shape == 2 || shape == 8 || shape == 7) for (int k = s.draw(4); k > 0 && n > 0; --k) v[s.draw(n)] = s.range(-3, (int)n);
    if (s.chance(1, 10)) for (size_t i = 0; i < n && i < 6; ++i) v[i] = s.ival();
    static const char* const names[] = {"random", "random", "sorted", "reversed", "saw-tooth", "falling saw-tooth", "organ pipe", "steps", "last out of place"};
    s.label(names[shape]);
    s.label(n <= 32 ? "one run" : n <= 64 ? "two runs" : n <= 700 ? "many runs" : n <= 2500 ? "more than 700 elements" : "more than 2500 elements");
    if (n > 32) s.nontrivial();
    return v;
}

template<typename R> struct SortOf {
    typedef efp::Vector<R> V;
    static void run(Src& s) {
        std::vector<int> ks = keys(s);
        size_t n = ks.size();
        int which = s.draw(14);
        if (n > 2500) { static const int fast[] = {0, 1, 3, 7, 8, 10}; which = fast[which % 6]; }  // the others need quadratic time
        Ord o = {0};
        bool by = which < 7;
        if (by) o.how = s.draw(6);
        PLOG(s, "sort " << n << " elements by function " << which << ", ordering " << o.how << ": " << show(ks));
        V v;
        std::vector<Key> ref;
        for (size_t i = 0; i < n; ++i) { v.push_back(R(ks[i], (int)i)); Key k = {ks[i], (int)i}; ref.push_back(k); }
        auto c = [&](const R& a, const R& b) { return o(key_of(a), key_of(b)); };
        bool stable = false;
        const char* name = "";
        // a comparator that takes its arguments by value and uses them up
        auto eat = [&](R a, R b) { R x(std::move(a)), y(std::move(b)); return o(key_of(x), key_of(y)); };
        if (by && n <= 80 && s.chance(1, 6)) { s.label("comparator by value"); switch (which) {
            case 0: name = "sort_by"; efp::sort_by(v, eat); stable = true; break;
            case 1: name = "timsort_by"; efp::timsort_by(v, eat); stable = true; break;
            case 2: name = "insertion_sort_by"; efp::insertion_sort_by(v, eat); stable = true; break;
            case 3: name = "heapsort_by"; efp::heapsort_by(v, eat); break;
            case 4: name = "quicksort_by"; if (n) efp::quicksort_by(v, 0, n - 1, eat); break;
            case 5: name = "merge_sort_by"; if (n) efp::merge_sort_by(v, 0, n - 1, eat); break;
            default: name = "sort_unstable_by"; efp::sort_unstable_by(v, eat);
        } } else switch (which) {
            case 0: name = "sort_by"; efp::sort_by(v, c); stable = true; break;
            case 1: name = "timsort_by"; efp::timsort_by(v, c); stable = true; break;
            case 2: name = "insertion_sort_by"; efp::insertion_sort_by(v, c); stable = true; break;
            case 3: name = "heapsort_by"; efp::heapsort_by(v, c); break;
            case 4: name = "quicksort_by"; if (n) efp::quicksort_by(v, 0, n - 1, c); break;
            case 5: name = "merge_sort_by"; if (n) efp::merge_sort_by(v, 0, n - 1, c); break;
            case 6: name = "sort_unstable_by"; efp::sort_unstable_by(v, c); break;
            case 7: name = "sort"; efp::sort(v); stable = true; break;
            case 8: name = "timsort"; efp::timsort(v); stable = true; break;
            case 9: name = "insertion_sort"; efp::insertion_sort(v); stable = true; break;
            case 10: name = "heapsort"; efp::heapsort(v); break;
            case 11: name = "quicksort"; efp::quicksort(v); break;
            case 12: name = "sort_unstable"; efp::sort_unstable(v); break;
            default: name = "size_trosort"; efp::size_trosort(v);
        }
        s.label(name);
        PCHECK(v.size() == n, name << ": size changed from " << n << " to " << v.size());
        std::vector<bool> seen(n, false);
        for (size_t i = 0; i < n; ++i) {
            int t = v[i].tag;
            PCHECK(t >= 0 && (size_t)t < n && !seen[t], name << ": element " << i << " is lost, invented or doubled (tag " << t << ")");
            seen[t] = true;
            PCHECK(key_of(v[i]) == ks[t], name << ": element " << i << " changed its value");
            if (i) PCHECK(!o(key_of(v[i]), key_of(v[i - 1])), name << ": elements " << i - 1 << " and " << i << " are out of order (" << key_of(v[i - 1]) << ", " << key_of(v[i]) << ")");
        }
        if (stable) {
            std::stable_sort(ref.begin(), ref.end(), [&](const Key& a, const Key& b) { return o(a.key, b.key); });
            for (size_t i = 0; i < n; ++i) PCHECK(v[i].tag == ref[i].tag, name << ": equal elements changed places at " << i << " (element from position " << v[i].tag << ", expected " << ref[i].tag << ")");
        }
        // sorting again changes nothing for the stable ones
        if (stable && s.chance(1, 4)) {
            std::vector<int> tags;
            for (size_t i = 0; i < n; ++i) tags.push_back(v[i].tag);
            efp::sort_by(v, c);
            for (size_t i = 0; i < n; ++i) PCHECK(v[i].tag == tags[i], name << ": sorting a sorted vector moved an element");
        }
    }
};
// a standard type that is swapped by the unqualified-name rules only
namespace pbt {
template<> struct El<std::chrono::milliseconds> {
    static const char* name() { return "std::chrono::milliseconds"; }
    static std::chrono::milliseconds make(int x) { return std::chrono::milliseconds(x); }
};
}
template<typename E> void scalars(Src& s) {
    std::vector<int> ks = keys(s);
    efp::Vector<E> v;
    std::vector<E> ref;
    for (int k : ks) { v.push_back(El<E>::make(k)); ref.push_back(El<E>::make(k)); }
    std::sort(ref.begin(), ref.end());
    int which = s.draw(6);
    if (ks.size() > 2500) which = which % 2 * 2;
    PLOG(s, "sort " << ks.size() << " " << El<E>::name() << " by function " << which);
    switch (which) {
        case 0: efp::sort(v); break;
        case 1: efp::sort_unstable(v); break;
        case 2: efp::heapsort(v); break;
        case 3: efp::quicksort(v); break;
        case 4: efp::insertion_sort(v); break;
        default: if (!ks.empty()) efp::merge_sort_by(v, 0, v.size() - 1, efp::op_lt<E>);
    }
    PCHECK(v.size() == ref.size(), "size changed");
    for (size_t i = 0; i < ref.size(); ++i) PCHECK(v[i] == ref[i], "element " << i << " after sorting by function " << which);
    s.label(El<E>::name());
}

void pbt_case(Src& s) {
    switch (s.draw(9)) {
        case 0: case 1: case 2: SortOf<Pod>::run(s); break;
        case 3: case 4: SortOf<Rec>::run(s); break;
        case 5: scalars<int>(s); break;
        case 6: scalars<std::string>(s); break;
        case 7: scalars<double>(s); break;
        default: scalars<std::chrono::milliseconds>(s);
    }
}
void pbt_reset() { reset_tracked(); }
void pbt_end(Src&) { PCHECK(live_tracked() == 0, live_tracked() << " elements still alive at the end"); }
