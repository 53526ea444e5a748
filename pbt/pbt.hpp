// Choice-sequence property-based testing engine (C++11).
//
// A test case is a pure function of a finite sequence of bounded integer choices
// (Src::draw).  In run mode the choices come from a PRNG keyed by (seed, case index), in
// replay mode from a file, in fuzz mode from libFuzzer's bytes.  Choices drawn are recorded
// in a shared file mapping, so that a case that crashes the process can be recovered,
// shrunk (by deleting and lowering choices) and replayed.
#ifndef PBT_HPP_
#define PBT_HPP_

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace pbt {

struct Fail {
    std::string msg;
    explicit Fail(const std::string& m) : msg(m) {}
};

// shared record of the case under way
static const size_t kMaxChoices = 1 << 16;
struct Shared {
    uint64_t case_index;
    uint64_t n;          // choices recorded
    uint64_t active;     // 1 while a case runs
    uint32_t v[kMaxChoices];
};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Label {
    const char* name;
    uint64_t count;
};

// set while the harness itself works (allocations are not the library's)
inline int& hush() { static int n; return n; }
struct Hush { Hush() { ++hush(); } ~Hush() { --hush(); } };

// text of everything a differential harness saw in the case under way
inline std::string& observed() { static std::string t; return t; }

class Src {
public:
    enum Mode { RANDOM, REPLAY, BYTES };

    Src() : verbose(false), live(false), nontriv(false), _sh(nullptr), _mode(RANDOM), _s(0), _pos(0), _p(nullptr), _np(0), _hash(0), _dead_draws(0) {}

    void attach(Shared* sh) { _sh = sh; }

    void begin_random(uint64_t seed, uint64_t index) {
        _mode = RANDOM;
        _s = mix(seed * 0x2545F4914F6CDD1Dull + mix(index + 1));
        reset(index);
    }
    void begin_replay(const std::vector<uint32_t>* v) {
        _mode = REPLAY;
        _rv = v;
        _pos = 0;
        reset(0);
    }
    void begin_bytes(const uint8_t* p, size_t n) {
        _mode = BYTES;
        _p = p;
        _np = n;
        _pos = 0;
        reset(0);
    }

    // uniform in [0, n); n >= 1, n <= 2^32
    uint32_t draw(uint64_t n) {
        uint32_t x = 0;
        if (n > 1) {
            if (_mode == RANDOM) {
                _s += 0x9e3779b97f4a7c15ull;
                uint64_t z = _s;
                z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
                z ^= z >> 31;
                x = (uint32_t)((n & (n - 1)) == 0 ? (z & (n - 1)) : ((__uint128_t)z * n >> 64));
            } else if (_mode == REPLAY) {
                if (_pos < _rv->size()) x = (uint32_t)((*_rv)[_pos++] % n);
            } else {
                uint64_t raw = 0;
                int k = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
                for (int i = 0; i < k; ++i) raw = raw << 8 | (_pos < _np ? _p[_pos] : 0), ++_pos;
                x = (uint32_t)(raw % n);
            }
        } else if (_mode == REPLAY) {
            if (_pos < _rv->size()) ++_pos;
        }
        if (_sh->n < kMaxChoices) _sh->v[_sh->n++] = x;
        _hash = (_hash ^ x) * 0x100000001b3ull + 0x9e37;
        return x;
    }
    bool exhausted() const {  // fuzz/replay input used up: loops may stop early
        return _mode == BYTES ? _pos >= _np : false;
    }
    bool replaying() const { return _mode == REPLAY; }
    void rewind() { if (_mode == REPLAY) { _pos = 0; _sh->n = 0; } }
    bool flip() { return draw(2) != 0; }
    // true with probability num/den, false is the simple outcome
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo) + 1); }
    uint64_t bits64() { uint64_t a = draw(1ull << 32); return a << 32 | draw(1ull << 32); }

    // A length in [0,max], biased to small values and to max
    size_t len(size_t max) {
        switch (draw(8)) {
            case 0: case 1: return draw(std::min<size_t>(max, 3) + 1);
            case 2: case 3: case 4: return draw(std::min<size_t>(max, 9) + 1);
            case 5: case 6: return draw(max + 1);
            default: return max - draw(std::min<size_t>(max, 2) + 1);
        }
    }
    // A long length up to cap: beyond block, byte and 16-bit counts, the longest ones rare
    size_t big(size_t cap) {
        const unsigned k = draw(64);
        size_t n = k < 32 ? 10 + draw(70) : k < 48 ? 60 + draw(250) : k < 58 ? 250 + draw(900) : k < 63 ? 1000 + draw(4000) : 65000 + draw(5000);
        if (k >= 40 && (k & 1)) {      // next to a power of two
            const size_t p = (size_t)1 << (k >= 63 ? 16 : k >= 58 ? 10 + draw(4) : 6 + draw(5));
            n = p - 2 + draw(5);
        }
        return n < cap ? n : cap;
    }
    // An int biased to small (hence repeated) values with occasional extremes
    int ival() {
        switch (draw(8)) {
            case 0: case 1: case 2: return (int)draw(4);
            case 3: case 4: return range(-10, 10);
            case 5: return range(-1000, 100000);
            case 6: {
                static const int t[] = {0, 1, -1, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536,
                                        2147483647, (-2147483647 - 1), 2147483646, -2147483647};
                return t[draw(sizeof t / sizeof *t)];
            }
            default: return (int)(uint32_t)draw(1ull << 32);
        }
    }

    void label(const char* l) {
        for (size_t i = 0; i < labels().size(); ++i)
            if (labels()[i].name == l || !strcmp(labels()[i].name, l)) { labels()[i].count++; return; }
        Hush h;
        Label x = {l, 1};
        labels().push_back(x);
    }
    static std::vector<Label>& labels() { static std::vector<Label> l; return l; }

    void nontrivial() { nontriv = true; }

    bool verbose;
    bool live;   // print each logged step at once
    bool nontriv;
    std::ostringstream os;
    uint64_t hash() const { return _hash; }

private:
    void reset(uint64_t index) {
        _hash = 0xcbf29ce484222325ull;
        nontriv = false;
        _sh->case_index = index;
        _sh->n = 0;
        _sh->active = 1;
    }
    Shared* _sh;
    Mode _mode;
    uint64_t _s;
    size_t _pos;
    const std::vector<uint32_t>* _rv;
    const uint8_t* _p;
    size_t _np;
    uint64_t _hash;
    uint64_t _dead_draws;
};

// violation noticed inside element operations, where throwing may be impossible
inline std::string& pending() { static std::string s; return s; }
inline void flag(const char* m) { if (pending().empty()) pending() = m; }

inline void fail(const std::string& m) { throw Fail(m); }

// message builder kept out of line: it appears at every check
#define PBT_NOINLINE __attribute__((noinline, cold))
class Msg {
public:
    PBT_NOINLINE Msg() : o(new std::ostringstream) {}
    PBT_NOINLINE ~Msg() { delete o; }
    PBT_NOINLINE Msg& operator<<(const char* x) { *o << (x ? x : "(null)"); return *this; }
    PBT_NOINLINE Msg& operator<<(const std::string& x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(char x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(bool x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(int x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(unsigned x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(long x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(unsigned long x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(long long x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(unsigned long long x) { *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(double x) { o->precision(17); *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(long double x) { o->precision(21); *o << x; return *this; }
    PBT_NOINLINE Msg& operator<<(const void* x) { *o << x; return *this; }
    PBT_NOINLINE void raise(const char* cond, int line) { *o << "   [" << cond << "] at line " << line; throw Fail(o->str()); }
    PBT_NOINLINE void log(Src& s) {
        if (s.live) { printf("%s\n", o->str().c_str()); fflush(stdout); } else s.os << o->str() << "\n";
    }
private:
    Msg(const Msg&);
    std::ostringstream* o;
};

#define PLOG(s, x) do { if (__builtin_expect((s).verbose, 0)) { ::pbt::Hush _h; ::pbt::Msg _o; _o << x; _o.log(s); } } while (0)
#define PCHECK(c, m) do { if (__builtin_expect(!(c), 0)) { ::pbt::Msg _o; _o << m; _o.raise(#c, __LINE__); } } while (0)

}  // namespace pbt

// supplied by the harness
extern const char* const pbt_name;
extern const char* const pbt_rule;   // what makes a case non-trivial
void pbt_case(pbt::Src& s);          // throws pbt::Fail
void pbt_reset();                    // bring global trackers to a clean state before a case
void pbt_end(pbt::Src& s);           // leak/lifetime checks after a case (throws pbt::Fail)

#ifdef PBT_MAIN
namespace pbt {

static bool g_heap_balance = true;

static inline size_t heap_now() {
#ifdef PBT_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

static bool one(Src& s, std::string& msg) {
    pending().clear();
    bool ok = true;
    try {
        pbt_reset();
        pbt_case(s);
        if (!pending().empty()) throw Fail(pending());
        pbt_end(s);
        if (!pending().empty()) throw Fail(pending());
    } catch (Fail& f) {
        msg = f.msg;
        ok = false;
    } catch (std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        ok = false;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        ok = false;
    }
    return ok;
}

static Shared* map_shared(const char* path) {
    int fd = -1;
    int flags = MAP_SHARED;
    if (path) {
        fd = open(path, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("cur"); exit(3); }
    } else {
        flags |= MAP_ANONYMOUS;
    }
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, flags, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    if (fd >= 0) close(fd);
    return (Shared*)p;
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::vector<uint32_t> read_choices(const char* path) {
    std::vector<uint32_t> v;
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); exit(3); }
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] == '#') continue;
        char* p = line;
        for (;;) {
            char* e;
            unsigned long x = strtoul(p, &e, 10);
            if (e == p) break;
            v.push_back((uint32_t)x);
            p = e;
        }
    }
    free(line);
    fclose(f);
    return v;
}

static void write_choices(const char* path, const std::vector<uint32_t>& v, const std::string& msg, const std::string& log) {
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); exit(3); }
    fprintf(f, "# harness %s\n", pbt_name);
    std::istringstream a(msg);
    std::string l;
    while (std::getline(a, l)) fprintf(f, "# message: %s\n", l.c_str());
    std::istringstream b(log);
    while (std::getline(b, l)) fprintf(f, "# step: %s\n", l.c_str());
    for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%u%c", v[i], i % 24 == 23 ? '\n' : ' ');
    fprintf(f, "\n");
    fclose(f);
}

// run one candidate in a forked child; true when it fails
static bool fails_forked(const std::vector<uint32_t>& v, Shared* sh, std::vector<uint32_t>* used, unsigned tmo) {
    sh->n = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        alarm(tmo);
        Src s;
        s.attach(sh);
        s.begin_replay(&v);
        std::string msg;
        _exit(one(s, msg) ? 0 : 1);
    }
    int st = 0;
    if (pid < 0) return false;
    waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (used) used->assign(sh->v, sh->v + sh->n);
    return bad;
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> cur, Shared* sh, double budget) {
    double t0 = now();
    std::vector<uint32_t> used;
    bool changed = true;
    while (changed && now() - t0 < budget) {
        changed = false;
        // delete chunks
        for (size_t k = std::max<size_t>(cur.size() / 2, 1); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= cur.size() && now() - t0 < budget;) {
                std::vector<uint32_t> c(cur.begin(), cur.begin() + i);
                c.insert(c.end(), cur.begin() + i + k, cur.end());
                if (fails_forked(c, sh, &used, 60)) {
                    cur = used.size() < c.size() ? used : c;
                    changed = true;
                } else {
                    i += k;
                }
            }
            if (k == 1) break;
        }
        // delete an element and lower an earlier count
        for (size_t i = 0; i < cur.size() && now() - t0 < budget; ++i) {
            if (cur[i] == 0) continue;
            for (size_t k = 1; k <= 8 && i + 1 + k <= cur.size(); k *= 2) {
                std::vector<uint32_t> c = cur;
                c[i] -= 1;
                c.erase(c.begin() + i + 1, c.begin() + i + 1 + k);
                if (fails_forked(c, sh, &used, 60)) { cur = c; changed = true; break; }
            }
        }
        // lower values
        for (size_t i = 0; i < cur.size() && now() - t0 < budget; ++i) {
            uint32_t orig = cur[i];
            if (orig == 0) continue;
            uint32_t lo = 0, hi = orig;
            std::vector<uint32_t> c = cur;
            c[i] = 0;
            if (fails_forked(c, sh, &used, 60)) { cur = c; changed = true; continue; }
            while (lo + 1 < hi && now() - t0 < budget) {
                uint32_t m = lo + (hi - lo) / 2;
                c[i] = m;
                if (fails_forked(c, sh, &used, 60)) hi = m; else lo = m;
            }
            if (hi < orig) { cur[i] = hi; changed = true; }
        }
    }
    return cur;
}

static void json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

}  // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    static pbt::Shared* sh = pbt::map_shared(getenv("PBT_CUR"));
    static uint64_t evals = 0;
    pbt::Src s;
    s.attach(sh);
    s.begin_bytes(d, n);
    std::string msg;
    if (!pbt::one(s, msg)) {
        const char* out = getenv("PBT_FAIL");
        if (out) pbt::write_choices(out, std::vector<uint32_t>(sh->v, sh->v + sh->n), msg, "");
        fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
        abort();
    }
    sh->active = 0;
    ++evals;
    return 0;
}
#else
static void pbt_on_alarm(int) {
    static const char m[] = "PBT-HANG\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(77);
}
int main(int argc, char** argv) {
    using namespace pbt;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "rule") { printf("%s\n", pbt_rule); return 0; }
    if (mode == "run") {
        // run SEED START CASES TIME_S OUT(prefix)
        uint64_t seed = strtoull(argv[2], nullptr, 10), start = strtoull(argv[3], nullptr, 10);
        uint64_t cases = strtoull(argv[4], nullptr, 10);
        double tmax = atof(argv[5]);
        std::string out = argv[6];
        Shared* sh = map_shared((out + ".cur").c_str());
        signal(SIGALRM, pbt_on_alarm);
        Src s;
        s.attach(sh);
        uint64_t evals = 0, nontriv = 0;
        const size_t maxh = 4000000;
        uint64_t* hashes = (uint64_t*)mmap(nullptr, maxh * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        size_t nh = 0;
        std::vector<uint64_t> sample_idx;
        double t0 = now();
        std::string msg;
        bool timed_out = false;
        for (uint64_t i = start; i < start + cases; ++i) {
            if ((i & 63) == 0) {
                alarm(40);
                if (now() - t0 > tmax) { timed_out = true; break; }
            }
            size_t h0 = heap_now(), h1 = h0;
            s.begin_random(seed, i);
            bool ok = one(s, msg);
            ++evals;
            if (ok && s.nontriv) {
                ++nontriv;
                if (nh < maxh) hashes[nh++] = s.hash();
                if (sample_idx.size() < 3 && sh->n > 12 && sh->n < 150) sample_idx.push_back(i);
            }
            h1 = heap_now();
            if (ok && g_heap_balance && h1 > h0) {
                // may be one-time initialisation: it has to repeat twice to count
                int rep = 0;
                for (int r = 0; r < 2; ++r) {
                    size_t a = heap_now();
                    s.begin_random(seed, i);
                    if (!one(s, msg)) break;
                    if (heap_now() > a) ++rep;
                }
                if (rep == 2) {
                    ok = false;
                    msg = "heap memory still allocated after every object of the case is gone (leak)";
                }
            }
            if (!ok) {
                std::vector<uint32_t> v(sh->v, sh->v + sh->n);
                write_choices((out + ".fail").c_str(), v, msg, "");
                printf("FAIL %s\n", msg.c_str());
                return 1;
            }
        }
        alarm(0);
        sh->active = 0;
        double el = now() - t0;
        FILE* hf = fopen((out + ".hashes").c_str(), "wb");
        if (hf) { fwrite(hashes, 8, nh, hf); fclose(hf); }
        std::vector<Label> labels = Src::labels();
        std::vector<std::string> samples;
        for (size_t k = 0; k < sample_idx.size(); ++k) {
            Src v;
            v.attach(sh);
            v.verbose = true;
            v.begin_random(seed, sample_idx[k]);
            one(v, msg);
            samples.push_back(v.os.str());
        }
        sh->active = 0;
        FILE* f = fopen((out + ".json").c_str(), "w");
        fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"seconds\":%.3f,\"timed_out\":%s,\"labels\":{", (unsigned long long)evals,
                (unsigned long long)nontriv, el, timed_out ? "true" : "false");
        std::map<std::string, uint64_t> lm;
        for (size_t k = 0; k < labels.size(); ++k) lm[labels[k].name] += labels[k].count;
        bool first = true;
        for (std::map<std::string, uint64_t>::iterator it = lm.begin(); it != lm.end(); ++it) {
            if (!first) fputc(',', f);
            first = false;
            json_str(f, it->first);
            fprintf(f, ":%llu", (unsigned long long)it->second);
        }
        fprintf(f, "},\"samples\":[");
        for (size_t k = 0; k < samples.size(); ++k) {
            if (k) fputc(',', f);
            json_str(f, samples[k].substr(0, 3000));
        }
        fprintf(f, "]}\n");
        fclose(f);
        return 0;
    }
    if (mode == "digest") {
        // digest SEED START CASES TIME_S OUT: 8 bytes per case in OUT.digest
        uint64_t seed = strtoull(argv[2], nullptr, 10), start = strtoull(argv[3], nullptr, 10), cases = strtoull(argv[4], nullptr, 10);
        double tmax = atof(argv[5]), t0 = now();
        std::string out = argv[6], msg;
        Shared* sh = map_shared((out + ".cur").c_str());
        signal(SIGALRM, pbt_on_alarm);
        Src s;
        s.attach(sh);
        FILE* f = fopen((out + ".digest").c_str(), "wb");
        for (uint64_t i = start; i < start + cases; ++i) {
            if ((i & 63) == 0) { alarm(40); if (now() - t0 > tmax) break; }
            observed().clear();
            s.begin_random(seed, i);
            if (!one(s, msg)) { observed() += "\nFAIL "; observed() += msg; }
            uint64_t h = 1469598103934665603ull;
            for (size_t k = 0; k < observed().size(); ++k) h = (h ^ (unsigned char)observed()[k]) * 1099511628211ull;
            fwrite(&h, 8, 1, f);
        }
        alarm(0);
        sh->active = 0;
        fclose(f);
        return 0;
    }
    if (mode == "choices") {
        // choices SEED INDEX OUT: the choices of one random case
        Shared* sh = map_shared(nullptr);
        Src s;
        std::string msg;
        s.attach(sh);
        s.begin_random(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10));
        one(s, msg);
        write_choices(argv[4], std::vector<uint32_t>(sh->v, sh->v + sh->n), "", "");
        return 0;
    }
    if (mode == "observe") {
        // observe CHOICES: the observations of one case
        std::vector<uint32_t> v = read_choices(argv[2]);
        Shared* sh = map_shared(nullptr);
        signal(SIGALRM, pbt_on_alarm);
        alarm(40);
        Src s;
        std::string msg;
        s.attach(sh);
        if (argc > 3) s.verbose = s.live = true;
        s.begin_replay(&v);
        if (!one(s, msg)) { observed() += "\nFAIL "; observed() += msg; }
        fwrite(observed().data(), 1, observed().size(), stdout);
        return 0;
    }
    if (mode == "replay") {
        std::vector<uint32_t> v = read_choices(argv[2]);
        Shared* sh = map_shared(nullptr);
        signal(SIGALRM, pbt_on_alarm);
        alarm(40);
        bool ok = true;
        std::string msg;
        bool ok2 = true;
        std::string m2;
        {
            Src s;
            s.attach(sh);
            s.verbose = s.live = true;
            s.begin_replay(&v);
            ok2 = one(s, m2);
        }
        // again quietly (heap balance ignores one-time initialisation)
        int grow = 0;
        for (int r = 0; r < 3 && ok; ++r) {
            size_t a = heap_now();
            Src s;
            s.attach(sh);
            s.begin_replay(&v);
            ok = one(s, msg);
            if (r > 0 && heap_now() > a) ++grow;
        }
        if (ok && g_heap_balance && grow == 2) { ok = false; msg = "heap memory still allocated after every object of the case is gone (leak)"; }
        if (!ok2) { ok = false; msg = m2; }
        printf(ok ? "PASS\n" : "FAIL %s\n", msg.c_str());
        return ok ? 0 : 1;
    }
    if (mode == "shrink") {
        // shrink IN OUT BUDGET_S
        std::vector<uint32_t> v = read_choices(argv[2]);
        Shared* sh = map_shared(nullptr);
        if (!fails_forked(v, sh, nullptr, 120)) { printf("NOT-REPRODUCED\n"); return 2; }
        std::vector<uint32_t> r = shrink(v, sh, atof(argv[4]));
        // verbose log in a child (it may crash): log steps to a pipe as they happen is not
        // possible here, so keep what was logged when the failure is an exception
        write_choices(argv[3], r, "", "");
        printf("SHRUNK %zu -> %zu choices\n", v.size(), r.size());
        return 0;
    }
    fprintf(stderr, "usage: run|replay|shrink|rule\n");
    return 3;
}
#endif
#endif  // PBT_MAIN
#endif
