// C18: files against an ideal byte array with a position; failing devices; handle ownership.
#include "efp.hpp"
#include "efp/io.hpp"
#include "pbt.hpp"
#include <memory>
#include <sys/stat.h>
#include <dirent.h>
using namespace pbt;
using efp::File;
using efp::Maybe;
using efp::String;

const char* const pbt_name = "c18_file";
const char* const pbt_rule = "";

static std::string g_dir;
static void wipe(bool all) {
    if (g_dir.empty()) return;
    for (int i = 0; i < 4; ++i) unlink((g_dir + "/f" + std::to_string(i)).c_str());
    if (all) { rmdir((g_dir + "/d").c_str()); rmdir(g_dir.c_str()); }
}
static pid_t g_owner;
static void bye() { if (getpid() == g_owner) wipe(true); }
static void scratch() {
    if (!g_dir.empty()) return;
    const char* b = getenv("PBT_SCRATCH");
    std::string t = std::string(b ? b : "/tmp") + "/c18.XXXXXX";
    std::vector<char> v(t.begin(), t.end());
    v.push_back(0);
    if (!mkdtemp(v.data())) { perror("mkdtemp"); exit(3); }
    g_dir = v.data();
    mkdir((g_dir + "/d").c_str(), 0700);
    g_owner = getpid();
    atexit(bye);
}
static std::string path(int i) {
    if (i == 4) return g_dir + "/d";                 // a directory
    if (i == 5) return g_dir + "/missing/f";         // no such directory
    return g_dir + "/f" + std::to_string(i);
}
static void raw_put(int i, const std::string& b) {
    int fd = open(path(i).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) { perror("scratch"); exit(3); }
    close(fd);
}
static bool raw_get(int i, std::string& b) {
    int fd = open(path(i).c_str(), O_RDONLY);
    if (fd < 0) return false;
    b.clear();
    char buf[4096];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) b.append(buf, n);
    close(fd);
    return true;
}
static int fds() {
    int n = 0;
    for (int i = 3; i < 48; ++i) if (fcntl(i, F_GETFD) != -1) ++n;
    return n;
}
static std::string shown(const std::string& b) {
    std::string o = "\"";
    for (size_t i = 0; i < b.size() && i < 48; ++i) {
        char t[8];
        unsigned char c = b[i];
        if (c < 32 || c > 126) snprintf(t, sizeof t, "\\x%02x", c); else snprintf(t, sizeof t, "%c", c);
        o += t;
    }
    return o + (b.size() > 48 ? "...\" (" + std::to_string(b.size()) + " bytes)" : "\"");
}
static std::string bytes(Src& s) {
    size_t n = s.draw(20) != 19 ? s.len(24) : s.chance(1, 40) ? 60000 + s.draw(12000)
             : s.flip() ? 3500 + s.draw(9000) : (size_t)(128u << s.draw(6)) * (1 + s.draw(3)) + s.draw(3) - s.draw(3);   // next to a block size
    std::string b;
    if (n > 100) {   // one choice decides all
        uint64_t k = s.draw(1u << 20);
        const uint64_t rate = s.chance(1, 3) ? 3000 : 41;   // how long the lines are
        const bool zeros = s.flip();
        for (size_t i = 0; i < n; ++i) { uint64_t r = mix(k + i); char c = (char)(r >> 8); b += r % rate == 0 ? '\n' : !zeros && (c == 0 || c == '\n') ? 'z' : c; }
        return b;
    }
    for (size_t i = 0; i < n; ++i) switch (s.draw(8)) {
        case 0: case 1: case 2: b += (char)('a' + s.draw(3)); break;
        case 3: case 4: b += '\n'; break;
        case 5: b += '\0'; break;
        case 6: b += (char)(s.flip() ? 0xff : '\r'); break;
        default: b += (char)s.draw(256);
    }
    return b;
}
static String str(const std::string& b) { String r; for (size_t i = 0; i < b.size(); ++i) r.push_back(b[i]); return r; }
static std::string str(const String& b) { std::string r; for (size_t i = 0; i < b.size(); ++i) r += b[i]; return r; }

static const char* const MODES[] = {"r", "rb", "r+", "rb+", "r+b", "w", "wb", "w+", "w+b", "wb+", "a", "ab", "a+", "a+b", "wx", "wxb+"};
struct Md { bool rd, wr, app, trunc, excl; };
static Md md(const std::string& m) {
    bool plus = m.find('+') != std::string::npos;
    Md r = {m[0] == 'r' || plus, m[0] != 'r' || plus, m[0] == 'a', m[0] == 'w', m.find('x') != std::string::npos};
    return r;
}

struct Disk { bool exists; std::string b; };
struct H {
    std::unique_ptr<File> f;
    bool open; int p; Md m; long pos; bool known; int last;   // last: 0 nothing/positioned, 1 read, 2 wrote
};
enum { K = 3 };
struct World {
    Src& s;
    Disk d[4];
    H h[K];
    int base;
    World(Src& s_) : s(s_) {
        for (int i = 0; i < 4; ++i) { d[i].exists = s.flip(); if (d[i].exists) { d[i].b = bytes(s); raw_put(i, d[i].b); PLOG(s, "f" << i << " = " << shown(d[i].b)); } }
        for (int i = 0; i < K; ++i) h[i].open = false;
        base = fds();
    }
    int nopen() const { int n = 0; for (int i = 0; i < K; ++i) n += h[i].open; return n; }
    void disk(int p, const char* when) {
        std::string b;
        bool e = raw_get(p, b);
        PCHECK(e == d[p].exists && (!e || b == d[p].b), when << ": file f" << p << " holds " << (e ? shown(b) : "nothing") << " on disk, expected " << (d[p].exists ? shown(d[p].b) : "nothing"));
    }
    void open(int i) {
        int p = s.draw(10);
        if (p >= 6) p = p % 4;
        for (int j = 0; j < K; ++j) if (h[j].open && h[j].p == p && p < 4) return;
        std::string mode = MODES[s.draw(sizeof MODES / sizeof *MODES)];
        Md m = md(mode);
        bool ok = p == 5 ? false : p == 4 ? !m.wr : m.trunc ? !(m.excl && d[p].exists) : m.app ? true : d[p].exists;
        bool viaStr = s.flip();
        PLOG(s, "h" << i << " = open " << (p == 4 ? "directory" : p == 5 ? "file in a missing directory" : "f" + std::to_string(p)) << " as " << mode << (ok ? "" : " (cannot)"));
        // the mode string is not kept by the caller
        std::unique_ptr<char[]> mb(new char[mode.size() + 1]);
        strcpy(mb.get(), mode.c_str());
        Maybe<File> r = viaStr ? File::open(str(path(p)), mb.get()) : File::open(path(p).c_str(), mb.get());
        mb.reset();
        PCHECK(r.has_value() == ok, "opening as " << mode << (r.has_value() ? " succeeded" : " failed"));
        if (p < 4 && ok) { if (m.trunc || !d[p].exists) d[p].b.clear(); d[p].exists = true; }
        if (!ok) { s.label("open refused"); return; }
        s.label("opened");
        int old = h[i].open ? h[i].p : -1;
        bool had = h[i].f.get() != nullptr;
        switch (s.draw(3)) {
            case 0: if (had) { *h[i].f = r.move(); break; }   // fall through
            case 1: h[i].f.reset(); h[i].f.reset(new File(r.move())); break;
            default: {   // through a vector of files
                efp::Vector<File> v;
                v.push_back(r.move());
                v.reserve(4);
                h[i].f.reset(new File(efp::move(v[0])));
            }
        }
        if (old >= 0) s.label("opened over an open handle");
        h[i].open = true; h[i].p = p; h[i].m = m; h[i].pos = 0; h[i].known = !m.app; h[i].last = 0;
        if (old >= 0 && old < 4 && old != p) disk(old, "after its handle was replaced");
    }
    void wrote(H& x, const std::string& b) {
        std::string& c = d[x.p].b;
        if (b.empty()) return;
        if (x.m.app) { c += b; x.pos = (long)c.size(); }
        else {
            if ((long)c.size() < x.pos) c.resize(x.pos, '\0');
            if (c.size() < x.pos + b.size()) c.resize(x.pos + b.size());
            std::copy(b.begin(), b.end(), c.begin() + x.pos);
            x.pos += (long)b.size();
        }
        x.last = 2;
        x.known = true;
    }
    void seek(int i, long to) {
        PLOG(s, "h" << i << ".seek(" << to << ")");
        bool r = h[i].f->seek(to);
        PCHECK(r == (to >= 0), "seek to " << to << " returned " << r);
        if (r) { h[i].pos = to; h[i].known = true; h[i].last = 0; }
    }
    std::string line(const std::string& c, long& pos) {
        std::string o;
        while (pos < (long)c.size() && c[pos] != '\n') o += c[pos++];
        if (pos < (long)c.size()) ++pos;
        return o;
    }
    void refused(int i) {
        H& x = h[i];
        s.label("closed handle used");
        unsigned op = s.draw(8);
        PLOG(s, "h" << i << " (closed or moved from): operation " << op);
        switch (op) {
            case 0: PCHECK(!x.f->read_line().has_value(), "read_line of a closed handle returned a line"); break;
            case 1: PCHECK(x.f->read_lines().empty(), "read_lines of a closed handle returned lines"); break;
            case 2: PCHECK(!x.f->write("abc"), "write to a closed handle succeeded"); break;
            case 3: PCHECK(!x.f->write(str(std::string("abc"))), "write to a closed handle succeeded"); break;
            case 4: PCHECK(x.f->flush() != 0, "flush of a closed handle succeeded"); break;
            case 5: PCHECK(!x.f->seek(0), "seek in a closed handle succeeded"); break;
            case 6: PCHECK(x.f->tell() < 0, "tell of a closed handle gave a position"); break;
            default: PCHECK(!x.f->close(), "closing a closed handle succeeded");
        }
    }
    void step() {
        int i = s.draw(K);
        H& x = h[i];
        unsigned op = s.draw(20);
        if (!x.f || op < 2) { open(i); return; }
        if (op == 2) {   // moves
            int j = s.draw(K);
            PLOG(s, "h" << j << " = move(h" << i << ")");
            if (i == j) { File& same = *x.f; *h[j].f = efp::move(same); s.label("self move"); return; }
            int old = h[j].open ? h[j].p : -1;
            if (h[j].f && s.flip()) *h[j].f = efp::move(*x.f);
            else { h[j].f.reset(); h[j].f.reset(new File(efp::move(*x.f))); }
            h[j].open = x.open; h[j].p = x.p; h[j].m = x.m; h[j].pos = x.pos; h[j].known = x.known; h[j].last = x.last;
            x.open = false;
            if (old >= 0 && old < 4) disk(old, "after its handle was replaced");
            s.label("move");
            return;
        }
        if (!x.open) { refused(i); return; }
        if (x.p == 4) {   // a directory opened for reading: every read fails
            if (op % 3 == 0) PCHECK(!x.f->read_line().has_value(), "reading a directory gave a line");
            else if (op % 3 == 1) PCHECK(!x.f->write("x"), "writing to a directory succeeded");
            else { PCHECK(x.f->close(), "closing failed"); x.open = false; }
            return;
        }
        std::string& c = d[x.p].b;
        switch (op) {
            case 3: case 4: case 5: case 6: case 7: case 8: {
                if (x.last == 1 && x.m.wr) seek(i, s.draw(c.size() + 4));
                std::string b = bytes(s);
                unsigned how = s.draw(3);
                if (how == 1 && b.find('\0') != std::string::npos) b = b.substr(0, b.find('\0'));
                PLOG(s, "h" << i << ".write(" << (how == 2 ? "String " : how ? "C string " : "data ") << shown(b) << ")");
                // exactly the bytes given, so that reading beyond them is seen
                std::unique_ptr<char[]> buf(new char[b.size() + (how == 1)]);
                std::copy(b.begin(), b.end(), buf.get());
                if (how == 1) buf[b.size()] = 0;
                bool r = how == 2 ? x.f->write(str(b)) : how == 1 ? x.f->write(buf.get()) : x.f->write(buf.get(), b.size());
                if (!x.m.wr) { if (!b.empty()) PCHECK(!r, "writing to a file opened for reading succeeded"); s.label("write refused"); break; }
                PCHECK(r, "write failed");
                wrote(x, b);
                s.label("write");
                if (b.size() > 4096) s.label("write over the buffer size");
                if (b.size() >= 128 && b.size() % 128 == 0) s.label("write of whole blocks");
                break;
            }
            case 9: case 10: case 11: case 12: {
                bool all = s.chance(1, 3);
                if (x.m.rd && (x.last == 2 || !x.known)) {
                    if (x.known && s.flip()) { PLOG(s, "h" << i << ".flush()"); PCHECK(x.f->flush() == 0, "flush failed"); disk(x.p, "after flush"); x.last = 0; }
                    else seek(i, s.draw(c.size() + 2));
                }
                PLOG(s, "h" << i << (all ? ".read_lines()" : ".read_line()"));
                if (!x.m.rd) {
                    if (all) PCHECK(x.f->read_lines().empty(), "reading a file opened for writing gave lines");
                    else PCHECK(!x.f->read_line().has_value(), "reading a file opened for writing gave a line");
                    break;
                }
                x.last = 1;
                if (all) {
                    efp::Vector<String> v = x.f->read_lines();
                    size_t k = 0;
                    while (x.pos < (long)c.size()) {
                        std::string w = line(c, x.pos);
                        PCHECK(k < v.size() && str(v[k]) == w, "read_lines: line " << k << " is " << (k < v.size() ? shown(str(v[k])) : std::string("missing")) << ", expected " << shown(w));
                        ++k;
                    }
                    PCHECK(k == v.size(), "read_lines: " << v.size() << " lines, expected " << k);
                    s.label("read_lines");
                } else {
                    bool eof = x.pos >= (long)c.size();
                    Maybe<String> r = x.f->read_line();
                    PCHECK(r.has_value() == !eof, "read_line " << (eof ? "at the end gave a line" : "before the end gave nothing"));
                    if (!eof) {
                        std::string w = line(c, x.pos);
                        PCHECK(str(r.value()) == w, "read_line gave " << shown(str(r.value())) << ", expected " << shown(w));
                        s.label(w.empty() ? "blank line" : "line");
                    } else s.label("end of file");
                }
                break;
            }
            case 13: seek(i, s.draw(8) == 0 ? -1 - (long)s.draw(5) : (long)s.draw(c.size() + 8)); break;
            case 14: {
                if (x.known) {
                    long t = x.f->tell();
                    PLOG(s, "h" << i << ".tell() = " << t);
                    PCHECK(t == x.pos, "tell gave " << t << ", expected " << x.pos);
                } 
                if (s.chance(1, 4)) {
                    long far = (1L << 31) - 2 + (long)s.draw(8) * (1L << s.draw(9));
                    seek(i, far);
                    PCHECK(x.f->tell() == far, "tell after seek to " << far << " gave " << (long)x.f->tell());
                    seek(i, s.draw(c.size() + 1));
                    s.label("position beyond 2^31");
                }
                break;
            }
            case 15: case 16: {
                if (x.last == 1) break;
                PLOG(s, "h" << i << ".flush()");
                PCHECK(x.f->flush() == 0, "flush failed");
                disk(x.p, "after flush");
                s.label("flush");
                break;
            }
            case 17: {
                PLOG(s, "h" << i << ".close()");
                PCHECK(x.f->close(), "close failed");
                x.open = false;
                disk(x.p, "after close");
                s.label("close");
                break;
            }
            case 18: {
                PLOG(s, "h" << i << " destroyed");
                x.f.reset();
                x.open = false;
                disk(x.p, "after destruction of its handle");
                break;
            }
            default: {   // another reader sees what was flushed
                if (x.last == 1 || !x.known) break;
                PCHECK(x.f->flush() == 0, "flush failed");
                Maybe<File> r = File::open(path(x.p).c_str(), "rb");
                PCHECK(r.has_value(), "second handle");
                efp::Vector<String> v = r.move().read_lines();
                long q = 0;
                size_t k = 0;
                while (q < (long)c.size()) { std::string w = line(c, q); PCHECK(k < v.size() && str(v[k]) == w, "second reader: line " << k << " differs"); ++k; }
                PCHECK(k == v.size(), "second reader: " << v.size() << " lines, expected " << k);
                s.label("second reader");
            }
        }
    }
    void run() {
        int n = s.range(1, 28);
        if (n >= 6) s.nontrivial();
        for (int k = 0; k < n && !s.exhausted(); ++k) {
            step();
            PCHECK(fds() == base + nopen(), fds() - base << " files are open, expected " << nopen());
        }
        for (int i = 0; i < K; ++i) { h[i].f.reset(); h[i].open = false; }
        PCHECK(fds() == base, fds() - base << " files are still open at the end");
        for (int i = 0; i < 4; ++i) disk(i, "at the end");
    }
};

// a device that fails every write that reaches it
static void full_device(Src& s) {
    int base = fds();
    static const char* const M[] = {"w", "wb", "a", "r+", "w+b"};
    const char* mode = M[s.draw(5)];
    PLOG(s, "/dev/full as " << mode);
    Maybe<File> r = File::open("/dev/full", mode);
    if (!r.has_value()) return;   // no such device here
    s.nontrivial();
    s.label("full device");
    bool failed = false, wrote_any = false, pending_known = true;
    size_t pend = 0;
    {
        File f(r.move());
        int n = s.range(1, 8);
        for (int k = 0; k < n; ++k) {
            if (s.chance(2, 3)) {
                std::string b = bytes(s);
                bool w = s.flip() ? f.write(str(b)) : f.write(b.data(), b.size());
                PLOG(s, "write " << b.size() << " bytes: " << w);
                if (!b.empty()) wrote_any = true;
                if (w) pend += b.size(); else { PCHECK(!b.empty(), "writing nothing failed"); failed = true; pending_known = false; }
            } else {
                int r2 = f.flush();
                PLOG(s, "flush: " << r2);
                if (pending_known) PCHECK((r2 != 0) == (pend > 0), "flush of " << pend << " bytes to a full device returned " << r2);
                if (r2 != 0) failed = true;
                pend = 0; pending_known = true;
            }
        }
        if (s.chance(3, 4)) {
            bool c = f.close();
            PLOG(s, "close: " << c);
            if (pending_known && pend > 0) PCHECK(!c, "close that lost " << pend << " bytes reported success");
            if (pending_known && pend == 0) PCHECK(c, "close with nothing to write failed");
            if (!c) failed = true;
            PCHECK(!wrote_any || failed, "data was lost on a full device and no operation failed");
            PCHECK(fds() == base, "the file is still open after close");
            PCHECK(!f.close() && !f.write("x") && f.flush() != 0 && !f.seek(0) && f.tell() < 0 && !f.read_line().has_value(), "a handle whose close failed is still usable");
            if (s.flip()) { Maybe<File> g = File::open(path(0).c_str(), "w"); PCHECK(g.has_value(), "open"); f = g.move(); PCHECK(f.write("ok") && f.close(), "handle reused after a failed close"); }
        }
    }
    PCHECK(fds() == base, "the file is still open at the end");
}

// the file may not grow beyond a limit: some write reaches the system and fails part-way
static rlim_t g_fsize = RLIM_INFINITY;
static void limit(rlim_t n) {
    struct rlimit r;
    getrlimit(RLIMIT_FSIZE, &r);
    r.rlim_cur = n;
    setrlimit(RLIMIT_FSIZE, &r);
}
static void limited(Src& s) {
    int base = fds();
    static const char* const M[] = {"w", "wb", "w+", "a", "ab"};
    const char* mode = M[s.draw(5)];
    long lim = s.flip() ? s.draw(40) : (long)s.draw(14000);
    PLOG(s, "limit " << lim << ", mode " << mode);
    signal(SIGXFSZ, SIG_IGN);
    std::string all;
    size_t safe = 0;
    bool failed = false;
    {
        Maybe<File> r = File::open(path(3).c_str(), mode);
        PCHECK(r.has_value(), "open failed");
        File f(r.move());
        limit((rlim_t)lim);
        int n = s.range(1, 10);
        for (int k = 0; k < n && !failed; ++k) {
            if (s.chance(3, 4)) {
                std::string b = bytes(s);
                bool w = s.flip() ? f.write(str(b)) : f.write(b.data(), b.size());
                PLOG(s, "write " << b.size() << " bytes: " << w);
                all += b;
                if (!w) failed = true;
            } else {
                int r2 = f.flush();
                PLOG(s, "flush: " << r2);
                if (r2 == 0) { safe = all.size(); PCHECK((long)safe <= lim, "flush of " << safe << " bytes succeeded over a limit of " << lim); } else failed = true;
            }
        }
        bool c = f.close();
        PLOG(s, "close: " << c);
        if (!c) failed = true; else if (!failed) safe = all.size();
        if ((long)all.size() <= lim) PCHECK(!failed, "an operation failed within the limit");
    }
    limit(g_fsize);
    std::string b;
    PCHECK(raw_get(3, b), "file is gone");
    PCHECK(b.size() >= safe && (failed || b.size() == all.size()), all.size() << " bytes written, " << b.size() << " on disk, " << safe << " of them confirmed, and " << (failed ? "a" : "no") << " failure reported");
    PCHECK(all.compare(0, b.size(), b) == 0 || failed, "the bytes on disk are not those written");
    PCHECK(all.compare(0, safe, b, 0, safe) == 0, "confirmed bytes differ on disk");
    PCHECK(fds() == base, "the file is still open at the end");
    if (failed) { s.label("size limit hit"); s.nontrivial(); }
}

void pbt_reset() {
    scratch();
    struct rlimit r;
    getrlimit(RLIMIT_FSIZE, &r);
    static bool first = true;
    if (first) { g_fsize = r.rlim_cur; first = false; }
    else if (r.rlim_cur != g_fsize) limit(g_fsize);
    wipe(false);
}
void pbt_case(Src& s) {
    switch (s.draw(8)) {
        case 6: full_device(s); break;
        case 7: limited(s); break;
        default: { World w(s); w.run(); }
    }
}
void pbt_end(Src&) {}
