// C17: formatting against a reference implementation of the format language (numbers through
// printf and exact digits), and malformed format strings.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include <cmath>
#include <cfloat>
#include <climits>
#include <memory>
#include <list>
#if __cplusplus >= 202002L && defined(__GLIBCXX__) && !defined(__clang__)
#include <format>
#define HAVE_STD_FORMAT 1
#endif
using namespace pbt;

const char* const pbt_name = "c17_format";
const char* const pbt_rule = "";

typedef std::string Str;
enum Kind { SINT, UINT, BOOL, CHAR, FLT, DBL, LDBL, STR, CSTR, PTR, SEQ };
// an argument as the reference sees it
struct Arg {
    Kind k;
    long long i; unsigned long long u; double d; long double ld; Str s; const char* cs;
    Str type;
};
enum What { TEXT, ERROR, UNKNOWN };   // UNKNOWN: accepted by the library beyond the common language, text not judged
struct Out { What w; Str t; };

struct Spec {
    bool has_align; char align; Str fill; char sign; bool alt, zero, loc; long width, prec; char type;
};

// the code point at s[i], and its number of bytes (0: not UTF-8)
static size_t decode(const Str& s, size_t i, unsigned& cp) {
    unsigned char c = (unsigned char)s[i];
    size_t n = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
    if (n == 0 || i + n > s.size()) return 0;
    cp = n == 1 ? c : c & (0xffu >> (n + 1));
    for (size_t k = 1; k < n; ++k) { unsigned char x = (unsigned char)s[i + k]; if ((x & 0xc0) != 0x80) return 0; cp = cp << 6 | (x & 0x3fu); }
    if ((n == 3 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) || (n == 4 && (cp < 0x10000 || cp > 0x10ffff))) return 0;
    return n;
}
// columns of a code point (the ranges of the C++20 standard)
static size_t columns(unsigned c) {
    static const unsigned r[][2] = {{0x1100, 0x115f}, {0x2329, 0x232a}, {0x2e80, 0x303e}, {0x3040, 0xa4cf}, {0xac00, 0xd7a3}, {0xf900, 0xfaff}, {0xfe10, 0xfe19}, {0xfe30, 0xfe6f},
        {0xff00, 0xff60}, {0xffe0, 0xffe6}, {0x1f300, 0x1f64f}, {0x1f900, 0x1f9ff}, {0x20000, 0x2fffd}, {0x30000, 0x3fffd}};
    for (size_t i = 0; i < sizeof r / sizeof *r; ++i) if (c >= r[i][0] && c <= r[i][1]) return 2;
    return 1;
}
static size_t points(const Str& s) {
    size_t n = 0;
    for (size_t i = 0; i < s.size();) { unsigned c = 0; size_t k = decode(s, i, c); n += k ? columns(c) : 1; i += k ? k : 1; }
    return n;
}
static bool wide(const Str& s) { size_t n = 0; for (size_t i = 0; i < s.size(); ++i) n += ((unsigned char)s[i] & 0xc0) != 0x80; return points(s) != n; }
static bool ascii(const Str& s) { for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] >= 0x80) return false; return true; }
static Str cut(const Str& s, size_t n) {
    size_t i = 0;
    while (i < s.size()) { if (((unsigned char)s[i] & 0xc0) != 0x80) { if (n == 0) break; --n; } ++i; }
    return s.substr(0, i);
}
static Str pad(const Str& s, const Spec& p, char deflt) {
    size_t w = points(s);
    if (p.width <= (long)w) return s;
    size_t n = (size_t)p.width - w;
    char a = p.has_align ? p.align : deflt;
    size_t l = a == '<' ? 0 : a == '>' ? n : n / 2, r = n - l;
    Str o;
    for (size_t i = 0; i < l; ++i) o += p.fill;
    o += s;
    for (size_t i = 0; i < r; ++i) o += p.fill;
    return o;
}
// sign or prefix, digits
static Str number(const Str& pre, const Str& digits, const Spec& p, bool zero) {
    if (zero && !p.has_align) {
        Str o = pre;
        for (long n = p.width - (long)(pre.size() + digits.size()); n > 0; --n) o += '0';
        return o + digits;
    }
    return pad(pre + digits, p, '>');
}
static Str digits_of(unsigned long long v, unsigned base, bool upper) {
    Str o;
    do { unsigned d = (unsigned)(v % base); o.insert(o.begin(), (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10)); v /= base; } while (v);
    return o;
}
static Out integer(bool neg, unsigned long long mag, const Spec& p) {
    Str pre = neg ? "-" : p.sign == '+' ? "+" : p.sign == ' ' ? " " : "";
    unsigned base = 10;
    Str d;
    switch (p.type) {
        case 'x': base = 16; if (p.alt) pre += "0x"; break;
        case 'X': base = 16; if (p.alt) pre += "0X"; break;
        case 'b': base = 2; if (p.alt) pre += "0b"; break;
        case 'B': base = 2; if (p.alt) pre += "0B"; break;
        case 'o': base = 8; if (p.alt && mag != 0) pre += "0"; break;
        default: break;
    }
    Out o = {TEXT, number(pre, digits_of(mag, base, p.type == 'X'), p, p.zero)};
    return o;
}
template<typename F> struct Lib;
template<> struct Lib<float> { static float back(const char* s) { return strtof(s, nullptr); } static const char* len() { return ""; } enum { maxp = 9 }; typedef double V; };
template<> struct Lib<double> { static double back(const char* s) { return strtod(s, nullptr); } static const char* len() { return ""; } enum { maxp = 17 }; typedef double V; };
template<> struct Lib<long double> { static long double back(const char* s) { return strtold(s, nullptr); } static const char* len() { return "L"; } enum { maxp = 21 }; typedef long double V; };
template<typename F> Str print(const Str& f, int prec, F v) {
    std::vector<char> b(12000);
    int n = prec < 0 ? snprintf(b.data(), b.size(), f.c_str(), (typename Lib<F>::V)v) : snprintf(b.data(), b.size(), f.c_str(), prec, (typename Lib<F>::V)v);
    return Str(b.data(), (size_t)n);
}
// shortest decimal digits that read back as v (v > 0): digits and exponent of the first one
template<typename F> void shortest(F v, Str& dig, int& exp) {
    for (int p = 0; p <= Lib<F>::maxp; ++p) {
        Str t = print<F>(Str("%.*") + Lib<F>::len() + "e", p, v);
        size_t e = t.find('e');
        const int ex = atoi(t.c_str() + e + 1);
        const Str d0 = t.substr(0, 1) + (p ? t.substr(2, e - 2) : "");
        // the nearest decimal, else (next to a power of two) one of its neighbours
        for (int k = 0; k < 3; ++k) {
            unsigned __int128 n = 0;
            for (size_t i = 0; i < d0.size(); ++i) n = n * 10 + (unsigned)(d0[i] - '0');
            if (k == 1) ++n; else if (k == 2) --n;
            Str d;
            for (unsigned __int128 m = n; m; m /= 10) d.insert(d.begin(), (char)('0' + (int)(m % 10)));
            if (d.empty()) continue;
            int x = ex + (int)d.size() - (int)d0.size();
            Str back = d + "e" + std::to_string(x - (int)d.size() + 1);
            if (Lib<F>::back(back.c_str()) != v) continue;
            dig = d; exp = x;
            while (dig.size() > 1 && dig[dig.size() - 1] == '0') dig.erase(dig.size() - 1);
            return;
        }
    }
    fail("harness: no round trip");
}
static Str lay_out(const Str& dig, int exp) {
    int n = (int)dig.size();
    char b[16];
    if (exp < -4 || exp >= 16) {
        snprintf(b, sizeof b, "e%c%02d", exp < 0 ? '-' : '+', exp < 0 ? -exp : exp);
        return dig.substr(0, 1) + (n > 1 ? "." + dig.substr(1) : "") + b;
    }
    if (exp < 0) return "0." + Str((size_t)(-exp - 1), '0') + dig;
    if (n <= exp + 1) return dig + Str((size_t)(exp + 1 - n), '0');
    return dig.substr(0, (size_t)exp + 1) + "." + dig.substr((size_t)exp + 1);
}
template<typename F> Out floating(F v, const Spec& p) {
    Out o = {TEXT, ""};
    bool neg = std::signbit(v), upper = p.type == 'E' || p.type == 'F' || p.type == 'G' || p.type == 'A';
    Str pre = neg ? "-" : p.sign == '+' ? "+" : p.sign == ' ' ? " " : "";
    if (std::isnan(v) || std::isinf(v)) { if (p.width > 3 && (!p.has_align || p.fill == "0")) o.w = UNKNOWN; o.t = number(pre, std::isnan(v) ? upper ? "NAN" : "nan" : upper ? "INF" : "inf", p, false); return o; }
    F m = neg ? -v : v;
    Str body;
    if (p.type == 0 && p.prec < 0) {
        if (p.alt) { o.w = UNKNOWN; return o; }
        if (m == 0) body = "0";
        else { Str d; int e; shortest<F>(m, d, e); body = lay_out(d, e); }
    } else if (p.type == 'a' || p.type == 'A') {
        if (!std::is_same<F, double>::value || p.alt || p.zero || p.prec >= 0 || m < (F)DBL_MIN) { o.w = UNKNOWN; return o; }
        body = print<F>(Str("%") + p.type, -1, m);
        pre += body.substr(0, 2);
        body = body.substr(2);
    } else {
        char t = p.type ? p.type : 'g';
        if (p.type == 0 && p.alt) { o.w = UNKNOWN; return o; }
        Str f = Str("%") + (p.alt ? "#" : "") + ".*" + Lib<F>::len() + t;
        int P = p.prec < 0 ? 6 : (int)p.prec;
        if (p.alt && (t == 'g' || t == 'G')) {   // "%#g" by its definition: glibc's loses zeros when rounding carries
            if (P == 0) P = 1;
            const Str c = print<F>(Str("%.*") + Lib<F>::len() + (upper ? "E" : "e"), P - 1, m);
            const int X = m == 0 ? 0 : atoi(c.c_str() + c.find(upper ? 'E' : 'e') + 1);
            const bool fix = P > X && X >= -4;
            f = Str("%#.*") + Lib<F>::len() + (fix ? "f" : upper ? "E" : "e");
            P = fix ? P - 1 - X : P - 1;
        }
        body = print<F>(f, P, m);
        if (body.size() > 760) { o.w = UNKNOWN; return o; }   // known finding: no more than 767 digits are generated
    }
    o.t = number(pre, body, p, p.zero);
    return o;
}

static Out format_one(const Arg& a, const Spec& p) {
    Out o = {TEXT, ""};
    const Out err = {ERROR, ""}, unk = {UNKNOWN, ""};
    bool arith = a.k <= LDBL;
    const char t = p.type;
    // which presentation types go with which argument
    if (t == '?') {
        if (a.k != CHAR && a.k != STR && a.k != CSTR) return err;
        if (a.k == CSTR && !a.cs) return err;
        // quoted, with special characters escaped: judged where every dialect agrees
        const char q = a.k == CHAR ? '\'' : '"', other = a.k == CHAR ? '"' : '\'';
        const Str v = a.k == CHAR ? Str(1, (char)a.i) : a.s;
        if (p.has_align || p.width || p.prec >= 0 || p.alt || p.zero || p.sign || p.loc) return unk;
        o.t = q;
        for (size_t i = 0; i < v.size(); ++i) {
            const char c = v[i];
            if (c == other || (c < 32 && c != '\t' && c != '\n' && c != '\r') || c == 127) return unk;
            if (c == q || c == '\\') o.t += '\\';
            if (c == '\t') o.t += "\\t"; else if (c == '\n') o.t += "\\n"; else if (c == '\r') o.t += "\\r"; else o.t += c;
        }
        o.t += q;
        return o;
    }
    if (p.loc && !arith) return err;
    static const Str ints = "dboxXB";
    switch (a.k) {
        case SINT: case UINT: if (t && t != 'c' && ints.find(t) == Str::npos) return err; break;
        case CHAR: if (t && t != 'c' && ints.find(t) == Str::npos) return err; break;
        case BOOL: if (t == 'c') return unk; if (t && t != 's' && ints.find(t) == Str::npos) return err; break;
        case FLT: case DBL: case LDBL: if (t && Str("aAeEfFgG").find(t) == Str::npos) return err; break;
        case STR: if (t && t != 's') return err; break;
        case CSTR: if (t == 'p') return unk; if (t && t != 's') return err; break;
        case PTR: if (t && t != 'p') return err; break;
        case SEQ: return err;
    }
    if (p.sign && (a.k == UINT || a.k == BOOL || a.k == CHAR)) return unk;
    if (p.sign && !arith) return err;
    if (p.alt && !arith) return err;
    if (p.zero && !arith) return err;
    if (p.prec >= 0 && !(a.k == FLT || a.k == DBL || a.k == LDBL || a.k == STR || a.k == CSTR)) return err;
    switch (a.k) {
        case SINT: case UINT: {
            bool neg = a.k == SINT && a.i < 0;
            unsigned long long mag = a.k == UINT ? a.u : neg ? 0ull - (unsigned long long)a.i : (unsigned long long)a.i;
            if (t == 'c') {
                if (neg || mag > 127 || p.sign || p.alt || p.zero) return unk;
                o.t = pad(Str(1, (char)mag), p, '<');
                return o;
            }
            return integer(neg, mag, p);
        }
        case BOOL:
            if (!t || t == 's') {
                if (p.alt || p.zero) return unk;
                o.t = pad(a.i ? "true" : "false", p, '<');
                return o;
            }
            return integer(false, (unsigned long long)a.i, p);
        case CHAR:
            if (!t || t == 'c') {
                if (p.alt || p.zero) return unk;
                if (a.i < 0) return unk;
                o.t = pad(Str(1, (char)a.i), p, '<');
                return o;
            }
            if (a.i < 0) return unk;
            return integer(false, (unsigned long long)a.i, p);
        case FLT: return floating<float>((float)a.d, p);
        case DBL: return floating<double>(a.d, p);
        case LDBL: return floating<long double>(a.ld, p);
        case CSTR: if (!a.cs) return err;  // fall through
        case STR: { if (p.prec >= 0 && wide(a.s)) o.w = UNKNOWN; Str s = p.prec >= 0 ? cut(a.s, (size_t)p.prec) : a.s; o.t = pad(s, p, '<'); return o; }
        case PTR: o.t = pad("0x" + digits_of(a.u, 16, false), p, '>'); return o;
        default: return err;
    }
}

static bool utf8(const Str& s) {
    for (size_t i = 0; i < s.size();) { unsigned c; size_t k = decode(s, i, c); if (!k) return false; i += k; }
    return true;
}
// reference parser
struct Ref {
    const Str& f; const std::vector<Arg>& args;
    size_t i; int mode; size_t next; bool unknown;
    std::vector<Str> names;
    Ref(const Str& f_, const std::vector<Arg>& a) : f(f_), args(a), i(0), mode(0), next(0), unknown(false) {}
    bool at(char c) const { return i < f.size() && f[i] == c; }
    bool digit() const { return i < f.size() && f[i] >= '0' && f[i] <= '9'; }
    // an argument id; false: malformed
    bool arg_id(size_t& id) {
        if (i >= f.size()) return false;
        if (f[i] == '}' || f[i] == ':') { if (mode == 2) return false; mode = 1; id = next++; return id < args.size(); }
        if (!digit()) {   // a named argument
            size_t e = i;
            while (e < f.size() && (f[e] == '_' || (f[e] >= 'a' && f[e] <= 'z') || (f[e] >= 'A' && f[e] <= 'Z') || (e > i && f[e] >= '0' && f[e] <= '9'))) ++e;
            for (size_t k = 0; k < names.size(); ++k) if (!names[k].empty() && names[k] == f.substr(i, e - i)) { id = k; i = e; return true; }
            return false;
        }
        unsigned long long v = 0;
        if (f[i] == '0') ++i;
        else while (digit()) { v = v * 10 + (unsigned)(f[i] - '0'); if (v > 100000000000ull) v = 100000000000ull; ++i; }
        if (!at('}') && !at(':')) return false;
        if (mode == 1) return false;
        mode = 2;
        id = (size_t)v;
        return v < args.size();
    }
    bool count(long& v) {   // a number or {id}
        if (digit()) {
            unsigned long long x = 0;
            while (digit()) { x = x * 10 + (unsigned)(f[i] - '0'); if (x > 100000000000ull) x = 100000000000ull; ++i; }
            if (x > INT_MAX) return false;
            v = (long)x;
            return true;
        }
        if (!at('{')) return false;
        ++i;
        size_t id;
        if (!arg_id(id) || !at('}')) return false;
        ++i;
        const Arg& a = args[id];
        if (a.k == SINT) { if (a.i < 0 || a.i > INT_MAX) return false; v = (long)a.i; return true; }
        if (a.k == UINT) { if (a.u > INT_MAX) return false; v = (long)a.u; return true; }
        return false;
    }
    static bool is_align(char c) { return c == '<' || c == '>' || c == '^'; }
    // f[i] is just after ':'
    bool spec(Spec& p) {
        if (i >= f.size()) return false;
        size_t len = 1;
        unsigned char c = (unsigned char)f[i];
        if (c >= 0xf0) len = 4; else if (c >= 0xe0) len = 3; else if (c >= 0xc0) len = 2;
        if (f[i] != '{' && f[i] != '}' && i + len < f.size() && is_align(f[i + len])) {
            if (c >= 0x80) { for (size_t k = 1; k < len; ++k) if (((unsigned char)f[i + k] & 0xc0) != 0x80) unknown = true; if (len == 1) unknown = true; }
            p.fill = f.substr(i, len); p.has_align = true; p.align = f[i + len]; i += len + 1;
        } else if (is_align(f[i])) { p.has_align = true; p.align = f[i]; ++i; }
        if (i < f.size() && (f[i] == '+' || f[i] == '-' || f[i] == ' ')) { p.sign = f[i]; ++i; }
        if (at('#')) { p.alt = true; ++i; }
        if (at('0')) { p.zero = true; ++i; }
        if (digit() ? f[i] != '0' : at('{')) if (!count(p.width)) return false;
        if (at('.')) { ++i; if (i < f.size() && !digit() && !at('{')) return false; if (!count(p.prec)) return false; }
        if (at('L')) { p.loc = true; ++i; }
        if (i < f.size() && f[i] != '}') {
            if (Str("dboxXBaAeEfFgGcsp?").find(f[i]) == Str::npos) return false;
            p.type = f[i++];
        }
        return at('}');
    }
    Out run() {
        Out o = {TEXT, ""};
        const Out err = {utf8(f) ? ERROR : UNKNOWN, ""};
        if (!utf8(f)) unknown = true;
        while (i < f.size()) {
            char c = f[i];
            if (c == '}') { if (i + 1 < f.size() && f[i + 1] == '}') { o.t += '}'; i += 2; continue; } return err; }
            if (c != '{') { o.t += c; ++i; continue; }
            ++i;
            if (i >= f.size()) return err;
            if (f[i] == '{') { o.t += '{'; ++i; continue; }
            size_t id;
            if (!arg_id(id)) return err;
            Spec p = {false, 0, " ", 0, false, false, false, 0, -1, 0};
            const Arg& a = args[id];
            if (at('}')) {
                ++i;
                if (a.k == SEQ) { o.t += a.s; continue; }
                Out r = format_one(a, p);
                if (r.w == ERROR) return err;
                if (r.w == UNKNOWN) o.w = UNKNOWN;
                o.t += r.t;
                continue;
            }
            ++i;   // ':'
            if (a.k == SEQ) { if (!at('}')) return err; ++i; o.t += a.s; continue; }
            if (!spec(p)) return err;
            ++i;
            if (p.width > 200000 || p.prec > 200000) unknown = true;
            else {
                Out r = format_one(a, p);
                if (r.w == ERROR) return err;
                if (r.w == UNKNOWN) o.w = UNKNOWN;
                o.t += r.t;
            }
        }
        if (unknown) o.w = UNKNOWN;
        return o;
    }
};

// values ------------------------------------------------------------------------------------
// decimal text near a rounding step: runs of nines, halves, just above and below them
static Str edge_text(Src& s) {
    Str o;
    size_t n = s.draw(4);
    for (size_t i = 0; i < n; ++i) o += (char)('0' + s.draw(10));
    o += Str(s.draw(24), "90"[s.draw(2)]);
    static const char* const tail[] = {"5", "49", "51", "95", "45", "4999999999999999999", "5000000000000000001", "9"};
    o += tail[s.draw(8)];
    if (s.flip()) o.insert(s.draw((unsigned)o.size() + 1), ".");
    if (o.find('.') != Str::npos || s.chance(1, 3)) { if (o[0] == '.') o = "0" + o; }
    if (s.chance(1, 3)) { char b[16]; snprintf(b, sizeof b, "e%d", s.range(-25, 25)); o += b; }
    if (s.chance(1, 4)) o = "-" + o;
    return o;
}
static double dval(Src& s) {
    switch (s.draw(11)) {
        case 9: case 10: return strtod(edge_text(s).c_str(), nullptr);
        case 0: return (double)s.range(-9, 9);
        case 1: return s.range(-2000, 2000) / 8.0;
        case 2: return s.range(-100000, 100000) / 100.0;
        case 3: { static const double t[] = {0.0, -0.0, 1e5, 1e15, 1e16, 1e17, 123456789012345678.0, 0.0001, 0.00001, 0.5, 1.5, 2.5, 0.125, 9.995, 99999.5, 0.05, DBL_MAX, DBL_MIN, 5e-324, -DBL_MAX, 9007199254740993.0, 1e22, 1e23, 3.0e-5, 4.35, 1.0 / 3}; return t[s.draw(sizeof t / sizeof *t)]; }
        case 4: { double x = (double)s.draw(1000000); int e = s.range(-30, 30); return x * std::pow(10.0, e); }
        case 5: { static const double t[] = {INFINITY, -INFINITY, NAN, -NAN}; return t[s.draw(4)]; }
        case 6: { double x = std::ldexp(1.0 + s.draw(4), s.range(-1074, 1020)); switch (s.draw(6)) { case 0: return std::nextafter(x, 0.0); case 1: return std::nextafter(x, INFINITY); case 2: return std::nextafter((float)x, 0.0f); case 3: return std::nextafter((float)x, INFINITY); default: return x; } }
        default: { uint64_t b = s.bits64(); double d; memcpy(&d, &b, sizeof d); return d; }
    }
}
static Str encode(unsigned c) {
    Str o;
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    return o;
}
// at either end of a range of double-width characters, or of an encoding length
static Str edge_point(Src& s) {
    static const unsigned e[] = {0x1100, 0x115f, 0x2329, 0x232a, 0x2e80, 0x303e, 0x3040, 0xa4cf, 0xac00, 0xd7a3, 0xf900, 0xfaff, 0xfe10, 0xfe19, 0xfe30, 0xfe6f, 0xff00, 0xff60, 0xffe0, 0xffe6, 0x1f300, 0x1f64f, 0x1f900, 0x1f9ff,
        0x20000, 0x2fffd, 0x30000, 0x3fffd, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x303f, 0xe000};
    unsigned c = e[s.draw(sizeof e / sizeof *e)];
    c = c + s.draw(3) - 1;
    if (c > 0x10ffff) c = 0x10ffff;
    if (c >= 0xd800 && c < 0xe000) c = 0xe000;
    return encode(c);
}
static Str sval(Src& s) {
    size_t n = s.chance(1, 12) ? 400 + s.draw(400) : s.len(12);
    Str o;
    static const char* const t[] = {"a", "b", "Z", " ", "{", "}", "\xc3\xa9", "0", "%", "\n"};
    static const char* const u[] = {"\xe2\x82\xac", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xe3\x80\xbf", "\xe1\x84\x80", "\xed\x95\x9c", "\xef\xbc\x81", "\xf0\xa0\x80\x80", "\xf0\x9f\xa4\x96", "\xe2\x8c\xaa", "\xef\xbd\xa1", "\xf0\x90\x8d\x88"};
    const bool other = s.chance(1, 8), edge = s.chance(1, 8);
    for (size_t i = 0; i < n; ++i) o += edge && s.chance(1, 3) ? edge_point(s) : other && s.chance(1, 3) ? Str(u[s.draw(12)]) : Str(t[s.draw(10)]);
    if (s.chance(1, 8)) { static const char* const q[] = {"\"", "\\", "\t", "\r", "\n", "~"}; for (size_t k = 1 + s.draw(4); k > 0; --k) o.insert(o.begin() + (long)o.size(), *q[s.draw(6)]); }
    if (edge && n) s.label("first or last character of a range of wide ones");
    if (other) s.label("3 and 4 byte characters");
    return o;
}
static long long iv(Src& s) {
    switch (s.draw(4)) {
        case 0: return s.range(-9, 30);
        case 1: return s.ival();
        case 2: { static const long long t[] = {LLONG_MIN, LLONG_MAX, INT_MIN, INT_MAX, 0, -1, 10, 99, 100, 999999999, 1000000000, 9999999999ll, -100, 255, 256}; return t[s.draw(15)]; }
        default: return (long long)s.bits64();
    }
}

typedef efp_fmt::format_context Ctx;
typedef efp_fmt::basic_format_arg<Ctx> FArg;
template<typename T> FArg farg(const T& v) { auto st = efp_fmt::make_format_args(v); return efp_fmt::format_args(st).get(0); }
struct Hold { virtual ~Hold() {} };
template<typename T> struct HoldOf : Hold { T v; explicit HoldOf(const T& x) : v(x) {} };
struct Args {
    std::vector<Arg> m;
    std::vector<FArg> a;
    std::vector<std::unique_ptr<Hold>> keep;
    template<typename T> const T& hold(const T& v) { HoldOf<T>* h = new HoldOf<T>(v); keep.emplace_back(h); return h->v; }
    void put(const Arg& x, const FArg& f) { m.push_back(x); a.push_back(f); }
    efp_fmt::format_args view() const { return efp_fmt::format_args(a.data(), (int)a.size()); }
};
static Arg arg(Kind k, const char* type) { Arg a; a.k = k; a.i = 0; a.u = 0; a.d = 0; a.ld = 0; a.cs = nullptr; a.type = type; return a; }
static Str text_of(int v) { char b[32]; snprintf(b, sizeof b, "%d", v); return b; }
template<typename S> Str seq_text(const S& x) {
    Str o = "[";
    for (size_t i = 0; i < (size_t)efp::length(x); ++i) o += (i ? ", " : "") + text_of(efp::nth(i, x));
    return o + "]";
}
template<typename T> void scalars(Src& s, Args& A, Kind, const char* name) {
    efp::Vector<T> v; Str t = "[";
    for (size_t n = s.draw(6); n > 0; --n) { T w = (T)iv(s); t += Str(v.empty() ? "" : ", ") + std::to_string(w); v.push_back(w); }
    Arg m = arg(SEQ, name); m.s = t + "]"; A.put(m, farg(A.hold(v)));
}
template<typename T> void floats(Src& s, Args& A, const char* name) {
    efp::Vector<T> v; Str t = "[";
    const Spec plain = {false, 0, " ", 0, false, false, false, 0, -1, 0};
    for (size_t n = s.draw(4); n > 0; --n) { T w = (T)dval(s); t += (v.empty() ? "" : ", ") + floating<T>(w, plain).t; v.push_back(w); }
    Arg m = arg(SEQ, name); m.s = t + "]"; A.put(m, farg(A.hold(v)));
}
static void add_arg(Src& s, Args& A) {
    Arg m;
    switch (s.draw(21)) {
        case 0: { int v = (int)iv(s); m = arg(SINT, "int"); m.i = v; A.put(m, farg(A.hold(v))); break; }
        case 1: { long long v = iv(s); m = arg(SINT, "long long"); m.i = v; A.put(m, farg(A.hold(v))); break; }
        case 2: { unsigned v = (unsigned)iv(s); m = arg(UINT, "unsigned"); m.u = v; A.put(m, farg(A.hold(v))); break; }
        case 3: { unsigned long long v = (unsigned long long)iv(s); m = arg(UINT, "unsigned long long"); m.u = v; A.put(m, farg(A.hold(v))); break; }
        case 4: { short v = (short)iv(s); m = arg(SINT, "short"); m.i = v; A.put(m, farg(A.hold(v))); break; }
        case 5: { unsigned char v = (unsigned char)iv(s); m = arg(UINT, "unsigned char"); m.u = v; A.put(m, farg(A.hold(v))); break; }
        case 6: { long v = (long)iv(s); m = arg(SINT, "long"); m.i = v; A.put(m, farg(A.hold(v))); break; }
        case 7: { bool v = s.flip(); m = arg(BOOL, "bool"); m.i = v; A.put(m, farg(A.hold(v))); break; }
        case 8: { char v = s.chance(1, 4) ? (char)s.draw(256) : "aZ0 {}\n~"[s.draw(8)]; m = arg(CHAR, "char"); m.i = v; A.put(m, farg(A.hold(v))); break; }
        case 9: { float v = (float)dval(s); m = arg(FLT, "float"); m.d = v; A.put(m, farg(A.hold(v))); break; }
        case 10: case 11: case 12: { double v = dval(s); m = arg(DBL, "double"); m.d = v; A.put(m, farg(A.hold(v))); break; }
        case 13: { long double v = s.chance(1, 3) ? strtold(edge_text(s).c_str(), nullptr) : (long double)dval(s); if (s.flip()) v /= 3; m = arg(LDBL, "long double"); m.ld = v; m.d = (double)v; A.put(m, farg(A.hold(v))); break; }
        case 14: { m = arg(CSTR, "const char*"); m.s = A.hold(sval(s)); m.cs = ((HoldOf<Str>*)A.keep.back().get())->v.c_str(); if (s.chance(1, 12)) m.cs = nullptr; A.put(m, farg(A.hold(m.cs))); break; }
        case 15: { m = arg(STR, "String"); m.s = sval(s); if (s.chance(1, 6)) m.s += Str("\0x", 2); A.put(m, farg(A.hold(efp::String(m.s.data(), m.s.size())))); break; }
        case 16: { m = arg(STR, "StringView"); m.s = A.hold(sval(s)); const Str& h = ((HoldOf<Str>*)A.keep.back().get())->v; A.put(m, farg(A.hold(efp::StringView(h.data(), h.size())))); break; }
        case 17: { m = arg(PTR, "const void*"); m.u = s.flip() ? (unsigned)s.ival() : s.bits64(); A.put(m, farg(A.hold((const void*)(uintptr_t)m.u))); break; }
        case 18: {
            efp::Vector<int> v; for (size_t n = s.len(20); n > 0; --n) v.push_back(s.ival());
            m = arg(SEQ, "Vector<int>"); m.s = seq_text(v); A.put(m, farg(A.hold(v))); break;
        }
        case 19: {
            switch (s.draw(3)) {
                case 0: { efp::Vcq<int, 3> v; for (size_t n = s.draw(8); n > 0; --n) v.push_back(s.ival()); if (v.size() > 1 && s.flip()) v.pop_front(); m = arg(SEQ, "Vcq<int,3>"); m.s = seq_text(v); A.put(m, farg(A.hold(v))); break; }
                case 1: { efp::Vcb<int, 3> v; for (size_t n = s.draw(8); n > 0; --n) v.push_back(s.ival()); m = arg(SEQ, "Vcb<int,3>"); m.s = seq_text(v); A.put(m, farg(A.hold(v))); break; }
                default: { efp::Array<int, 2> v{s.ival(), s.ival()}; m = arg(SEQ, "Array<int,2>"); m.s = seq_text(v); A.put(m, farg(A.hold(v))); }
            }
            break;
        }
        default: {
            switch (s.draw(20)) {
                case 8: scalars<short>(s, A, SINT, "Vector<short>"); break;
                case 9: scalars<unsigned short>(s, A, UINT, "Vector<unsigned short>"); break;
                case 10: scalars<unsigned char>(s, A, UINT, "Vector<unsigned char>"); break;
                case 11: scalars<signed char>(s, A, SINT, "Vector<signed char>"); break;
                case 12: scalars<long>(s, A, SINT, "Vector<long>"); break;
                case 13: scalars<unsigned long long>(s, A, UINT, "Vector<unsigned long long>"); break;
                case 14: scalars<unsigned>(s, A, UINT, "Vector<unsigned>"); break;
                case 15: floats<float>(s, A, "Vector<float>"); break;
                case 16: floats<long double>(s, A, "Vector<long double>"); break;
                case 17: {
                    efp::Vector<efp::StringView> v; Str t = "[";
                    for (size_t n = s.draw(4); n > 0; --n) { const Str& h = A.hold(sval(s)); t += (v.empty() ? "" : ", ") + h; v.push_back(efp::StringView(h.data(), h.size())); }
                    m = arg(SEQ, "Vector<StringView>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                case 19: {
                    efp::Vector<char*> v; Str t = "[";
                    for (size_t n = s.draw(4); n > 0; --n) { A.hold(sval(s)); Str& h = ((HoldOf<Str>*)A.keep.back().get())->v; t += (v.empty() ? "" : ", ") + Str(h.c_str()); v.push_back(&h[0]); }
                    m = arg(SEQ, "Vector<char*>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                case 18: {
                    efp::Vector<const void*> v; Str t = "[";
                    for (size_t n = s.draw(4); n > 0; --n) { const void* w = (const void*)(uintptr_t)s.bits64(); t += (v.empty() ? "" : ", ") + ("0x" + digits_of((uintptr_t)w, 16, false)); v.push_back(w); }
                    m = arg(SEQ, "Vector<const void*>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                case 4: {
                    efp::Vector<bool> v; Str t = "[";
                    for (size_t n = s.draw(5); n > 0; --n) { bool w = s.flip(); t += Str(v.empty() ? "" : ", ") + (w ? "true" : "false"); v.push_back(w); }
                    m = arg(SEQ, "Vector<bool>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                case 5: {
                    efp::ArrVec<long long, 4> v; Str t = "[";
                    for (size_t n = s.draw(5); n > 0; --n) { long long w = iv(s); t += Str(v.size() ? ", " : "") + std::to_string(w); v.push_back(w); }
                    m = arg(SEQ, "ArrVec<long long,4>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                case 6: {
                    efp::Vector<int> v; for (size_t n = s.big(2000); n > 0; --n) v.push_back(s.ival());
                    m = arg(SEQ, "Vector<int>"); m.s = seq_text(v); A.put(m, farg(A.hold(v))); break;
                }
                case 7: {
                    efp::Vcq<efp::String, 3> v; Str t = "[";
                    for (size_t n = s.draw(4); n > 0; --n) { Str w = sval(s); t += Str(v.size() ? ", " : "") + w; v.push_back(efp::String(w.data(), w.size())); }
                    m = arg(SEQ, "Vcq<String,3>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                case 0: { efp::ArrVec<int, 5> v; for (size_t n = s.draw(6); n > 0; --n) v.push_back(s.ival()); m = arg(SEQ, "ArrVec<int,5>"); m.s = seq_text(v); A.put(m, farg(A.hold(v))); break; }
                case 1: {
                    efp::Vector<efp::ArrVec<int, 2>> v; Str t = "[";
                    for (size_t n = s.draw(4); n > 0; --n) { efp::ArrVec<int, 2> w; for (size_t k = s.draw(3); k > 0; --k) w.push_back(s.ival()); t += (v.empty() ? "" : ", ") + seq_text(w); v.push_back(w); }
                    m = arg(SEQ, "Vector<ArrVec<int,2>>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                case 2: {
                    efp::Vector<double> v; Str t = "[";
                    const Spec plain = {false, 0, " ", 0, false, false, false, 0, -1, 0};
                    for (size_t n = s.draw(4); n > 0; --n) { double w = dval(s); t += (v.empty() ? "" : ", ") + floating<double>(w, plain).t; v.push_back(w); }
                    m = arg(SEQ, "Vector<double>"); m.s = t + "]"; A.put(m, farg(A.hold(v))); break;
                }
                default: {
                    efp::Vector<efp::String> v; Str t = "[";
                    for (size_t n = s.draw(4); n > 0; --n) { Str w = sval(s); t += (v.empty() ? "" : ", ") + w; v.push_back(efp::String(w.data(), w.size())); }
                    m = arg(SEQ, "Vector<String>"); m.s = t + "]"; A.put(m, farg(A.hold(v)));
                }
            }
        }
    }
    const Arg& x = A.m.back();
    PLOG(s, "argument " << A.m.size() - 1 << ": " << x.type << " " << (x.k == SINT ? std::to_string(x.i) : x.k == UINT || x.k == PTR ? std::to_string(x.u) : x.k == BOOL || x.k == CHAR ? std::to_string(x.i) : x.k == STR || x.k == CSTR || x.k == SEQ ? x.s : Str()));
    if (x.k == FLT || x.k == DBL || x.k == LDBL) PLOG(s, "    = " << (x.k == LDBL ? x.ld : (long double)x.d));
}

// format strings ----------------------------------------------------------------------------
static Str num(Src& s) {
    switch (s.draw(8)) {
        case 0: { static const char* const t[] = {"0", "00", "2147483647", "2147483648", "99999999999", "4294967297", "600", "1000"}; return t[s.draw(8)]; }
        case 1: return std::to_string(s.draw(700));
        default: return std::to_string(s.draw(24));
    }
}
static Str gen_spec(Src& s, const Arg* a, bool manual, size_t nargs, bool& dyn) {
    Str o;
    bool arith = !a || a->k <= LDBL, fl = !a || a->k == FLT || a->k == DBL || a->k == LDBL, str = !a || a->k == STR || a->k == CSTR;
    if (a && a->k == SEQ) return s.chance(1, 6) ? "5" : "";
    if (s.flip()) { if (s.flip()) { static const char* const f[] = {"*", " ", "0", "x", "<", "\xc3\xa9", "-", ":", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "}", "{"}; o += s.chance(1, 12) ? edge_point(s) : Str(f[s.draw(s.chance(1, 8) ? 12 : 10)]); } o += "<>^"[s.draw(3)]; }
    if (a && (a->k == STR || a->k == CSTR || a->k == CHAR) && s.chance(1, 8)) return "?";
    bool sg = !a || a->k == SINT || fl;
    if (s.draw(3) == 2 && (sg || s.chance(1, 20))) o += "+- "[s.draw(3)];
    if (s.chance(1, 4) && (arith || s.chance(1, 20))) o += "#";
    if (s.chance(1, 4) && (arith || s.chance(1, 20))) o += "0";
    if (s.flip()) {
        if (s.chance(1, 6)) { o += manual ? "{" + std::to_string(s.draw(nargs + 1)) + "}" : "{}"; dyn = true; }
        else o += num(s);
    }
    if (s.flip() && (fl || str || s.chance(1, 20))) {
        o += ".";
        if (s.chance(1, 6)) { o += manual ? "{" + std::to_string(s.draw(nargs + 1)) + "}" : "{}"; dyn = true; }
        else if (s.chance(1, 20)) {} else o += num(s);
    }
    if (s.chance(1, 12)) o += "L";
    if (s.flip()) {
        Str t = s.chance(1, 20) || !a ? "dboxXBaAeEfFgGcsp?nzi" : fl ? "eEfFgGaA" : str ? "s" : a->k == PTR ? "p" : a->k == BOOL ? "sdxbBoX" : a->k == CHAR ? "cdxbBoX" : "dboxXBc";
        o += t[s.draw(t.size())];
    }
    return o;
}
static Str literal(Src& s) {
    Str o;
    size_t n = s.chance(1, 10) ? 20 + s.draw(600) : s.draw(5);
    static const char* const t[] = {"a", "xyz", " ", "{{", "}}", ":", "%d", "\n", "\xc3\xa9", "0"};
    for (size_t i = 0; i < n; ++i) o += t[s.draw(10)];
    return o;
}
static Str gen_format(Src& s, const std::vector<Arg>& m) {
    Str o = literal(s);
    bool manual = s.chance(1, 3);
    size_t n = s.draw(m.size() > 4 ? (unsigned)m.size() + 2 : 4), next = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t id = manual ? s.draw(m.size() + (s.chance(1, 12) ? 2 : 0)) : next++;
        const Arg* a = id < m.size() ? &m[id] : nullptr;
        o += "{";
        if (manual) o += std::to_string(id);
        if (s.draw(4)) { bool dyn = false; o += ":" + gen_spec(s, a, manual, m.size(), dyn); if (dyn && !manual) ++next; }
        o += "}";
        o += literal(s);
    }
    return o;
}
static Str junk(Src& s) {
    static const char t[] = "{{{{}}}}::::....<<>>^^++-- ##000123456789dxXobBeEfFgGaAcspL?%n\0\xc3\xa9\xff_";
    Str o;
    size_t n = s.len(30);
    for (size_t i = 0; i < n; ++i) o += t[s.draw(sizeof t - 1)];
    return o;
}
static Str mangle(Src& s, Str f) {
    for (int k = 1 + (int)s.draw(3); k > 0; --k) {
        Str j = junk(s).substr(0, 1 + s.draw(2));
        size_t i = s.draw(f.size() + 1);
        switch (s.draw(4)) {
            case 0: f.insert(i, j); break;
            case 1: if (i < f.size()) f.erase(i, 1); break;
            case 2: f = f.substr(0, i); break;
            default: if (i < f.size()) f.replace(i, 1, j);
        }
    }
    return f;
}

static Str esc(const Str& s) {
    Str o;
    for (size_t i = 0; i < s.size() && i < 600; ++i) { unsigned char c = (unsigned char)s[i]; char b[8]; if (c < 32 || c == 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; }
    return o;
}
static Str str(const efp::String& s) { return Str(s.data(), s.size()); }
static bool same_digits(const Str& a, const Str& b) { return a == b; }

// expected result of any call that formats f; returns the text when there is one
template<typename F> bool judge(Src& s, const Str& f, const Out& e, const char* how, const F& call, Str& got) {
    bool threw = false;
    try { got = call(); } catch (const efp_fmt::format_error&) { threw = true; }
    if (e.w == ERROR) { PCHECK(threw, how << " of malformed \"" << esc(f) << "\" yielded \"" << esc(got) << "\""); s.label("rejected"); return false; }
    if (e.w == UNKNOWN) { s.label("not judged"); return !threw; }
    PCHECK(!threw, how << " of \"" << esc(f) << "\" raised an error, expected \"" << esc(e.t) << "\"");
    PCHECK(same_digits(got, e.t), how << " of \"" << esc(f) << "\" is \"" << esc(got) << "\", expected \"" << esc(e.t) << "\"");
    return true;
}
// copies of the format string in a block of exactly its size
struct Exact {
    std::unique_ptr<char[]> p; size_t n;
    explicit Exact(const Str& f) : p(new char[f.size()]), n(f.size()) { memcpy(p.get(), f.data(), n); }
    efp_fmt::string_view view() const { return efp_fmt::string_view(p.get(), n); }
};
static bool too_big(const Str& f) {   // widths and precisions that only cost memory
    unsigned long long v = 0;
    for (size_t i = 0; i < f.size(); ++i) { if (f[i] >= '0' && f[i] <= '9') { v = v * 10 + (unsigned)(f[i] - '0'); if (v > 5000 && v <= 2147483647ull) { size_t j = i + 1; if (!(j < f.size() && f[j] >= '0' && f[j] <= '9')) return true; } if (v > 1ull << 40) v = 1ull << 40; } else v = 0; }
    return false;
}
static bool dyn_big(const Str& f, const std::vector<Arg>& m) {
    if (f.find(":{") == Str::npos && f.find("{") == Str::npos) return false;
    size_t c = 0;
    for (size_t i = 0; i + 1 < f.size(); ++i) if (f[i] == '{') ++c;
    if (c < 2) return false;
    for (size_t i = 0; i < m.size(); ++i) if ((m[i].k == SINT && m[i].i > 5000 && m[i].i <= INT_MAX) || (m[i].k == UINT && m[i].u > 5000 && m[i].u <= INT_MAX)) return true;
    return false;
}
#ifdef HAVE_STD_FORMAT
static void against_std(Src&, const Str&, const efp::String&, const Out&, const Str&) {}
static void against_std(Src&, const Str&, const efp::StringView&, const Out&, const Str&) {}
template<typename T> void against_std(Src& s, const Str& spec, const T& v, const Out& e, const Str& got) {
    Str f = "{:" + spec + "}", t;
    try { t = std::vformat(f, std::make_format_args(v)); } catch (const std::format_error&) { return; }
    if (e.w == TEXT) { PCHECK(t == got, "\"" << f << "\" is \"" << esc(got) << "\", the standard library gives \"" << esc(t) << "\""); s.label("std::format"); }
}
#endif
static void vformat_case(Src& s) {
    Args A;
    size_t n = s.chance(1, 12) ? 5 + s.draw(18) : 1 + s.draw(4);
    for (size_t i = 0; i < n; ++i) add_arg(s, A);
    Str f;
    switch (s.draw(8)) {
        case 0: f = junk(s); break;
        case 1: f = mangle(s, gen_format(s, A.m)); break;
        default: f = gen_format(s, A.m);
    }
    if (too_big(f) || dyn_big(f, A.m)) { s.label("skipped: huge width"); return; }
    PLOG(s, "format string \"" << esc(f) << "\"");
    Out e = Ref(f, A.m).run();
    PLOG(s, "expected " << (e.w == TEXT ? "\"" + esc(e.t) + "\"" : e.w == ERROR ? "an error" : "(not judged)"));
    if (e.w == TEXT && f.find(':') != Str::npos) s.nontrivial();
    if (e.w == ERROR) s.nontrivial();
    Exact x(f);
    Str got, again;
    bool ok = judge(s, f, e, "vformat", [&] { return str(efp_fmt::vformat(x.view(), A.view())); }, got);
    if (ok && s.chance(1, 4)) {
        // bounded output: a prefix of the text, and its full length
        size_t lim = s.draw(got.size() + 3);
        std::unique_ptr<char[]> b(new char[lim]);
        auto r = efp_fmt::vformat_to_n(b.get(), lim, x.view(), A.view());
        PCHECK(r.size == got.size(), "vformat_to_n of \"" << esc(f) << "\" reports " << r.size << " characters, expected " << got.size());
        PCHECK((size_t)(r.out - b.get()) == std::min(lim, got.size()) && Str(b.get(), std::min(lim, got.size())) == got.substr(0, lim), "vformat_to_n of \"" << esc(f) << "\" wrote something else than a prefix");
        efp::String out("pre"); std::list<char> chars;
        const size_t n1 = efp_fmt::vformat_to_n(std::back_inserter(out), lim, x.view(), A.view()).size;
        const size_t n2 = efp_fmt::vformat_to_n(std::back_inserter(chars), lim, x.view(), A.view()).size;
        PCHECK(n1 == got.size() && n2 == got.size(), "vformat_to_n of \"" << esc(f) << "\" through an inserter reports " << n1 << " and " << n2 << " characters, expected " << got.size());
        PCHECK(str(out) == "pre" + got.substr(0, lim), "vformat_to_n of \"" << esc(f) << "\" appended \"" << esc(str(out)) << "\" to \"pre\", at most " << lim << " characters of \"" << esc(got) << "\" expected");
        PCHECK(Str(chars.begin(), chars.end()) == got.substr(0, lim), "vformat_to_n of \"" << esc(f) << "\" inserted something else than a prefix into a list");
    }
    if (s.chance(1, 4)) {
        // into a growing string
        bool threw = false;
        efp::String out("pre");
        try { efp_fmt::vformat_to(std::back_inserter(out), x.view(), A.view()); } catch (const efp_fmt::format_error&) { threw = true; }
        PCHECK(threw == !ok, "vformat_to of \"" << esc(f) << "\" " << (threw ? "raised" : "did not raise") << " an error");
        if (ok) PCHECK(str(out) == "pre" + got, "vformat_to of \"" << esc(f) << "\" appended \"" << esc(str(out)) << "\", expected \"" << esc(got) << "\"");
    }
}
// one value through efp::format with a run-time and (C++20: checked) constant format strings
template<typename T> void one_value(Src& s, const T& v, const Arg& m) {
    std::vector<Arg> ms(1, m);
    bool dyn = false;
    Str spec = gen_spec(s, &m, false, 1, dyn), f = "{:" + spec + "}";
    if (dyn || too_big(f)) { f = "{}"; spec = ""; }
    PLOG(s, m.type << " with \"" << f << "\"");
    Out e = Ref(f, ms).run();
    Exact x(f);
    Str got;
    s.nontrivial();
    bool ok = judge(s, f, e, "format", [&] { return str(efp::format(efp_fmt::runtime(x.view()), v)); }, got);
    (void)ok;
#ifdef HAVE_STD_FORMAT
    if (ok && m.k != SEQ) {
        bool fl = m.k == FLT || m.k == DBL || m.k == LDBL;
        bool typed = !spec.empty() && Str("eEfFgG").find(spec[spec.size() - 1]) != Str::npos;
        if ((!fl || (typed && spec.find("#") == Str::npos)) && ascii(f) && ascii(got)) against_std(s, spec, v, e, got);
    }
#endif
}
static void expect_text(const efp::String& g, const Str& e, const char* f) { PCHECK(e == "?" || str(g) == e, "format(\"" << f << "\") is \"" << esc(str(g)) << "\", expected \"" << esc(e) << "\""); }
static Str model(const char* f, const std::vector<Arg>& m) { Out o = Ref(f, m).run(); if (o.w == UNKNOWN) return "?"; if (o.w != TEXT) fail(Str("harness: ") + f); return o.t; }
static void constant_formats(Src& s) {
    int i = (int)iv(s); double d = dval(s); Str t = sval(s);
    efp::String str_(t.data(), t.size());
    efp::Vector<int> v; for (size_t n = s.draw(5); n > 0; --n) v.push_back(s.ival());
    Arg mi = arg(SINT, "int"), md = arg(DBL, "double"), ms = arg(STR, "String"), mv = arg(SEQ, "Vector<int>");
    mi.i = i; md.d = d; ms.s = t; mv.s = seq_text(v);
    std::vector<Arg> m; m.push_back(mi); m.push_back(md); m.push_back(ms); m.push_back(mv);
    PLOG(s, "constant format strings with " << i << ", " << d << ", \"" << esc(t) << "\", " << mv.s);
    s.nontrivial();
#define CF(F) expect_text(efp::format(F, i, d, str_, v), model(F, m), F)
    switch (s.draw(10)) {
        case 0: CF("{} {} {} {}"); break;
        case 1: CF("{0} {0:x} {0:#010X} {2}"); break;
        case 2: CF("{:>12}|{:<20}|{:^15}|{}"); break;
        case 3: CF("{3}{3}{{{1:e}}}"); break;
        case 4: CF("{:+d},{:.3f},{:*^9.4}"); break;
        case 5: CF("{:b} {:g} {:s}"); break;
        case 6: CF("{1:+012.2e}{0:c<5}"); break;
        case 7: CF("no arguments used"); break;
        case 8: CF("{:#o}{:.0f}{:.0}{}"); break;
        default: {
            PCHECK(str(efp_fmt::to_string(i)) == model("{}", m), "to_string of " << i << " is " << str(efp_fmt::to_string(i)));
            std::vector<Arg> m1(1, md);
            PCHECK(str(efp_fmt::to_string(d)) == model("{}", m1), "to_string of a double is " << str(efp_fmt::to_string(d)));
            size_t n = efp_fmt::formatted_size("{} {}", i, d);
            PCHECK(model("{} {}", m) == "?" || n == model("{} {}", m).size(), "formatted_size is " << n);
        }
    }
}
// numbers whose decimal expansion ends in 5, cut just before, at and after that 5, and powers of two with their neighbours
template<typename F> Arg farg_model(F v, const char* name) { Arg m = arg(std::is_same<F, float>::value ? FLT : std::is_same<F, double>::value ? DBL : LDBL, name); m.d = (double)v; m.ld = v; return m; }
template<typename F> void rounding(Src& s, const char* name, int emin, int emax) {
    F v; Str f;
    s.nontrivial();
    if (s.chance(1, 3)) {
        const int e0 = s.range(emin, emax), dir = (int)s.draw(3);
        // a run of powers of two
        for (int e = e0; e < e0 + 12 && e <= emax; ++e) {
            v = std::ldexp((F)1, e);
            if (dir) v = std::nextafter(v, dir == 1 ? (F)0 : (F)INFINITY);
            std::vector<Arg> ms(1, farg_model(v, name));
            const Str w = model("{}", ms);
            const Str g = str(efp::format("{}", v));
            PCHECK(g == w, name << " " << (long double)v << " (next to 2^" << e << ") is \"" << g << "\", expected \"" << w << "\"");
        }
        v = std::ldexp((F)1, e0);
        switch (dir) { case 1: v = std::nextafter(v, (F)0); break; case 2: v = std::nextafter(v, (F)INFINITY); break; default: break; }
        f = "{}";
        s.label("next to a power of two");
    } else {
        const int k = s.flip() ? s.range(1, 4) : s.range(1, 40);
        const unsigned m = 1 + 2 * s.draw(1u << s.draw(19));
        unsigned __int128 n = m;
        int odd5 = 0;
        for (; odd5 < k && n < ((unsigned __int128)1 << 120); ++odd5) n *= 5;
        if (odd5 < k) return;
        int D = 0; for (unsigned __int128 x = n; x; x /= 10) ++D;
        v = std::ldexp((F)m, -k);
        const char t = "feg"[s.draw(3)];
        int P = (t == 'f' ? k : t == 'e' ? D - 1 : D) - 1;
        if (s.chance(1, 4)) P += s.range(-2, 2);
        if (P < 0) P = 0;
        f = Str("{:") + (s.chance(1, 6) ? "#" : "") + "." + std::to_string(P) + (s.chance(1, 6) ? (char)(t - 32) : t) + "}";
        s.label("tie");
    }
    if (s.chance(1, 4)) v = -v;
    std::vector<Arg> ms(1, farg_model(v, name));
    PLOG(s, name << " " << (long double)v << " with \"" << f << "\"");
    Out e = Ref(f, ms).run();
    Exact x(f);
    Str got;
    judge(s, f, e, "format", [&] { return str(efp::format(efp_fmt::runtime(x.view()), v)); }, got);
}
// many arguments of mixed types through format itself
static void many(Src& s) {
    const int i0 = (int)iv(s), i1 = (int)iv(s); const long long l0 = iv(s), l1 = iv(s); const unsigned u0 = (unsigned)iv(s); const unsigned long long w0 = (unsigned long long)iv(s);
    const bool b0 = s.flip(); const char c0 = "aZ0 {}~\n"[s.draw(8)]; const double d0 = dval(s), d1 = dval(s); const float f0 = (float)dval(s);
    const Str t0 = sval(s), t1 = sval(s);
    const char* const z0 = t0.c_str(); const efp::String e0(t1.data(), t1.size()); const efp::StringView e1(t0.data(), t0.size());
    const void* const p0 = (const void*)(uintptr_t)s.bits64();
    efp::Vector<int> v; for (size_t n = s.draw(5); n > 0; --n) v.push_back(s.ival());
    std::vector<Arg> m;
    Arg a;
#define AI(K, N, F, V) a = arg(K, N); a.F = V; m.push_back(a)
    AI(SINT, "int", i, i0); AI(DBL, "double", d, d0); AI(STR, "String", s, t1); AI(CHAR, "char", i, c0); AI(UINT, "unsigned", u, u0); AI(BOOL, "bool", i, b0); AI(SINT, "long long", i, l0); AI(CSTR, "const char*", s, t0); m.back().cs = z0;
    AI(FLT, "float", d, f0); AI(PTR, "const void*", u, (uintptr_t)p0); AI(UINT, "unsigned long long", u, w0); AI(SEQ, "Vector<int>", s, seq_text(v)); AI(STR, "StringView", s, t0); AI(SINT, "int", i, i1); AI(DBL, "double", d, d1);
    AI(SINT, "long long", i, l1); AI(BOOL, "bool", i, !b0); AI(SINT, "int", i, i0);
#undef AI
    const unsigned k = s.draw(5);
    m.resize(k == 0 ? 3 : k == 1 ? 8 : k == 2 ? 15 : k == 3 ? 16 : 18);
    Str f = s.chance(1, 8) ? mangle(s, gen_format(s, m)) : gen_format(s, m);
    if (too_big(f) || dyn_big(f, m)) return;
    PLOG(s, m.size() << " arguments (int " << i0 << ", double " << d0 << ", String, char, unsigned, ...), \"" << esc(f) << "\"");
    Out e = Ref(f, m).run();
    Exact x(f);
    Str got;
    s.nontrivial();
    s.label("many arguments");
    judge(s, f, e, "format", [&]() -> Str {
        const auto r = efp_fmt::runtime(x.view());
        switch (k) {
            case 0: return str(efp::format(r, i0, d0, e0));
            case 1: return str(efp::format(r, i0, d0, e0, c0, u0, b0, l0, z0));
            case 2: return str(efp::format(r, i0, d0, e0, c0, u0, b0, l0, z0, f0, p0, w0, v, e1, i1, d1));
            case 3: return str(efp::format(r, i0, d0, e0, c0, u0, b0, l0, z0, f0, p0, w0, v, e1, i1, d1, l1));
            default: return str(efp::format(r, i0, d0, e0, c0, u0, b0, l0, z0, f0, p0, w0, v, e1, i1, d1, l1, !b0, i0));
        }
    }, got);
}
// named arguments, and sequences joined with a separator and a specification for each element
static void named(Src& s) {
    const int i0 = (int)iv(s), w0 = (int)s.draw(30); const double d0 = dval(s); const Str t0 = sval(s); const efp::String e0(t0.data(), t0.size());
    std::vector<Arg> m;
    Arg a = arg(SINT, "int"); a.i = i0; m.push_back(a);
    a = arg(DBL, "double"); a.d = d0; m.push_back(a);
    a = arg(SINT, "int"); a.i = w0; m.push_back(a);
    a = arg(STR, "String"); a.s = t0; m.push_back(a);
    static const char* const names[] = {"", "b_1", "width", "Text"};
    Str f = gen_format(s, m);
    // numbers of arguments become names
    Str g;
    for (size_t k = 0; k < f.size(); ++k) {
        g += f[k];
        if (f[k] == '{' && k + 1 < f.size() && s.flip()) {
            if (f[k + 1] == '{') { g += f[++k]; continue; }
            size_t e = k + 1;
            while (e < f.size() && f[e] >= '0' && f[e] <= '9') ++e;
            if (e < f.size() && (f[e] == '}' || f[e] == ':')) { g += names[s.draw(4)]; if (s.chance(1, 20)) g += "x"; k = e - 1; }
        }
    }
    if (too_big(g) || dyn_big(g, m)) return;
    PLOG(s, "int " << i0 << ", b_1 = " << d0 << ", width = " << w0 << ", Text = \"" << esc(t0) << "\", \"" << esc(g) << "\"");
    s.nontrivial();
    s.label("named arguments");
    Ref ref(g, m);
    ref.names.assign(names, names + 4);
    Out e = ref.run();
    Exact x(g);
    Str got;
    judge(s, g, e, "format", [&] { return str(efp::format(efp_fmt::runtime(x.view()), i0, efp_fmt::arg("b_1", d0), efp_fmt::arg("width", w0), efp_fmt::arg("Text", e0))); }, got);
}
static void joined(Src& s) {
    efp::Vector<int> v; std::vector<int> w;
    for (size_t n = s.draw(6); n > 0; --n) { w.push_back((int)iv(s)); v.push_back(w.back()); }
    Arg m = arg(SINT, "int"); m.i = w.empty() ? 0 : w[0];
    bool dyn = false;
    Str spec = gen_spec(s, &m, false, 1, dyn), f = "{:" + spec + "}";
    if (dyn || too_big(f)) { f = "{}"; spec = ""; }
    const Str sep = sval(s);
    PLOG(s, w.size() << " integers joined by \"" << esc(sep) << "\" with \"" << esc(f) << "\"");
    Out e = {TEXT, ""};
    if (w.empty()) { std::vector<Arg> ms(1, m); e.w = Ref(f, ms).run().w; }
    for (size_t k = 0; k < w.size(); ++k) {
        Arg a = arg(SINT, "int"); a.i = w[k];
        std::vector<Arg> ms(1, a);
        Out o = Ref(f, ms).run();
        if (o.w != TEXT) e.w = e.w == ERROR ? ERROR : o.w;
        e.t += (k ? sep : Str()) + o.t;
    }
    if (w.empty() && e.w == ERROR) e.w = UNKNOWN;
    s.nontrivial();
    s.label("joined");
    Exact x(f);
    Str got;
    judge(s, f, e, "format", [&] { return str(efp::format(efp_fmt::runtime(x.view()), efp_fmt::join(v.begin(), v.end(), efp_fmt::string_view(sep.data(), sep.size())))); }, got);
}
// print and println to the standard output, captured
static void printing(Src& s) {
    int i = (int)iv(s); Str t = sval(s);
    efp::String str_(t.data(), t.size());
    efp::Vector<int> v; for (size_t n = s.draw(5); n > 0; --n) v.push_back(s.ival());
    Arg mi = arg(SINT, "int"), ms = arg(STR, "String"), mv = arg(SEQ, "Vector<int>");
    mi.i = i; ms.s = t; mv.s = seq_text(v);
    std::vector<Arg> m; m.push_back(mi); m.push_back(ms); m.push_back(mv);
    PLOG(s, "print and println of " << i << ", \"" << esc(t) << "\", " << mv.s);
    s.nontrivial();
    s.label("printed");
    fflush(stdout);
    int old = dup(1), fd[2];
    if (old < 0 || pipe(fd) != 0) fail("harness: pipe");
    dup2(fd[1], 1);
    close(fd[1]);
    bool ln = s.flip();
    try {
        if (ln) efp::println("{:>7} {}|{}", i, str_, v); else efp::print("{:>7} {}|{}", i, str_, v);
    } catch (...) { fflush(stdout); dup2(old, 1); close(old); close(fd[0]); throw; }
    fflush(stdout);
    dup2(old, 1);
    close(old);
    Str got;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) got.append(b, (size_t)n);
    close(fd[0]);
    Str e = model("{:>7} {}|{}", m) + (ln ? "\n" : "");
    PCHECK(got == e, (ln ? "println" : "print") << " wrote \"" << esc(got) << "\", expected \"" << esc(e) << "\"");
}
void pbt_case(Src& s) {
    switch (s.draw(22)) {
        case 0: { int v = (int)iv(s); Arg m = arg(SINT, "int"); m.i = v; PLOG(s, v); one_value(s, v, m); break; }
        case 1: { unsigned long long v = (unsigned long long)iv(s); Arg m = arg(UINT, "unsigned long long"); m.u = v; PLOG(s, v); one_value(s, v, m); break; }
        case 2: { double v = dval(s); Arg m = arg(DBL, "double"); m.d = v; PLOG(s, v); one_value(s, v, m); break; }
        case 3: { float v = (float)dval(s); Arg m = arg(FLT, "float"); m.d = v; PLOG(s, v); one_value(s, v, m); break; }
        case 4: { bool v = s.flip(); Arg m = arg(BOOL, "bool"); m.i = v; PLOG(s, v); one_value(s, v, m); break; }
        case 5: { char v = "aZ0 {}~\n"[s.draw(8)]; Arg m = arg(CHAR, "char"); m.i = v; PLOG(s, v); one_value(s, v, m); break; }
        case 6: { long long v = iv(s); Arg m = arg(SINT, "long long"); m.i = v; PLOG(s, v); one_value(s, v, m); break; }
        case 7: { Str t = s.chance(1, 4) ? edge_point(s) : sval(s); Arg m = arg(STR, "String"); m.s = t; PLOG(s, esc(t)); one_value(s, efp::String(t.data(), t.size()), m); break; }
        case 8: { Str t = sval(s); Arg m = arg(CSTR, "const char*"); m.s = t; m.cs = t.c_str(); PLOG(s, esc(t)); one_value(s, m.cs, m); break; }
        case 9: { const void* v = (const void*)(uintptr_t)s.bits64(); Arg m = arg(PTR, "const void*"); m.u = (uintptr_t)v; one_value(s, v, m); break; }
        case 10: constant_formats(s); break;
        case 11: if (s.chance(1, 8)) printing(s); else many(s); break;
        case 12: switch (s.draw(4)) { case 0: named(s); break; case 1: joined(s); break; default: many(s); } break;
        case 13: switch (s.draw(3)) { case 0: rounding<float>(s, "float", -148, 126); break; case 1: rounding<double>(s, "double", -1073, 1022); break; default: rounding<long double>(s, "long double", s.chance(1, 3) ? -16000 : -300, s.chance(1, 3) ? 16000 : 300); } break;
        default: vformat_case(s);
    }
}
void pbt_reset() {}
void pbt_end(Src&) {}
