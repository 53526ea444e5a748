// C04: owning strings and string views against std::basic_string, over histories.
#include "efp.hpp"
#include "pbt.hpp"
#include <string>
#include <list>
#include <memory>
#include <list>
#include <iterator>
using namespace pbt;

const char* const pbt_name = "c04_string";
const char* const pbt_rule = "";

template<typename F>
bool throws(const F& f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

template<typename C>
std::string showc(const std::basic_string<C>& s) {
    std::ostringstream o;
    o << "\"";
    for (size_t i = 0; i < s.size() && i < 60; ++i) {
        unsigned long u = (unsigned long)(typename std::make_unsigned<typename std::conditional<std::is_same<C, char>::value, char, unsigned>::type>::type)s[i];
        if (u >= 32 && u < 127) o << (char)u; else o << "\\x" << std::hex << u << std::dec << ";";
    }
    o << "\"(" << s.size() << ")";
    return o.str();
}

// an input iterator: all copies share the place, what was passed is gone
template<typename C> struct OnePass {
    typedef std::input_iterator_tag iterator_category;
    typedef C value_type; typedef ptrdiff_t difference_type; typedef const C* pointer; typedef const C& reference;
    std::shared_ptr<std::basic_string<C>> rest;    // last character first
    OnePass() {}
    explicit OnePass(const std::basic_string<C>& t) : rest(new std::basic_string<C>(t.rbegin(), t.rend())) {}
    bool end() const { return !rest || rest->empty(); }
    bool operator==(const OnePass& o) const { return end() == o.end(); }
    bool operator!=(const OnePass& o) const { return end() != o.end(); }
    C operator*() const { return rest->back(); }
    OnePass& operator++() { rest->pop_back(); return *this; }
    OnePass operator++(int) { OnePass o(*this); ++*this; return o; }
};

template<typename C> struct ToStd {
    static void check(const efp::BasicString<C>&, const std::basic_string<C>&) {}
    static void check_view(const efp::BasicStringView<C>&, const std::basic_string<C>&) {}
};
template<> struct ToStd<char> {
    static void check(const efp::String& x, const std::string& m) {
        std::string t = x;
        PCHECK(t == m, "conversion to std::string gives " << showc(t) << ", expected " << showc(m));
    }
    static void check_view(const efp::StringView& x, const std::string& m) {
        std::string t = x;
        PCHECK(t == m, "conversion of a view to std::string gives " << showc(t) << ", expected " << showc(m));
    }
};

template<typename C>
struct Pool {
    typedef efp::BasicString<C> S;
    typedef std::basic_string<C> M;
    typedef efp::BasicStringView<C> W;
    static const int K = 3;
    S* v[K];
    M m[K];
    Src& s;
    size_t maxlen;
    explicit Pool(Src& s_) : s(s_), maxlen(0) { for (int i = 0; i < K; ++i) v[i] = new S(); }
    ~Pool() { for (int i = 0; i < K; ++i) delete v[i]; }

    C chr(bool nul) {
        switch (s.draw(8)) {
            case 0: case 1: case 2: case 3: return (C)('a' + s.draw(3));
            case 4: return (C)(' ' + s.draw(95));
            case 5: return nul ? (C)0 : (C)'z';
            case 6: { C c = (C)(0x80 + s.draw(0x80)); return c; }
            default: { C c = (C)s.draw(1ull << (8 * sizeof(C) > 20 ? 20 : 8 * sizeof(C))); return c == 0 && !nul ? (C)'x' : c; }
        }
    }
    M text(bool nul, size_t max) {
        M r;
        if (s.chance(1, 40)) {   // a long text from one seed
            size_t n = s.big(max > 8 ? 80000 : 400);
            uint64_t z = s.draw(1ull << 32);
            const bool plain = s.flip();
            for (size_t i = 0; i < n; ++i) {
                z = z * 6364136223846793005ull + 1442695040888963407ull;
                C c = plain ? (C)('a' + (z >> 63)) : (C)(z >> 44);
                r.push_back(c == 0 && !nul ? (C)'x' : c);
            }
            s.label("long text");
            return r;
        }
        size_t n = s.len(max);
        for (size_t i = 0; i < n; ++i) r.push_back(chr(nul));
        return r;
    }

    void verify(int i, const char* after, bool term) {
        const S& x = *v[i];
        S& y = *v[i];
        const M& mm = m[i];
        PCHECK(x.size() == mm.size(), "after " << after << " on s" << i << ": size " << x.size() << ", expected " << showc(mm));
        PCHECK(x.empty() == mm.empty() && efp::length(x) == mm.size(), "after " << after << ": emptiness or length");
        PCHECK(x.capacity() >= x.size(), "after " << after << ": capacity below size");
        PCHECK((size_t)(x.end() - x.begin()) == mm.size() && (size_t)(y.end() - y.begin()) == mm.size(), "after " << after << ": iteration range");
        for (size_t k = 0; k < mm.size(); ++k)
            PCHECK(x[k] == mm[k] && y[k] == mm[k] && x.data()[k] == mm[k], "after " << after << " on s" << i << ": character " << k << " differs from " << showc(mm));
        if (term) {
            const C* c = x.c_str();
            PCHECK(c != nullptr, "c_str() is null");
            for (size_t k = 0; k < mm.size(); ++k) PCHECK(c[k] == mm[k], "after " << after << ": c_str character " << k);
            PCHECK(c[mm.size()] == C(), "after " << after << ": c_str is not null-terminated");
        }
        if (mm.size() > maxlen) maxlen = mm.size();
    }
    // a null-terminated part of string i itself
    bool part(int i, size_t& off, M& t) {
        if (!s.chance(1, 4) || m[i].size() > 600) return false;
        off = s.draw((unsigned)m[i].size() + 1);
        t = M(m[i].c_str() + off);
        s.label("a part of the string itself");
        return true;
    }
    void set(int i, S* n, const M& mm) { delete v[i]; v[i] = n; m[i] = mm; }
    void reject(bool threw, const char* what) { PCHECK(threw, what << " was not rejected"); s.label("rejected"); }

    void step() {
        int i = s.draw(K), j = s.draw(K);
        S& x = *v[i];
        M& mi = m[i];
        size_t n = mi.size();
        const char* op = "";
        switch (s.draw(30)) {
            case 0: case 1: {
                M t = text(false, 20);
                op = "construction from a null-terminated text";
                PLOG(s, "s" << i << " = String(" << showc(t) << ")");
                set(i, new S(t.c_str()), t);
                break;
            }
            case 2: {
                M t = text(true, 20);
                op = "construction from characters and a count";
                size_t k = s.draw(t.size() + 1);
                PLOG(s, "s" << i << " = String(" << showc(t) << ", " << k << ")");
                set(i, new S(t.data(), k), t.substr(0, k));
                break;
            }
            case 3: {
                size_t k = s.chance(1, 24) ? s.big(80000) : s.len(20);
                C c = chr(true);
                op = "construction of repeated characters";
                PLOG(s, "s" << i << " = String(" << k << ", c)");
                set(i, new S(k, c), M(k, c));
                break;
            }
            case 4: {
                M t = text(true, 20);
                op = "construction from a range";
                PLOG(s, "s" << i << " = String(range of " << showc(t) << ")");
                const int kind = s.draw(3);
                if (kind == 2) { OnePass<C> p(t); set(i, new S(p, OnePass<C>()), t); }
                else if (kind) { const C* b = t.data(); set(i, new S(b, b + t.size()), t); }
                else { std::list<C> l(t.begin(), t.end()); set(i, new S(l.begin(), l.end()), t); }
                break;
            }
            case 5: {
                C a = chr(true), b = chr(true);
                op = "construction from a list or fixed sequence";
                int k = s.draw(4);
                PLOG(s, "s" << i << " = String from list kind " << k);
                if (k == 0) set(i, new S(), M());
                else if (k == 1) set(i, new S {a, b, a}, M {a, b, a});
                else if (k == 2) { efp::Array<C, 4> arr {a, b, b, a}; set(i, new S(arr), M {a, b, b, a}); }
                else { efp::ArrVec<C, 4> arr; arr.push_back(a); arr.push_back(b); set(i, new S(arr), M {a, b}); }
                break;
            }
            case 6: {
                op = "copy construction";
                PLOG(s, "s" << i << " = String(s" << j << ")");
                M mm = m[j];
                set(i, new S(const_cast<const S&>(*v[j])), mm);
                verify(j, "being copied", false);
                break;
            }
            case 7: {
                if (i == j) break;
                op = "move construction";
                PLOG(s, "s" << i << " = String(move s" << j << ")");
                M mm = m[j];
                S* t = new S(efp::move(*v[j]));
                m[j].clear();
                set(i, t, mm);
                verify(j, "being moved from", s.flip());
                break;
            }
            case 8: case 9: {
                bool mv = s.flip();
                op = mv ? "move assignment" : "copy assignment";
                PLOG(s, "s" << i << " = " << (mv ? "move s" : "s") << j);
                if (mv) x = efp::move(*v[j]); else x = const_cast<const S&>(*v[j]);
                if (i != j) { m[i] = m[j]; if (mv) m[j].clear(); }
                verify(j, "being assigned from", false);
                break;
            }
            case 10: case 11: {
                op = "+=";
                PLOG(s, "s" << i << " += s" << j);
                if (m[i].size() + m[j].size() > 2000) break;
                S& r = (x += *v[j]);
                PCHECK(&r == &x, "+= does not return its left side");
                M t = m[j];
                mi += t;
                if (i == j && n) s.label("self-append");
                verify(j, "being appended from", false);
                break;
            }
            case 12: {
                size_t off; M t;
                const bool own = part(i, off, t);
                if (!own) t = text(false, 16);
                op = own ? "append(a part of itself)" : "append(text)";
                PLOG(s, "s" << i << ".append(" << (own ? "its own " : "") << showc(t) << ")");
                S& r = own ? x.append(const_cast<const S&>(x).c_str() + off) : x.append(t.c_str());
                PCHECK(&r == &x, "append does not return its receiver");
                mi.append(t);
                break;
            }
            case 13: {
                size_t k = s.chance(1, 24) ? s.big(2000) : s.len(16);
                C c = chr(true);
                op = "append(n, c)";
                PLOG(s, "s" << i << ".append(" << k << ", c)");
                x.append(k, c);
                mi.append(k, c);
                break;
            }
            case 14: {
                op = "assign";
                size_t off; M t;
                if (part(i, off, t)) { PLOG(s, "s" << i << ".assign(its own " << showc(t) << ")"); x.assign(const_cast<const S&>(x).c_str() + off); mi = t; }
                else if (s.flip()) { t = text(false, 16); PLOG(s, "s" << i << ".assign(" << showc(t) << ")"); x.assign(t.c_str()); mi = t; }
                else { size_t k = s.chance(1, 24) ? s.big(2000) : s.len(16); C c = chr(true); PLOG(s, "s" << i << ".assign(" << k << ", c)"); x.assign(k, c); mi.assign(k, c); }
                break;
            }
            case 15: case 16: {
                size_t off; M t;
                const bool own = part(i, off, t);
                if (!own) t = text(false, 12);
                size_t pos = s.chance(1, 10) ? n + 1 + s.draw(3) : s.draw(n + 1);
                op = own ? "insert(pos, a part of itself)" : "insert(pos, text)";
                PLOG(s, "s" << i << ".insert(" << pos << ", " << (own ? "its own " : "") << showc(t) << ")");
                if (pos > n) reject(throws([&] { x.insert(pos, t.c_str()); }), "insert past the end");
                else if (own) { x.insert(pos, const_cast<const S&>(x).c_str() + off); mi.insert(pos, t); }
                else { x.insert(pos, t.c_str()); mi.insert(pos, t); }
                break;
            }
            case 17: {
                size_t off; M t;
                const bool own = part(i, off, t);
                if (own) t = mi.substr(off); else t = text(true, 12);
                size_t k = s.draw(t.size() + 1);
                size_t pos = s.chance(1, 10) ? n + 1 + s.draw(3) : s.draw(n + 1);
                op = "insert(pos, text, n)";
                PLOG(s, "s" << i << ".insert(" << pos << ", " << (own ? "its own " : "") << showc(t) << ", " << k << ")");
                if (pos > n) reject(throws([&] { x.insert(pos, t.c_str(), k); }), "insert past the end");
                else if (own) { x.insert(pos, const_cast<const S&>(x).data() + off, k); mi.insert(pos, t, 0, k); }
                else { x.insert(pos, t.c_str(), k); mi.insert(pos, t, 0, k); }
                break;
            }
            case 18: {
                size_t pos = s.chance(1, 10) || n == 0 ? n + s.draw(3) : s.draw(n);
                op = "erase";
                PLOG(s, "s" << i << ".erase(" << pos << ")");
                if (pos >= n) reject(throws([&] { x.erase(pos); }), "erase of a missing index");
                else { x.erase(pos); mi.erase(pos, 1); }
                break;
            }
            case 19: {
                op = "push_back/pop_back";
                if (s.flip()) { C c = chr(true); PLOG(s, "s" << i << ".push_back"); x.push_back(c); mi.push_back(c); }
                else if (n == 0) reject(throws([&] { x.pop_back(); }), "pop_back on an empty string");
                else { PLOG(s, "s" << i << ".pop_back"); x.pop_back(); mi.erase(n - 1); }
                break;
            }
            case 20: {
                op = "clear/resize/reserve/shrink_to_fit";
                int k = s.draw(4);
                size_t z = s.chance(1, 24) ? s.big(80000) : s.len(40);
                PLOG(s, "s" << i << " clear/resize/reserve/shrink #" << k << " " << z);
                if (k == 0) { x.clear(); mi.clear(); }
                else if (k == 1) { x.resize(z); mi.resize(z); }
                else if (k == 2) { x.reserve(z); PCHECK(x.capacity() >= z, "capacity below reserved"); }
                else { x.shrink_to_fit(); PCHECK(x.capacity() <= x.size() + 1, "shrink_to_fit left room for " << x.capacity() << " with " << x.size() << " characters"); }
                break;
            }
            case 21: case 22: {
                size_t pos = s.chance(1, 10) ? n + 1 + s.draw(3) : s.draw(n + 1);
                size_t len = s.chance(1, 4) ? (size_t)-1 - s.draw(3) : s.draw(n + 3);
                int how = s.draw(3);
                if (how == 1) len = (size_t)-1;
                if (how == 2) { pos = 0; len = (size_t)-1; }
                op = "substr";
                PLOG(s, "s" << i << ".substr(" << pos << ", " << len << ")");
                if (pos > n) reject(throws([&] { S t = x.substr(pos, len); }), "substr past the end");
                else {
                    S t = how == 0 ? const_cast<const S&>(x).substr(pos, len) : how == 1 ? const_cast<const S&>(x).substr(pos) : const_cast<const S&>(x).substr();
                    M w = mi.substr(pos, len);
                    PCHECK(t.size() == w.size(), "substr length " << t.size() << ", expected " << showc(w));
                    for (size_t k = 0; k < w.size(); ++k) PCHECK(t[k] == w[k], "substr character " << k);
                    PCHECK(t.c_str()[w.size()] == C(), "substr is not null-terminated");
                    s.label("substr");
                    if (s.flip()) { int q = s.draw(K); set(q, new S(efp::move(t)), w); verify(q, "substr", true); }
                }
                break;
            }
            case 23: {
                size_t pos = s.chance(1, 10) ? n + 1 + s.draw(3) : s.draw(n + 1);
                size_t cnt = s.draw(n + 4);
                op = "copy";
                PLOG(s, "s" << i << ".copy(buf, " << cnt << ", " << pos << ")");
                std::vector<C> buf(n + 8, (C)0x5a), want(n + 8, (C)0x5a);
                if (pos > n) reject(throws([&] { x.copy(buf.data(), cnt, pos); }), "copy past the end");
                else {
                    size_t r = x.copy(buf.data(), cnt, pos), w = mi.copy(want.data(), cnt, pos);
                    PCHECK(r == w, "copy returned " << r << ", expected " << w);
                    PCHECK(buf == want, "copy wrote the wrong characters");
                    r = x.copy(buf.data(), cnt); w = mi.copy(want.data(), cnt);
                    PCHECK(r == w && buf == want, "copy from the start, " << r << " characters, expected " << w);
                }
                break;
            }
            case 24: case 25: {
                op = "compare";
                // make near-equal operands likely
                if (s.chance(1, 2)) {
                    M t = mi.substr(0, s.draw(n + 1));
                    if (s.flip()) t.push_back(chr(true));
                    if (s.chance(1, 3)) { t = mi; if (n) t[s.draw(n)] = chr(true); }
                    set(j, new S(t.data(), t.size()), t);
                    if (i == j) { verify(i, "construction", false); break; }
                }
                const S &a = *v[i], &b = *v[j];
                PLOG(s, "compare s" << i << " = " << showc(m[i]) << " with s" << j << " = " << showc(m[j]));
                int w = sgn(m[i].compare(m[j]));
                PCHECK(sgn(a.compare(b)) == w, "compare gives " << a.compare(b) << ", expected sign " << w);
                PCHECK((a == b) == (w == 0), "== disagrees with comparison");
                size_t pos = s.chance(1, 10) ? m[i].size() + 1 + s.draw(2) : s.draw(m[i].size() + 1), len = s.draw(m[i].size() + 3);
                if (pos > m[i].size()) reject(throws([&] { a.compare(pos, len, b); }), "compare past the end");
                else {
                    int w2 = sgn(m[i].compare(pos, len, m[j]));
                    PCHECK(sgn(a.compare(pos, len, b)) == w2, "compare(" << pos << ", " << len << ") gives " << a.compare(pos, len, b) << ", expected sign " << w2);
                }
                s.label("compare");
                break;
            }
            case 26: {
                op = "== text";
                M t = s.flip() ? M(mi.c_str()) : text(false, 8);
                if (!t.empty() && s.chance(1, 3)) t[s.draw(t.size())] = chr(false);
                PLOG(s, "s" << i << " == " << showc(t));
                bool w = mi == t;
                PCHECK((const_cast<const S&>(x) == t.c_str()) == w, "== " << showc(t) << " is wrong for " << showc(mi));
#if __cplusplus >= 202002L
                PCHECK((const_cast<const S&>(x) != t.c_str()) == !w, "!= " << showc(t) << " is wrong for " << showc(mi));
#endif
                if (n) PCHECK(!(const_cast<const S&>(x) == (const C*)nullptr) && !(W(const_cast<const S&>(x)) == (const C*)nullptr), "text equal to a null pointer");
                PCHECK(S() == (const C*)nullptr && W() == (const C*)nullptr, "an empty string without storage differs from a null pointer");
                break;
            }
            case 27: {
                op = "at/front/back/element assignment";
                size_t pos = s.draw(n + 3);
                PLOG(s, "s" << i << ".at(" << pos << ")");
                if (pos >= n) reject(throws([&] { x.at(pos); }), "at past the end");
                else {
                    PCHECK(x.at(pos) == mi[pos], "at(" << pos << ")");
                    PCHECK(x.front() == mi[0] && x.back() == mi[n - 1], "front/back");
                    C c = chr(true);
                    if (s.flip()) x[pos] = c; else efp::nth(pos, x) = c;
                    mi[pos] = c;
                }
                break;
            }
            default: {
                op = "views";
                PLOG(s, "views of s" << i);
                const S& cx = x;
                W a(cx), b(cx.data(), cx.size());
                W all[2] = {a, b};
                for (int q = 0; q < 2; ++q) {
                    const W& w = all[q];
                    PCHECK(w.size() == n && w.empty() == (n == 0) && efp::length(w) == n, "view size " << w.size() << ", expected " << n);
                    for (size_t k = 0; k < n; ++k) PCHECK(&w[k] == &cx[k] && w[k] == mi[k] && &efp::nth(k, w) == &cx[k], "view element " << k);
                    PCHECK(w.begin() == cx.begin() && w.end() == cx.end(), "view range");
                    ToStd<C>::check_view(w, mi);
                    M t = s.flip() ? M(mi.c_str()) : text(false, 6);
                    PCHECK((w == t.c_str()) == (mi == t), "view == text is wrong for " << showc(mi) << " and " << showc(t));
                }
                PCHECK(a == b && b == a, "two views of the same characters are unequal");
                W c;
                c = a;
                PCHECK(c == a, "an assigned view differs from its source");
                if (n >= 2) {
                    W d(cx.data(), n - 1), e(cx.data() + 1, n - 1);
                    PCHECK(!(d == a) && !(e == d), "views of different ranges are equal");
                }
                M t = text(false, 10);
                W f(t.c_str());
                PCHECK(f.size() == t.size() && (f == t.c_str()) && f.c_str() == t.c_str(), "view of a null-terminated text");
                PCHECK(f == W(t.c_str(), t.size()), "views of the same text are unequal");
                ToStd<C>::check(cx, mi);
                break;
            }
        }
        if (*op) verify(i, op, s.flip());
    }
};

template<typename C>
void history(Src& s, const char* name) {
    PLOG(s, "character type " << name);
    Pool<C> p(s);
    int n = 1 + (int)s.len(50);
    for (int k = 0; k < n && !s.exhausted(); ++k) p.step();
    for (int i = 0; i < p.K; ++i) p.verify(i, "the whole history", true);
    if (n >= 4 && p.maxlen >= 3) s.nontrivial();
}

void pbt_case(Src& s) {
    switch (s.draw(8)) {
        case 0: case 1: case 2: case 3: history<char>(s, "char"); break;
        case 4: history<wchar_t>(s, "wchar_t"); break;
        case 5: history<char16_t>(s, "char16_t"); break;
        case 6: history<char32_t>(s, "char32_t"); break;
        default:
#if __cplusplus >= 202002L
            history<char8_t>(s, "char8_t");
#else
            history<char>(s, "char");
#endif
    }
}
void pbt_reset() {}
void pbt_end(Src&) {}
