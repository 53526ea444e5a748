// C21: one program over all parts of the library; every result it sees goes into the case's
// observation text, which is compared between builds (standards, compilers, optimisation).
// Draws are sequenced statement by statement: the program itself must not depend on
// unspecified evaluation order.
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
#include <cmath>
#include <cstring>
#include <functional>
using namespace pbt;

const char* const pbt_name = "c21_digest";
const char* const pbt_rule = "";

// observations -------------------------------------------------------------------------------
static std::string& ob() { return pbt::observed(); }
static void put(const char* x) { ob() += x; }
static void put(const std::string& x) { char b[24]; snprintf(b, sizeof b, "%zu:", x.size()); ob() += b; ob() += x; ob() += ' '; }
static void put(bool x) { ob() += x ? "T " : "F "; }
static void put(long long x) { char b[32]; snprintf(b, sizeof b, "%lld ", x); ob() += b; }
static void put(unsigned long long x) { char b[32]; snprintf(b, sizeof b, "%llu ", x); ob() += b; }
static void put(int x) { put((long long)x); }
static void put(unsigned x) { put((unsigned long long)x); }
static void put(long x) { put((long long)x); }
static void put(unsigned long x) { put((unsigned long long)x); }
static void put(char x) { put((int)x); }
static void put(unsigned char x) { put((int)x); }
static void put(double x) { if (x != x) { ob() += "nan "; return; } char b[64]; snprintf(b, sizeof b, "%a ", x); ob() += b; }
static void put(float x) { put((double)x); }
static void put(const efp::Unit&) { ob() += "unit "; }
struct One { int v; };
static void put(const One& o) { put(o.v); }
static void put(const std::pair<int, int>& x) { put(x.first); put(x.second); }
static void put(const efp::String& x);
template<typename A> void put(const efp::Maybe<A>& m);
template<typename A, size_t n> void put(const efp::Array<A, n>& x);
template<typename A, size_t n> void put(const efp::ArrVec<A, n>& x);
template<typename A> void put(const efp::Vector<A>& x);
template<typename A, size_t n> void put(const efp::ArrayView<A, n>& x);
template<typename A, size_t n> void put(const efp::ArrVecView<A, n>& x);
template<typename A> void put(const efp::VectorView<A>& x);
template<typename A, size_t n> void put(const efp::Vcb<A, n>& x);
template<typename A, size_t n> void put(const efp::Vcq<A, n>& x);
template<typename A, typename B> void put(const efp::Tuple<A, B>& t);
template<typename A> void put(const efp::Maybe<A>& m) { if (m.has_value()) { ob() += "just "; put(m.value()); } else ob() += "nothing "; }
static void put(const efp::String& x) { put(std::string(x.data() ? x.data() : "", x.size())); }
template<typename S> auto put_seq(const S& x) -> void {
    const size_t n = efp::length(x);
    ob() += "[";
    for (size_t i = 0; i < n; ++i) put(efp::nth(i, x));
    ob() += "] ";
}
template<typename A, size_t n> void put(const efp::Array<A, n>& x) { put_seq(x); }
template<typename A, size_t n> void put(const efp::ArrVec<A, n>& x) { put_seq(x); }
template<typename A> void put(const efp::Vector<A>& x) { put_seq(x); }
template<typename A, size_t n> void put(const efp::ArrayView<A, n>& x) { put_seq(x); }
template<typename A, size_t n> void put(const efp::ArrVecView<A, n>& x) { put_seq(x); }
template<typename A> void put(const efp::VectorView<A>& x) { put_seq(x); }
template<typename A, size_t n> void put(const efp::Vcb<A, n>& x) { put_seq(x); }
template<typename A, size_t n> void put(const efp::Vcq<A, n>& x) { put_seq(x); }
template<typename A> void put(const std::vector<A>& x) { put_seq(x); }
template<typename A, size_t n> void put(const std::array<A, n>& x) { put_seq(x); }
template<typename A, typename B> void put(const efp::Tuple<A, B>& t) { ob() += "("; put(efp::get<0>(t)); put(efp::get<1>(t)); ob() += ") "; }
template<typename A, typename B, typename C> void put(const efp::Tuple<A, B, C>& t) { ob() += "("; put(efp::get<0>(t)); put(efp::get<1>(t)); put(efp::get<2>(t)); ob() += ") "; }
#define OB(NAME, X) do { PLOG(s, NAME); ob() += NAME " "; put(X); ob() += '\n'; } while (0)
// a result that may be an error
#define OBT(NAME, X) do { PLOG(s, NAME); ob() += NAME " "; try { put(X); } catch (const std::exception&) { ob() += "error "; } ob() += '\n'; } while (0)

// callables ----------------------------------------------------------------------------------
static int twice(int x) { return (int)(2u * (unsigned)x); }
static int quiet(int x) noexcept { return x ^ 5; }
struct Acc { mutable unsigned n; Acc() : n(0) {} int operator()(int x) const { ob() += "c"; put(x); return x / 2; } };
struct Over { int operator()(int x) const { return x + 1; } long long operator()(double x) const { return (long long)x; } std::string operator()(const std::string& x) const { return x + "!"; } };
static int g_cell[4];
static int& cell(int i) { return g_cell[i & 3]; }
static const std::string& same(const std::string& x) { return x; }
struct Mem { int v; int plus(int x) const { return v + x; } int get() const { return v; } int lone() noexcept { return v; } };
static bool odd(int x) { return x & 1; }

static std::vector<int> ints(Src& s, size_t max) { size_t n = max > 100 && s.chance(1, 12) ? s.big(max) : s.len(max > 100 ? 12 : max); std::vector<int> r(n); for (size_t i = 0; i < n; ++i) r[i] = s.range(-99, 99); return r; }
template<typename V> V fill(const std::vector<int>& m) { V v; for (size_t i = 0; i < m.size(); ++i) v.push_back(m[i]); return v; }

// compile-time facts
static void traits(Src& s) {
    using namespace efp;
    typedef int (*FP)(int);
    auto lam = [](int x) { return x; };
    typedef decltype(lam) L;
    OB("invocable fn", (IsInvocable<FP, int>::value));
    OB("invocable fn str", (IsInvocable<FP, std::string>::value));
    OB("invocable fn none", (IsInvocable<FP>::value));
    OB("invocable fn two", (IsInvocable<FP, int, int>::value));
    OB("invocable lambda", (IsInvocable<L, int>::value));
    OB("invocable const lambda&", (IsInvocable<const L&, int>::value));
    OB("invocable lambda double", (IsInvocable<L, double>::value));
    OB("invocable over", (IsInvocable<Over, std::string>::value));
    OB("invocable over ptr", (IsInvocable<Over, void*>::value));
    OB("invocable int", (IsInvocable<int, int>::value));
    OB("invocable_r", (IsInvocableR<double, FP, int>::value));
    OB("invocable_r bad", (IsInvocableR<std::string, FP, int>::value));
    OB("invocable_r void", (IsInvocableR<void, FP, int>::value));
    OB("invocable_r void bad arg", (IsInvocableR<void, FP, std::string>::value));
    OB("invocable_r void void", (IsInvocableR<void, void (*)()>::value));
    OB("invocable_r int void", (IsInvocableR<int, void (*)()>::value));
    OB("invocable_r bad arg", (IsInvocableR<int, FP, std::string>::value));
    OB("result", (IsSame<InvokeResult<FP, int>, int>::value));
    OB("result over d", (IsSame<InvokeResult<Over, double>, long long>::value));
    OB("result over s", (IsSame<InvokeResult<Over, std::string>, std::string>::value));
    OB("result ref", (IsSame<InvokeResult<decltype(&cell), int>, int&>::value));
    OB("result cref", (IsSame<InvokeResult<decltype(&same), std::string>, const std::string&>::value));
    OB("result fn", (IsSame<InvokeResult<FP, short>, int>::value));
    OB("result void", (IsSame<InvokeResult<void (*)()>, void>::value));
    OB("result lambda ref", (IsSame<InvokeResult<L, const int&>, int>::value));
    OB("result id", (IsSame<InvokeResult<const L&, int>, int>::value));
    OB("invocable_r ref", (IsInvocableR<int&, decltype(&cell), int>::value));
    OB("invocable_r ref bad", (IsInvocableR<int&, FP, int>::value));
    OB("invocable_r base", (IsInvocableR<const void*, int* (*)()>::value));
    OB("invocable ref arg", (IsInvocable<void (*)(int&), int>::value));
    OB("invocable ref arg ok", (IsInvocable<void (*)(int&), int&>::value));
    OB("arguments of two", (IsSame<Arguments<decltype(&Mem::get)>, Tuple<>>::value));
    OB("negation", (Negation<True>::value));
    OB("negation f", (Negation<False>::value));
    OB("all", (All<True, False, True>::value));
    OB("any", (Any<False, False, True>::value));
    OB("min", ((int)Mininum<CtConst<int, 3>, CtConst<int, -4>, Int<9>>::value));
    OB("max", ((int)Maximum<CtConst<int, -3>, CtConst<int, -4>, CtConst<int, -9>>::value));
    OB("args", (IsSame<Arguments<FP>, Tuple<int>>::value));
    OB("args quiet", (IsSame<Arguments<decltype(&quiet)>, Tuple<int>>::value));
    OB("args lambda", (IsSame<Arguments<L>, Tuple<int>>::value));
    OB("args member", (IsSame<Arguments<decltype(&Mem::plus)>, Tuple<int>>::value));
    OB("args noexcept member", (IsSame<Arguments<decltype(&Mem::lone)>, Tuple<>>::value));
    OB("f2fp", (IsSame<FuncToFuncPtr<int(int)>, FP>::value));
    OB("f2fp quiet", (IsSame<FuncToFuncPtr<decltype(quiet)>, decltype(&quiet)>::value));
    OB("f2fp int", (IsSame<FuncToFuncPtr<int>, int>::value));
    OB("pack", (IsSame<PackAt<2, char, int, double>, double>::value));
    OB("tuple at", (IsSame<TupleAt<1, Tuple<char, int, double>>, int>::value));
    OB("common", (IsSame<Common<char, int, double>, double>::value));
    OB("default constructible", (IsDefaultConstructible<Mem>::value));
    OB("constructible", (IsConstructible<std::string, const char*>::value));
    OB("constructible no", (IsConstructible<std::string, Mem>::value));
    OB("element", (IsSame<Element<efp::ArrVec<double, 2>>, double>::value));
    OB("ct size", ((unsigned long long)CtSize<efp::Array<int, 3>>::value));
    OB("ct cap", ((unsigned long long)CtCapacity<efp::ArrVec<int, 7>>::value));
    OB("sizes", ((unsigned long long)(sizeof(Enum<char, double>) * 1000000 + sizeof(efp::ArrVec<int, 3>) * 10000 + sizeof(efp::Array<short, 5>) * 100 + sizeof(Maybe<int>))));
    OB("sizes2", ((unsigned long long)(sizeof(efp::Vector<int>) * 1000000 + sizeof(efp::String) * 10000 + sizeof(efp::StringView) * 100 + sizeof(Tuple<int, double>))));
}
static void sequences(Src& s) {
    std::vector<int> a = ints(s, 300), b = ints(s, 300);
    const int k = s.range(0, (int)a.size() + 2), j = s.range(0, (int)a.size() + 2);
    efp::Vector<int> v = fill<efp::Vector<int>>(a), w = fill<efp::Vector<int>>(b);
    std::vector<int> a12(a.begin(), a.begin() + (a.size() < 12 ? a.size() : 12));
    efp::ArrVec<int, 12> u = fill<efp::ArrVec<int, 12>>(a12);
    efp::Vcq<int, 4> q = fill<efp::Vcq<int, 4>>(a);
    efp::Vcb<int, 4> r = fill<efp::Vcb<int, 4>>(b);
    efp::Array<int, 3> f;
    for (size_t i = 0; i < 3; ++i) f[i] = s.range(-9, 9);
    PLOG(s, "a " << show(a) << " b " << show(b) << " k " << k << " j " << j);
    switch (s.draw(16)) {
        case 0: OB("map", efp::map(Acc(), v)); OB("map fp", efp::map(twice, u)); OB("map fix", efp::map(quiet, f)); OB("map ring", efp::map(twice, q)); break;
        case 1: OB("map2", efp::map([](int x, int y) { ob() += "m"; put(x); put(y); return x - y; }, v, w)); OB("map3", efp::map([](int x, int y, int z) { return x * 10000 + y * 100 + z; }, v, r, q)); break;
        case 2: OB("filter", efp::filter(odd, v)); OB("filter b", efp::filter([](int x) { ob() += "f"; put(x); return x > 0; }, u)); OB("filter fix", efp::filter(odd, f)); break;
        case 3: OB("foldl", efp::foldl([](long long x, int y) { return x * 31 % 1000003 - y; }, 7ll, v)); OB("foldr", efp::foldr([](int y, long long x) { return x * 31 % 1000003 - y; }, 7ll, v)); break;
        case 4: { long long t = 0; efp::for_each([&](int x) { ob() += "e"; put(x); t = t * 3 % 10007 + x; }, v); OB("for_each", t); efp::for_each_mut([](int& x) { x = x * 2 + 1; }, v); OB("for_each_mut", v); efp::for_each([&](int x, int y) { ob() += "2"; put(x); put(y); }, v, w); break; }
        case 5: OB("append", efp::append(v, w)); OB("append3", efp::append(v, u, w)); OB("append4", efp::append(f, r, q, v)); OB("append fix", efp::append(f, f)); break;
        case 6: { efp::Vector<efp::Vector<int>> nn; nn.push_back(v); nn.push_back(w); nn.push_back(v); OB("concat", efp::concat(nn)); OB("intercalate", efp::intercalate(w, nn)); efp::Vector<efp::Vector<int>> mm = nn; OB("nested eq", nn == mm); mm[1].push_back(3); OB("nested ne", nn == mm); break; }
        case 7: OB("cartesian", efp::cartesian_map([](int x, int y) { ob() += "p"; put(x); put(y); return x * 1000 + y; }, f, v)); efp::cartesian_for_each([&](int x, int y, int z) { ob() += "c"; put(x); put(y); put(z); }, f, r, q); put("\n"); break;
        case 8: OB("take", efp::take((size_t)k, v)); OB("drop", efp::drop((size_t)k, v)); OB("slice", efp::slice((size_t)k, (size_t)j, v)); OB("take u", efp::take((size_t)k, u)); OB("drop r", efp::drop((size_t)k, r)); break;
        case 9: OB("take_while", efp::take_while([](int x) { ob() += "w"; put(x); return x > -50; }, v)); OB("drop_while", efp::drop_while(odd, v)); if (!a.empty()) { OB("init", efp::init(v)); OB("tail", efp::tail(v)); OB("head", efp::head(v)); OB("last", efp::last(v)); } break;
        case 10: OB("elem_index", efp::elem_index(f[0], v)); OB("elem_indices", efp::elem_indices(f[1], u)); OB("find", efp::find(odd, v)); OB("find_index", efp::find_index(odd, r)); OB("find_indices", efp::find_indices(odd, u)); break;
        case 11: OB("from_function", efp::from_function((size_t)k, twice)); OB("from_function ct", efp::from_function(efp::Size<5>(), [](size_t i) { ob() += "g"; put(i); return (int)i * 3; })); OB("mwi", efp::map_with_index([](size_t i, int x) { return (int)i * 100 + x; }, v)); efp::for_index([&](size_t i) { put(i); }, (size_t)k); efp::for_each_with_index([&](size_t i, int x) { put(i); put(x); }, w); put("\n"); break;
        case 12: OB("eq", v == w); OB("eq self", v == fill<efp::Vector<int>>(a)); OB("array eq", f == f); { efp::Array<efp::ArrVec<int, 12>, 2> x; x[0] = u; x[1] = u; efp::Array<efp::ArrVec<int, 12>, 2> y = x; OB("nested", x == y); if (u.size() < 12) { y[1].push_back(1); OB("nested2", x == y); } } break;
        case 13: { v.insert((size_t)k > v.size() ? v.size() : (size_t)k, j); if (!v.empty()) v.erase((size_t)j % v.size()); v.resize((size_t)j); v.push_back(k); v.reserve(20); OB("ops", v); OB("size", v.size()); efp::Vector<int> x = v; x.pop_back(); v = efp::move(x); OB("moved", v); v.clear(); OB("cleared", v.empty()); break; }
        case 14: { for (int i = 0; i < k; ++i) { q.push_back(i); r.push_back(i * 2); if (i % 3 == 0 && q.size()) put(q.pop_front()); } OB("q", q); OB("r", r); efp::Vcq<int, 4> c = q; OB("copy", c); efp::Vcb<int, 4> d = r; d.push_back(4); OB("copy", d); break; }
        default: { efp::ArrVec<int, 4> t; bool e = false; for (size_t i = 0; i < a.size() && !e; ++i) { try { t.push_back(a[i]); } catch (const std::exception&) { e = true; } } OB("capacity", e); OB("arrvec", t); try { t.insert((size_t)k, 5); } catch (const std::exception&) { put("refused "); } OB("arrvec", t); }
    }
}
static void strings(Src& s) {
    std::string a, b;
    size_t n = s.len(20);
    for (size_t i = 0; i < n; ++i) { unsigned c = s.draw(4); a += "ab\n "[c]; }
    n = s.len(6);
    for (size_t i = 0; i < n; ++i) { unsigned c = s.draw(3); b += "abc"[c]; }
    const size_t k = s.draw(24);
    efp::String x(a.c_str()), y(b.data(), b.size());
    PLOG(s, "a \"" << a << "\" b \"" << b << "\" k " << k);
    switch (s.draw(8)) {
        case 0: x += y; OB("plus=", x); x.push_back('z'); OB("push", x); x.append(b.c_str()); OB("append c", x); x.append(3, 'r'); OB("append n", x); break;
        case 1: { const int c = x.compare(y); OB("compare", c < 0 ? -1 : c > 0 ? 1 : 0); OB("eq", x == y); OB("eq text", x == a.c_str()); OBT("at", x.at(k)); char d[8]; const size_t n2 = x.copy(d, 5, k < x.size() ? k : 0); OB("copy", std::string(d, n2)); break; }
        case 2: { OBT("substr", x.substr(k, 5)); if (k <= x.size()) { x.insert(k, b.c_str()); OB("insert", x); x.insert(k, "qrs", 2); OB("insert n", x); } x.assign(b.c_str()); OB("assign", x); x.assign(3, 'w'); OB("assign n", x); break; }
        case 3: { efp::StringView v(x.data(), x.size()); OB("view eq", v == efp::StringView(y.data(), y.size())); OB("view", std::string(v.data(), v.size())); OB("take", efp::take(k, x)); efp::String z = x; OB("copy eq", z == x); break; }
        case 4: OB("filter", efp::filter([](char c) { return c != '\n'; }, x)); OB("map", efp::map([](char c) { return (int)c + 1; }, x)); OB("len", efp::length(x)); OB("elem", efp::elem_indices('a', x)); break;
        case 5: { efp::Vector<efp::String> p; p.push_back(x); p.push_back(y); p.push_back(y); OB("strings", p); OB("concat", efp::concat(p)); OB("equal", p == p); efp::Vector<efp::String> z; z.push_back(y); OB("equal", p == z); break; }
        case 6: { x.resize(k); OB("resize", x); x.reserve(50); OB("len", x.size()); x.clear(); OB("clear", x); OB("empty", x.empty()); OB("c_str", std::string(x.c_str())); break; }
        default: { efp::String z(k, 'q'); OB("repeat", z); efp::String t(a.begin(), a.end()); OB("range", t); efp::String m = efp::move(t); OB("moved", m); m = y; OB("assigned", m); }
    }
}
static void sums(Src& s) {
    typedef efp::Enum<int, double, std::string, One> E;
    E e[3];
    for (int i = 0; i < 3; ++i) { const int v = s.range(-50, 50); const unsigned a = s.draw(4); if (a == 0) e[i] = E(v); else if (a == 1) e[i] = E(v / 4.0); else if (a == 2) e[i] = E(std::to_string(v)); else { One o = {v}; e[i] = E(o); } PLOG(s, "enum " << i << ": alternative " << a << " value " << v); }
    const unsigned ops = s.draw(12);
    for (unsigned i = 0; i < ops; ++i) { const unsigned x = s.draw(3), y = s.draw(3), m = s.draw(3); if (m == 0) e[x] = e[y]; else if (m == 1) { E t = e[y]; e[x] = efp::move(t); } else { E t(e[x]); e[y] = t; } }
    for (int i = 0; i < 3; ++i) {
        OB("index", (unsigned)e[i].index());
        OB("match", e[i].match([](int x) { return std::string("i") + std::to_string(x); }, [](double x) { return std::string("d") + std::to_string(x); }, [](const std::string& x) { return "s" + x; }, [](const One& o) { return std::string("o") + std::to_string(o.v); }));
        OB("match wild", e[i].match([](int x) { return (long long)x; }, [=]() { return 77ll; }));
        OB("match noexcept", e[i].match([](const std::string& x) noexcept { return (int)x.size(); }, [=]() noexcept { return -1; }));
        OBT("get", e[i].get<int>());
        OBT("get0", e[i].get<0>());
        OBT("get2", e[i].get<2>());
        int calls = 0;
        e[i].match([&](double) { calls += 10; }, [&]() { calls += 1; });
        OB("void match", calls);
    }
    typedef efp::Enum<int, std::string> F;
    F p(3), q(std::string("x"));
    const unsigned c = s.draw(4);
    if (c & 1) q = p;
    if (c & 2) p = F(std::string("y"));
    OB("eq", p == q);
    OB("matches", p.match([](int) { return 1; }, [](const std::string&) { return 2; }));
}
static void maybes(Src& s) {
    typedef efp::Maybe<int> M;
    const int a = s.range(-20, 20), b = s.range(-20, 20);
    M x = s.flip() ? M(a) : M(), y = efp::nothing;
    if (s.flip()) y = M(b);
    PLOG(s, "maybe " << x.has_value() << " " << a << ", " << y.has_value() << " " << b);
    auto half = [](int v) { ob() += "h"; return v % 2 ? M() : M(v / 2); };
    OB("x", x); OB("y", y);
    OB("fmap", x.fmap(twice));
    OB("fmap s", x.fmap([](int v) { return std::to_string(v); }));
    OB("bind", x.bind(half));
    OB("bind2", x.bind(half).bind(half));
    OB("free fmap", efp::fmap(twice, y));
    OB("free bind", efp::bind(y, half));
    OB("eq", x == y);
    OB("nothing", x.is_nothing());
    OBT("value", x.value());
    OB("match", x.match([](int v) { return v + 1000; }, [](const efp::Nothing&) { return -1; }));
    M z = x; z = y; OB("assign", z); M w = efp::move(z); OB("move", w); w = efp::nothing; OB("cleared", w); w = a; OB("set", w);
    OB("pure", efp::pure<M>(a));
}
static void tuples(Src& s) {
    const int a = s.range(-9, 9), b = s.range(-9, 9);
    const std::string t = std::to_string(s.range(0, 99));
    efp::Tuple<int, double, std::string> x = efp::tuple(a, b / 2.0, t);
    efp::Tuple<int, double, std::string> y = x;
    PLOG(s, "tuple " << a << " " << b << " " << t);
    OB("tuple", x); OB("eq", x == y);
    efp::get<0>(y) += 1; OB("mut", y); OB("ne", x == y);
    y = x; OB("assigned", y);
    OB("match", x.match([](int i, double d, const std::string& r) { return r + std::to_string(i) + std::to_string(d); }));
    OB("p", efp::p<1>(x));
    OB("fst", efp::fst(efp::tuple(a, b))); OB("snd", efp::snd(efp::tuple(a, b)));
    efp::Vector<int> v; v.push_back(a); v.push_back(b);
    efp::Tuple<efp::Vector<int>, int> n(v, a), m(v, a);
    OB("tuple of sequences", n == m);
    auto c = efp::compose([](int i) { ob() += "1"; return i * 2; }, [](int i) { ob() += "2"; return i - 3; }, [](int i, int j) { ob() += "3"; return i * 10 + j; });
    OB("compose", c(a, b));
    OB("compose2", efp::compose(twice, quiet)(a));
    OB("id", efp::id(t));
    int state = a;
    auto obj = [&state](int i) { state += i; return state; };
    auto fp = efp::func_ptr(obj);
    const int f1 = fp(b); const int f2 = fp(b);
    OB("func_ptr", f1); OB("func_ptr", f2); OB("state", state);
    int p = a, q = b; efp::swap(p, q); OB("swap", p); OB("swap", q);
}
struct ByKey { bool operator()(const std::pair<int, int>& x, const std::pair<int, int>& y) const { return x.first < y.first; } };
static void sorting(Src& s) {
    size_t n = s.chance(1, 4) ? 60 + s.draw(140) : s.len(30);
    std::vector<std::pair<int, int> > m(n);
    for (size_t i = 0; i < n; ++i) { m[i].first = (int)s.draw(12); m[i].second = (int)i; }
    efp::Vector<std::pair<int, int> > v;
    for (size_t i = 0; i < n; ++i) v.push_back(m[i]);
    efp::Vector<int> k;
    for (size_t i = 0; i < n; ++i) k.push_back(m[i].first);
    PLOG(s, "sorting " << n);
    switch (s.draw(4)) {
        case 0: efp::sort_by(v, ByKey()); OB("sort_by", v); break;
        case 1: efp::sort(k); OB("sort", k); break;
        case 2: efp::sort_unstable(k); OB("sort_unstable", k); break;
        default: efp::sort_unstable_by(k, [](int x, int y) { return x > y; }); OB("sort_unstable_by", k); break;
    }
}
static void numbers(Src& s) {
    std::vector<int> a = ints(s, 20);
    efp::Vector<int> v = fill<efp::Vector<int>>(a);
    efp::Vector<double> d, d2;
    const size_t n = a.size() + 2;
    for (size_t i = 0; i < n; ++i) { const int x = s.range(-1000, 1000); const int y = s.range(-1000, 1000); d.push_back(x / 16.0); d2.push_back(y / 8.0); }
    const size_t lag = s.draw(n);
    PLOG(s, "ints " << show(a) << ", " << n << " samples");
    OB("sum", efp::sum(v)); OB("mean", efp::mean<double>(d)); OB("sum d", efp::sum(d));
    if (!a.empty()) { OB("maximum", efp::max_elem(v)); OB("minimum", efp::min_elem(v)); }
    OB("maximum d", efp::max_elem(d)); OB("minimum d", efp::min_elem(d));
    OB("rms", efp::rms<double>(d)); OB("var", efp::variance<double>(d)); OB("std", efp::standard_deviation<double>(d));
    OB("cov", efp::covariance<double>(d, d2)); OB("cor", efp::correlation<double>(d, d2)); OB("mse", efp::mse<double>(d, d2)); OB("rmse", efp::rmse<double>(d, d2));
    OB("autocov", efp::autocovariance<double>(d, lag));
    OB("regression", efp::linear_regression<double>(d, d2)); OB("index regression", efp::linear_regression_with_index<double>(d));
    OB("detrend", efp::detrend<double>(d)); OB("remove_dc", efp::remove_dc<double>(d));
    OB("abs", efp::abs(d[0])); OB("square", efp::square(d[0])); OB("approx", efp::is_approx(d[0], d2[0]));
    OB("max", efp::max(a.empty() ? 0 : a[0], 3)); OB("min", efp::min(2, 7));
}
static void formats(Src& s) {
    const int a = s.range(-30000, 30000); const double d = s.range(-100000, 100000) / 64.0; const uint64_t bits = s.bits64();
    double w; memcpy(&w, &bits, sizeof w);
    std::string t; const size_t n = s.len(8); for (size_t i = 0; i < n; ++i) { unsigned c = s.draw(3); t += "xyz"[c]; }
    efp::String x(t.c_str());
    efp::StringView sv(x.data(), x.size());
    std::vector<int> m = ints(s, 5);
    efp::Vector<int> v = fill<efp::Vector<int>>(m);
    const int wd = (int)s.draw(30);
    PLOG(s, "format " << a << " " << d << " " << w << " " << t << " " << show(m));
    OB("f1", efp::format("{} {:>8} {:#x} {:+}", a, a, a, a));
    OB("f2", efp::format("{} {:.3f} {:e} {:g}", d, d, d, d));
    if (w == w) OB("f3", efp::format("{} {:e}", w, w));
    OB("f4", efp::format("{:>{}}|{:.2}|{:*^12}", x, wd, x, x));
    OB("f5", efp::format("{} {}", v, sv));
    OB("f6", efp::format("{2} {0} {1}", a, x, v));
    OB("f7", efp::format("{:c}{}{:d}", 'q', a > 0, (unsigned char)a));
    OB("f8", efp::format("{}", (float)d));
    OB("f9", efp::format("{}", (long double)d / 3));
    OBT("bad", efp::format(efp_fmt::runtime("{:d}"), x));
    OBT("bad2", efp::format(efp_fmt::runtime("{} {}"), a));
    OBT("bad3", efp::format(efp_fmt::runtime("{:>{}}"), a, d));
}
static void files(Src& s) {
    char path[1024];
    const char* const dir = getenv("PBT_SCRATCH");
    snprintf(path, sizeof path, "%s/c21_%d.txt", dir ? dir : "/tmp", (int)getpid());
    struct Gone { const char* p; ~Gone() { unlink(p); } } gone = {path};
    std::string t; const size_t n = s.len(30); for (size_t i = 0; i < n; ++i) { unsigned c = s.draw(3); t += "x\n\0"[c]; }
    PLOG(s, "file of " << n << " bytes");
    auto w = efp::File::open(path, "w");
    OB("open", w.has_value());
    if (!w) return;
    { efp::File f = w.move(); OB("write", f.write(efp::String(t.data(), t.size()))); OB("close", f.close()); }
    auto r = efp::File::open(path, "r");
    OB("open", r.has_value());
    if (!r) return;
    efp::File g = r.move();
    for (int i = 0; i < 40; ++i) { auto l = g.read_line(); OB("line", l); if (!l.has_value()) break; }
    OB("seek", g.seek(0)); OB("tell", (long long)g.tell());
    OB("lines", g.read_lines());
}
void pbt_case(Src& s) {
    s.nontrivial();
    switch (s.draw(12)) {
        case 0: case 1: case 2: sequences(s); break;
        case 3: strings(s); break;
        case 4: case 5: sums(s); break;
        case 6: maybes(s); break;
        case 7: tuples(s); break;
        case 8: sorting(s); break;
        case 9: numbers(s); break;
        case 10: formats(s); break;
        default: if (s.chance(1, 8)) files(s); else if (s.chance(1, 8)) traits(s); else sequences(s);
    }
}
void pbt_reset() { observed().clear(); g_heap_balance = false; }
void pbt_end(Src&) {}
