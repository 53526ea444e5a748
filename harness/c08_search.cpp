// C08: elem, elem_index, elem_indices, find, find_index, find_indices on every sequence kind.
#include "user_seq.hpp"
#include "efp.hpp"
#include "pbt.hpp"
#include "elem.hpp"
#include "seqs.hpp"
using namespace pbt;

const char* const pbt_name = "c08_search";
const char* const pbt_rule = "";

template<typename M> void expect_index(const M& r, const Model& pos, const char* what) {
    PCHECK(r.has_value() == !pos.empty() && r.is_nothing() == pos.empty(), what << (r.has_value() ? " found something" : " found nothing") << ", matching positions are " << show(pos));
    if (!pos.empty()) PCHECK(r.value() == (size_t)pos[0], what << " is " << r.value() << ", matching positions are " << show(pos));
}
template<typename R> void expect_indices(const R& r, const Model& pos, const char* what) {
    PCHECK((size_t)r.size() == pos.size(), what << " reports " << (size_t)r.size() << " positions, matching positions are " << show(pos));
    for (size_t i = 0; i < pos.size(); ++i) PCHECK(r[i] == (size_t)pos[i], what << "[" << i << "] is " << r[i] << ", matching positions are " << show(pos));
}

template<typename E>
struct One {
    Src& s;
    explicit One(Src& s_) : s(s_) {}
    template<typename K> void with(K& k, const Model& m) {
        const typename K::Seq& x = k.get();
        // the value searched for: usually one that occurs
        int a = !m.empty() && s.chance(2, 3) ? m[s.draw(m.size())] : s.flip() ? (int)s.draw(4) : s.ival();
        unsigned mode = s.draw(6), c = s.draw(5);
        Model pe, pp;
        // a predicate that may be called any number of times
        auto q = [&](int e) -> bool { unsigned u = (unsigned)e; switch (mode) { case 0: return false; case 1: return true; case 2: return u == (unsigned)a; case 3: return u != (unsigned)a; case 4: return u % 5 == c; default: return mix(u + c * 977) & 1; } };
        for (size_t i = 0; i < m.size(); ++i) { if (m[i] == a) pe.push_back((int)i); if (q(m[i])) pp.push_back((int)i); }
        auto p = [&](const E& e) { return q(El<E>::val(e)); };
        PLOG(s, "search for " << a << " and for a predicate matching at " << show(pp));
        E v = El<E>::make(a);
        PCHECK(efp::elem(v, x) == !pe.empty(), "elem of " << a << ", occurs at " << show(pe));
        expect_index(efp::elem_index(v, x), pe, "elem_index");
        expect_indices(efp::elem_indices(v, x), pe, "elem_indices");
        PCHECK(efp::find(p, x) == !pp.empty(), "find, matching positions are " << show(pp));
        expect_index(efp::find_index(p, x), pp, "find_index");
        expect_indices(efp::find_indices(p, x), pp, "find_indices");
        if (s.flip()) {
            // a predicate that takes its argument by value and uses it up
            auto eat = [&](E e) { E b(std::move(e)); return q(El<E>::val(b)); };
            PCHECK(efp::find(eat, x) == !pp.empty(), "find by value, matching positions are " << show(pp));
            expect_index(efp::find_index(eat, x), pp, "find_index by value");
            expect_indices(efp::find_indices(eat, x), pp, "find_indices by value");
        }
        // an element of the sequence itself as the value
        if (!m.empty()) {
            size_t i = s.draw(m.size());
            Model po;
            for (size_t j = 0; j < m.size(); ++j) if (m[j] == m[i]) po.push_back((int)j);
            expect_index(efp::elem_index(efp::nth(i, x), x), po, "elem_index of an own element");
            expect_indices(efp::elem_indices(efp::nth(i, x), x), po, "elem_indices of an own element");
        }
        expect_same<E>(x, m, "the sequence after the search");
        if (pe.size() > 1 || pp.size() > 1) s.nontrivial();
        s.label(m.empty() ? "empty sequence" : pe.empty() ? "value absent" : pe.size() == 1 ? "value once" : "value repeated");
        if (!pe.empty() && pe[0] == 0) s.label("first element matches");
        if (!pe.empty() && pe.back() + 1 == (int)m.size()) s.label("last element matches");
    }
};
static void chars(Src& s) {
    std::string m;
    size_t n = s.len(40);
    for (size_t i = 0; i < n; ++i) m += s.chance(1, 8) ? (char)s.draw(256) : "ab\0c"[s.draw(4)];
    char a = n && s.flip() ? m[s.draw(n)] : (char)s.draw(256);
    efp::String x(m.data(), m.size());
    efp::StringView v(m.data(), m.size());
    Model pe;
    for (size_t i = 0; i < n; ++i) if (m[i] == a) pe.push_back((int)i);
    PLOG(s, "String of " << n << " characters, search for " << (int)a);
    PCHECK(efp::elem(a, x) == !pe.empty() && efp::elem(a, m) == !pe.empty() && efp::elem(a, v) == !pe.empty(), "elem over characters");
    expect_index(efp::elem_index(a, x), pe, "elem_index over String");
    expect_index(efp::elem_index(a, m), pe, "elem_index over std::string");
    expect_index(efp::elem_index(a, v), pe, "elem_index over StringView");
    expect_indices(efp::elem_indices(a, x), pe, "elem_indices over String");
    auto p = [&](char c) { return c == a; };
    PCHECK(efp::find(p, x) == !pe.empty(), "find over String");
    expect_index(efp::find_index(p, x), pe, "find_index over String");
    expect_indices(efp::find_indices(p, v), pe, "find_indices over StringView");
    s.label("characters");
    if (pe.size() > 1) s.nontrivial();
}
// floating point: equality of the element type decides
static void doubles(Src& s) {
    static const double t[] = {0.0, -0.0, 1.5, -1.5, 1e300, 1e-300, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
    std::vector<double> m(s.len(10));
    efp::Vector<double> x;
    efp::ArrVec<double, 10> y;
    for (size_t i = 0; i < m.size(); ++i) { m[i] = t[s.draw(9)]; x.push_back(m[i]); y.push_back(m[i]); }
    double a = t[s.draw(9)];
    Model pe;
    for (size_t i = 0; i < m.size(); ++i) if (m[i] == a) pe.push_back((int)i);
    PLOG(s, "doubles, search for " << a);
    PCHECK(efp::elem(a, x) == !pe.empty() && efp::elem(a, y) == !pe.empty(), "elem over doubles");
    expect_index(efp::elem_index(a, x), pe, "elem_index over doubles");
    expect_indices(efp::elem_indices(a, y), pe, "elem_indices over doubles");
    s.label("doubles");
    if (pe.size() > 1) s.nontrivial();
}
typedef Kinds<KArray<int, 1>, KArray<int, 5>, KArrVec<int, 6>, KArray<int, 70>, KArrVec<int, 300>, KVector<int>, KArrayView<int, 4>, KArrVecView<int, 6, const int>, KVectorView<int, const int>, KVcb<int, 1>, KVcb<int, 4>, KVcq<int, 5>, KStdArray<int, 4>, KStdVector<int>, KUserDyn<int>, KUserBound<int, 6>, KUserFix<int, 4>> L1;
typedef Kinds<KArray<std::string, 3>, KArrVec<std::string, 5>, KVector<std::string>, KVectorView<std::string>, KVcb<std::string, 3>, KVcq<std::string, 3>, KStdVector<std::string>> L1S;

void pbt_case(Src& s) {
    switch (s.draw(8)) {
        case 0: case 1: case 2: case 3: { One<int> v(s); any_kind<L1>(s, v, Gen(s.chance(1, 6) ? 300 : 16, s.flip(), 80000)); break; }
        case 4: case 5: { One<std::string> v(s); any_kind<L1S>(s, v, Gen(8, s.flip(), 500)); break; }
        case 6: chars(s); break;
        default: doubles(s);
    }
}
void pbt_reset() {}
void pbt_end(Src&) {}
