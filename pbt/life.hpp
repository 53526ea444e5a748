// Owning types of the library behind one interface (make, touch, mutate), nested at will, and
// boxes of raw memory in which objects of such a type come and go.
#ifndef PBT_LIFE_HPP_
#define PBT_LIFE_HPP_
#include <new>
#include <utility>
#include "pbt.hpp"
#include "elem.hpp"

namespace pbt {

// a second and third element type, so that sum types have distinct owning alternatives
template<int K> struct Alt {
    Tracked t;
    Tracked u[K];
    Alt() {}
    explicit Alt(int x) : t(x) {}
    friend bool operator==(const Alt& a, const Alt& b) { return a.t == b.t && a.u[0] == b.u[0]; }
    friend bool operator!=(const Alt& a, const Alt& b) { return !(a == b); }
};
// needs 32-byte alignment and notices when it does not get it
struct alignas(32) Wide {
    Tracked t;
    char pad[28];
    Wide() { at(); }
    explicit Wide(int x) : t(x) { at(); }
    Wide(const Wide& o) : t(o.t) { at(); }
    Wide(Wide&& o) noexcept : t(efp::move(o.t)) { at(); }
    Wide& operator=(const Wide& o) { t = o.t; return *this; }
    Wide& operator=(Wide&& o) noexcept { t = efp::move(o.t); return *this; }
    friend bool operator==(const Wide& a, const Wide& b) { return a.t == b.t; }
    friend bool operator!=(const Wide& a, const Wide& b) { return a.t != b.t; }
private:
    void at() const { volatile uintptr_t a = (uintptr_t)this; if (a % 32) flag("element placed at a misaligned address"); }
};
struct Only {   // can be moved, not copied
    Tracked t;
    Only() {}
    explicit Only(int x) : t(x) {}
    Only(Only&& o) noexcept : t(efp::move(o.t)) {}
    Only& operator=(Only&& o) noexcept { t = efp::move(o.t); return *this; }
    Only(const Only&) = delete;
    Only& operator=(const Only&) = delete;
    friend bool operator==(const Only& a, const Only& b) { return a.t == b.t; }
    friend bool operator!=(const Only& a, const Only& b) { return a.t != b.t; }
};
// counts elements whose move may not be used in place of a copy: throwing move constructor
struct Heavy {
    Tracked t;
    Tracked* own;
    Heavy() : own(new Tracked(1)) {}
    explicit Heavy(int x) : t(x), own(new Tracked(x)) {}
    Heavy(const Heavy& o) : t(o.t), own(new Tracked(*o.own)) {}
    Heavy& operator=(const Heavy& o) { t = o.t; *own = *o.own; return *this; }
    ~Heavy() { delete own; own = nullptr; }
    friend bool operator==(const Heavy& a, const Heavy& b) { return a.t == b.t && *a.own == *b.own; }
    friend bool operator!=(const Heavy& a, const Heavy& b) { return !(a == b); }
};

template<typename C> struct Ops;

struct Plain { enum { copyable = 1, eq = 1 }; };
struct NoEq { enum { copyable = 1, eq = 0 }; };
template<> struct Ops<Tracked> : Plain {
    static std::string name() { return "Tracked"; }
    static Tracked make(Src& s) { return Tracked(s.ival()); }
    static void touch(const Tracked& c) { c.get(); }
    static void mutate(Src& s, Tracked& c) { c = Tracked(s.ival()); }
};
template<int K> struct Ops<Alt<K>> : Plain {
    static std::string name() { return "Alt"; }
    static Alt<K> make(Src& s) { return Alt<K>(s.ival()); }
    static void touch(const Alt<K>& c) { c.t.get(); for (int i = 0; i < K; ++i) c.u[i].get(); }
    static void mutate(Src& s, Alt<K>& c) { c = Alt<K>(s.ival()); }
};
template<> struct Ops<Wide> : Plain {
    static std::string name() { return "Wide"; }
    static Wide make(Src& s) { return Wide(s.ival()); }
    static void touch(const Wide& c) { c.t.get(); }
    static void mutate(Src& s, Wide& c) { c = Wide(s.ival()); }
};
template<> struct Ops<Heavy> : Plain {
    static std::string name() { return "Heavy"; }
    static Heavy make(Src& s) { return Heavy(s.ival()); }
    static void touch(const Heavy& c) { c.t.get(); c.own->get(); }
    static void mutate(Src& s, Heavy& c) { c = Heavy(s.ival()); }
};
template<> struct Ops<Only> {
    enum { copyable = 0, eq = 1 };
    static std::string name() { return "Only"; }
    static Only make(Src& s) { return Only(s.ival()); }
    static void touch(const Only& c) { c.t.get(); }
    static void mutate(Src& s, Only& c) { c = Only(s.ival()); }
};
template<> struct Ops<int> : Plain {
    static std::string name() { return "int"; }
    static int make(Src& s) { return s.ival(); }
    static void touch(const int&) {}
    static void mutate(Src& s, int& c) { c = s.ival(); }
};

// how many operations ended in an exception
inline size_t& refusals() { static size_t n; return n; }

template<bool b> struct B {};
template<typename F> bool refused(const F& f) { try { f(); } catch (Fail&) { throw; } catch (...) { ++refusals(); return true; } return false; }

template<typename S> void touch_all(const S& x) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(*x.begin())>::type>::type E;
    for (auto p = x.begin(); p != x.end(); ++p) Ops<E>::touch(*p);
}

// now and then a long one, of plain elements only
template<typename E> struct MayBeLong { enum { value = 0 }; };
template<> struct MayBeLong<int> { enum { value = 1 }; };
template<> struct MayBeLong<Tracked> { enum { value = 1 }; };
template<typename E> bool big_ok(Src& s) { return MayBeLong<E>::value && s.chance(1, 16); }

template<typename E> struct Ops<efp::Vector<E>> {
    typedef efp::Vector<E> C;
    enum { copyable = Ops<E>::copyable, eq = Ops<E>::eq };
    static std::string name() { return "Vector<" + Ops<E>::name() + ">"; }
    static C make(Src& s) {
        C c;
        size_t n = big_ok<E>(s) ? s.big(90) : s.len(6);
        for (size_t i = 0; i < n; ++i) c.push_back(Ops<E>::make(s));
        return c;
    }
    static void touch(const C& c) { touch_all(c); }
    static void copies(Src& s, C& c, B<true>) {
        switch (s.draw(4)) {
            case 0: { const E e = Ops<E>::make(s); PLOG(s, "  push_back(const&)"); c.push_back(e); break; }
            case 1: if (c.size()) { size_t k = s.draw(c.size()); PLOG(s, "  push_back(own " << k << ")"); c.push_back(c[k]); } break;
            case 2: { size_t k = s.draw(c.size() + 2); const E e = Ops<E>::make(s); PLOG(s, "  insert(" << k << ")"); refused([&] { c.insert(k, e); }); break; }
            default: if (c.size()) { size_t k = s.draw(c.size()), at = s.draw(c.size() + 2); PLOG(s, "  insert(" << at << ", own " << k << ")"); refused([&] { c.insert(at, c[k]); }); }
        }
    }
    static void copies(Src&, C&, B<false>) {}
    static void mutate(Src& s, C& c) {
        switch (s.draw(11)) {
            case 0: case 1: PLOG(s, "  push_back(&&)"); c.push_back(Ops<E>::make(s)); break;
            case 2: case 3: case 4: copies(s, c, B<copyable>()); break;
            case 5: { size_t k = s.draw(c.size() + 2); PLOG(s, "  erase(" << k << ")"); refused([&] { c.erase(k); }); break; }
            case 6: PLOG(s, "  pop_back"); refused([&] { c.pop_back(); }); break;
            case 7: { size_t n = big_ok<E>(s) ? s.big(120) : s.draw(9); PLOG(s, "  resize(" << n << ")"); c.resize(n); break; }
            case 8: { size_t n = big_ok<E>(s) ? s.big(120) : s.draw(12); PLOG(s, "  reserve(" << n << ")"); c.reserve(n); break; }
            case 9: if (s.flip()) { PLOG(s, "  clear"); c.clear(); } else { PLOG(s, "  shrink_to_fit"); c.shrink_to_fit(); } break;
            default: if (c.size()) { size_t k = s.draw(c.size()); PLOG(s, "  element " << k); Ops<E>::mutate(s, c[k]); }
        }
    }
};
template<typename E, size_t N> struct Ops<efp::ArrVec<E, N>> {
    typedef efp::ArrVec<E, N> C;
    enum { copyable = Ops<E>::copyable, eq = Ops<E>::eq };
    static std::string name() { return "ArrVec<" + Ops<E>::name() + ">"; }
    static C make(Src& s) {
        C c;
        size_t n = s.draw(N + 1);
        for (size_t i = 0; i < n; ++i) c.push_back(Ops<E>::make(s));
        return c;
    }
    static void touch(const C& c) { touch_all(c); }
    static void copies(Src& s, C& c, B<true>) {
        switch (s.draw(4)) {
            case 0: { const E e = Ops<E>::make(s); PLOG(s, "  push_back(const&)"); refused([&] { c.push_back(e); }); break; }
            case 1: if (c.size()) { size_t k = s.draw(c.size()); PLOG(s, "  push_back(own " << k << ")"); refused([&] { c.push_back(c[k]); }); } break;
            case 2: { size_t k = s.draw(c.size() + 2); const E e = Ops<E>::make(s); PLOG(s, "  insert(" << k << ")"); refused([&] { c.insert(k, e); }); break; }
            default: if (c.size()) { size_t k = s.draw(c.size()), at = s.draw(c.size() + 2); PLOG(s, "  insert(" << at << ", own " << k << ")"); refused([&] { c.insert(at, c[k]); }); }
        }
    }
    static void copies(Src&, C&, B<false>) {}
    static void mutate(Src& s, C& c) {
        switch (s.draw(10)) {
            case 0: case 1: PLOG(s, "  push_back(&&)"); refused([&] { c.push_back(Ops<E>::make(s)); }); break;
            case 2: case 3: case 4: copies(s, c, B<copyable>()); break;
            case 5: { size_t k = s.draw(c.size() + 2); PLOG(s, "  erase(" << k << ")"); refused([&] { c.erase(k); }); break; }
            case 6: PLOG(s, "  pop_back"); refused([&] { c.pop_back(); }); break;
            case 7: { size_t n = s.draw(N + 3); PLOG(s, "  resize(" << n << ")"); refused([&] { c.resize(n); }); break; }
            case 8: PLOG(s, "  clear"); c.clear(); break;
            default: if (c.size()) { size_t k = s.draw(c.size()); PLOG(s, "  element " << k); Ops<E>::mutate(s, c[k]); }
        }
    }
};
template<typename E, size_t N> struct Ops<efp::Array<E, N>> {
    typedef efp::Array<E, N> C;
    enum { copyable = Ops<E>::copyable, eq = Ops<E>::eq };
    static std::string name() { return "Array<" + Ops<E>::name() + ">"; }
    static C make(Src& s) {
        C c;
        for (size_t i = 0; i < N; ++i) if (s.flip()) c[i] = Ops<E>::make(s);
        return c;
    }
    static void touch(const C& c) { touch_all(c); }
    static void mutate(Src& s, C& c) { size_t k = s.draw(N); PLOG(s, "  element " << k); Ops<E>::mutate(s, c[k]); }
};
// rings: stored elements are only replaced as a whole (the mirrored slot is not visible)
template<typename E, size_t N> struct Ops<efp::Vcb<E, N>> : NoEq {
    typedef efp::Vcb<E, N> C;
    static std::string name() { return "Vcb<" + Ops<E>::name() + ">"; }
    static C make(Src& s) {
        C c;
        size_t n = s.draw(2 * N + 2);
        for (size_t i = 0; i < n; ++i) c.push_back(Ops<E>::make(s));
        return c;
    }
    static void touch(const C& c) { touch_all(c); }
    static void mutate(Src& s, C& c) {
        if (s.chance(1, 4)) { size_t k = s.draw(N); PLOG(s, "  push_back(own " << k << ")"); c.push_back(c[k]); }
        else { PLOG(s, "  push_back"); c.push_back(Ops<E>::make(s)); }
    }
};
template<typename E, size_t N> struct Ops<efp::Vcq<E, N>> : NoEq {
    typedef efp::Vcq<E, N> C;
    static std::string name() { return "Vcq<" + Ops<E>::name() + ">"; }
    static C make(Src& s) {
        C c;
        size_t n = s.draw(2 * N + 2);
        for (size_t i = 0; i < n; ++i) c.push_back(Ops<E>::make(s));
        if (s.flip()) for (size_t k = s.draw(N + 1); k > 0 && c.size() > 0; --k) c.pop_front();
        return c;
    }
    static void touch(const C& c) { touch_all(c); }
    static void mutate(Src& s, C& c) {
        switch (s.draw(5)) {
            case 0: case 1: PLOG(s, "  push_back"); c.push_back(Ops<E>::make(s)); break;
            case 2: if (c.size()) { size_t k = s.draw(c.size()); PLOG(s, "  push_back(own " << k << ")"); c.push_back(c[k]); } break;
            case 3: if (c.size()) { PLOG(s, "  pop_front"); E e = c.pop_front(); Ops<E>::touch(e); } break;
            default: if (c.size()) { PLOG(s, "  pop_front, dropped"); c.pop_front(); }
        }
    }
};
template<typename E> struct Ops<efp::Maybe<E>> {
    typedef efp::Maybe<E> C;
    enum { copyable = Ops<E>::copyable, eq = Ops<E>::eq };
    static std::string name() { return "Maybe<" + Ops<E>::name() + ">"; }
    static C make(Src& s) { if (s.flip()) return C(efp::nothing); return C(Ops<E>::make(s)); }
    static void touch(const C& c) { if (c) Ops<E>::touch(c.template get<E>()); }
    static void copies(Src& s, C& c, B<true>) {
        switch (s.draw(4)) {
            case 0: { const E e = Ops<E>::make(s); PLOG(s, "  = value"); c = e; break; }
            case 1: PLOG(s, "  value()"); refused([&] { E e = c.value(); Ops<E>::touch(e); }); break;
            case 2: {
                PLOG(s, "  fmap");
                auto r = c.fmap([](const E& e) { Ops<E>::touch(e); return e; });
                touch(r);
                break;
            }
            default: {
                PLOG(s, "  bind");
                bool keep = s.flip();
                auto r = c.bind([&](const E& e) -> C { if (keep) return C(e); return C(efp::nothing); });
                touch(r);
            }
        }
    }
    static void copies(Src&, C&, B<false>) {}
    static void mutate(Src& s, C& c) {
        switch (s.draw(6)) {
            case 0: PLOG(s, "  = nothing"); c = efp::nothing; break;
            case 1: PLOG(s, "  = value&&"); c = Ops<E>::make(s); break;
            case 2: case 3: copies(s, c, B<copyable>()); break;
            case 4: PLOG(s, "  move()"); refused([&] { E e = c.move(); Ops<E>::touch(e); }); break;
            default: if (c) { PLOG(s, "  held value"); Ops<E>::mutate(s, c.template get<E>()); }
        }
    }
};
template<typename... Es> struct AllEq;
template<> struct AllEq<> { enum { value = 1 }; };
template<typename E, typename... Es> struct AllEq<E, Es...> { enum { value = Ops<E>::eq && AllEq<Es...>::value }; };
template<typename... Es> struct Ops<efp::Enum<Es...>> {
    enum { copyable = 1, eq = AllEq<Es...>::value };
    typedef efp::Enum<Es...> C;
    static std::string name() { return "Enum"; }
    template<size_t I> static C build(Src&, unsigned, B<false>) { return C(); }
    template<size_t I> static C build(Src& s, unsigned k, B<true>) {
        typedef efp::PackAt<I, Es...> E;
        if (k == 0) return C(Ops<E>::make(s));
        return build<I + 1>(s, k - 1, B<(I + 1 < sizeof...(Es))>());
    }
    static C make(Src& s) { return build<0>(s, s.draw(sizeof...(Es)), B<true>()); }
    template<size_t I> static void look(const C&, B<false>) {}
    template<size_t I> static void look(const C& c, B<true>) {
        typedef efp::PackAt<I, Es...> E;
        if (c.index() == I) Ops<E>::touch(c.template get<E>());
        else { look<I + 1>(c, B<(I + 1 < sizeof...(Es))>()); }
    }
    static void touch(const C& c) { look<0>(c, B<true>()); }
    template<size_t I> static void edit(Src&, C&, unsigned, B<false>) {}
    template<size_t I> static void edit(Src& s, C& c, unsigned k, B<true>) {
        typedef efp::PackAt<I, Es...> E;
        if (k) { edit<I + 1>(s, c, k - 1, B<(I + 1 < sizeof...(Es))>()); return; }
        switch (s.draw(5)) {
            case 0: PLOG(s, "  = alternative " << I); c = Ops<E>::make(s); break;
            case 1: { PLOG(s, "  = const& alternative " << I); const E e = Ops<E>::make(s); c = e; break; }
            case 2: PLOG(s, "  get<" << I << ">"); refused([&] { Ops<E>::mutate(s, c.template get<E>()); }); break;
            case 3: PLOG(s, "  move<" << I << ">"); refused([&] { E e = c.template move<E>(); Ops<E>::touch(e); }); break;
            default: { PLOG(s, "  get<" << I << "> const"); const C& k = c; refused([&] { Ops<E>::touch(k.template get<I>()); }); }
        }
    }
    static void mutate(Src& s, C& c) {
        if (s.chance(1, 6)) {
            PLOG(s, "  match");
            int n = 0;
            c.match([&]() { ++n; });
            c.match([&](const efp::PackAt<0, Es...>& e) { Ops<efp::PackAt<0, Es...>>::touch(e); }, [&]() { ++n; });
            return;
        }
        edit<0>(s, c, s.draw(sizeof...(Es)), B<true>());
    }
};
template<typename E, typename F, typename G> struct Ops<efp::Tuple<E, F, G>> : Plain {
    typedef efp::Tuple<E, F, G> C;
    static std::string name() { return "Tuple"; }
    static C make(Src& s) { E e = Ops<E>::make(s); F f = Ops<F>::make(s); G g = Ops<G>::make(s); return C(efp::move(e), efp::move(f), efp::move(g)); }
    static void touch(const C& c) { Ops<E>::touch(efp::get<0>(c)); Ops<F>::touch(efp::get<1>(c)); Ops<G>::touch(efp::get<2>(c)); }
    static void mutate(Src& s, C& c) {
        switch (s.draw(4)) {
            case 0: Ops<E>::mutate(s, efp::get<0>(c)); break;
            case 1: Ops<F>::mutate(s, efp::get<1>(c)); break;
            case 2: Ops<G>::mutate(s, efp::get<2>(c)); break;
            default: PLOG(s, "  match"); c.match([](const E& e, const F& f, const G& g) { Ops<E>::touch(e); Ops<F>::touch(f); Ops<G>::touch(g); return 0; });
        }
    }
};

// three boxes of raw memory (filled with a pattern) in which objects come and go
template<typename C>
struct Boxes {
    static const int K = 3;
    struct alignas(64) Raw { unsigned char b[(sizeof(C) + 63) / 64 * 64]; };
    Raw raw[K];
    bool alive[K];
    bool moved[K];   // moved from: only assigned to or destroyed
    Src& s;
    explicit Boxes(Src& s_) : s(s_) { for (int i = 0; i < K; ++i) { alive[i] = moved[i] = false; wipe(i); } }
    ~Boxes() { for (int i = 0; i < K; ++i) if (alive[i]) at(i).~C(); }
    C& at(int i) { return *reinterpret_cast<C*>(raw[i].b); }
    void wipe(int i) { memset(raw[i].b, s.draw(2) ? 0xa5 : 0x00, sizeof raw[i].b); }
    void drop(int i) { if (alive[i]) { at(i).~C(); alive[i] = false; wipe(i); } }
    void born(int i) { alive[i] = true; moved[i] = false; }
    bool ok(int i) { return alive[i] && !moved[i]; }
    void pend(const char* after) { if (!pending().empty()) fail(Ops<C>::name() + ": after " + after + ": " + pending()); }
    void copy_ops(int i, int j, int op, B<true>) {
        if (!ok(j)) return;
        const C& src = at(j);
        if (op == 0) {
            if (i == j) return;
            PLOG(s, i << " = new copy of " << j);
            drop(i);
            new (raw[i].b) C(src);
            born(i);
            pend("copy construction");
        } else if (alive[i]) {
            PLOG(s, i << " = " << j);
            at(i) = src;
            moved[i] = false;
            pend("copy assignment");
        }
        Ops<C>::touch(at(j));
        pend("reading the source of a copy");
    }
    void copy_ops(int, int, int, B<false>) {}
    void compare(int i, int j, B<true>) { bool e = at(i) == at(j); (void)e; }
    void compare(int, int, B<false>) {}
    void fresh(int i, B<true>) { new (raw[i].b) C(); }
    void fresh(int i, B<false>) { new (raw[i].b) C(Ops<C>::make(s)); }
    void step() {
        int i = s.draw(K), j = s.draw(K);
        switch (s.draw(14)) {
            case 0:
                PLOG(s, i << " = default"); drop(i); fresh(i, B<std::is_default_constructible<C>::value>()); born(i); pend("default construction"); break;
            case 1:
                PLOG(s, i << " = made"); drop(i); new (raw[i].b) C(Ops<C>::make(s)); born(i); pend("construction"); break;
            case 2: PLOG(s, "destroy " << i); drop(i); pend("destruction"); break;
            case 3: copy_ops(i, j, 0, B<Ops<C>::copyable>()); break;
            case 4: copy_ops(i, j, 1, B<Ops<C>::copyable>()); break;
            case 5:
                if (i == j || !ok(j)) break;
                PLOG(s, i << " = new moved from " << j);
                drop(i); new (raw[i].b) C(efp::move(at(j))); born(i); moved[j] = true; pend("move construction");
                s.label("move");
                break;
            case 6:
                if (!ok(j) || !alive[i]) break;
                PLOG(s, i << " = move " << j);
                at(i) = efp::move(at(j)); moved[i] = false; moved[j] = true; pend("move assignment");
                s.label("move");
                break;
            case 7:
                if (i == j || !ok(i) || !ok(j)) break;
                PLOG(s, "swap " << i << " " << j);
                efp::swap(at(i), at(j)); pend("swap");
                break;
            case 8:
                if (!ok(i) || !ok(j)) break;
                PLOG(s, i << " == " << j);
                compare(i, j, B<Ops<C>::eq>());
                pend("comparison");
                break;
            default:
                if (!ok(i)) break;
                PLOG(s, "on " << i);
                Ops<C>::mutate(s, at(i));
                pend("an operation");
        }
        if (ok(i)) { Ops<C>::touch(at(i)); pend("reading every element"); }
    }
};

}  // namespace pbt
#endif
