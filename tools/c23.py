"""C23: generated programs that match, build and read sum types: which the compiler has to accept, and what they do."""
import hashlib, json, os, random, subprocess, time
from concurrent.futures import ThreadPoolExecutor

# types alternatives and branch parameters are drawn from; value: an expression of the type
DECLS = r"""
#include <string>
struct P0 { int a; P0() : a(1) {} };
struct P1 { double b[3]; P1() : b() {} };
struct P2 { char c[9]; P2() : c() {} };
struct D0 : P0 {};
struct D2 : P2 { int more; D2() : more(2) {} };
struct ToInt { operator int() const { return 5; } };
struct ToP1 { operator P1() const { return P1(); } };
struct FromP0 { FromP0() {} FromP0(const P0&) {} };
struct FromInt { FromInt() {} FromInt(int) {} };
struct Explicit { Explicit() {} explicit Explicit(const P2&) {} explicit Explicit(int) {} };
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) {} MoveOnly& operator=(MoveOnly&&) { return *this; } };
enum class Ec { x };
enum En { en_x };
"""
TYPES = {
    "int": "int(3)", "double": "double(2.5)", "bool": "bool(true)", "char": "char('a')", "unsigned": "unsigned(4)", "long": "long(6)", "float": "float(0.5f)",
    "short": "short(7)", "std::string": "std::string(\"s\")", "CStr": "CStr(\"t\")", "IntPtr": "IntPtr(nullptr)",
    "P0": "P0()", "P1": "P1()", "P2": "P2()", "D0": "D0()", "D2": "D2()", "ToInt": "ToInt()", "ToP1": "ToP1()", "FromP0": "FromP0()", "FromInt": "FromInt()",
    "Explicit": "Explicit()", "MoveOnly": "MoveOnly()", "Ec": "Ec::x", "En": "en_x",
}
DECLS += "typedef const char* CStr;\ntypedef const int* IntPtr;\n"
VARIANTS = [("g++", "-std=c++11"), ("clang++", "-std=c++11"), ("g++", "-std=c++14"), ("clang++", "-std=c++14"), ("g++", "-std=c++17"), ("clang++", "-std=c++17"), ("clang++", "-std=c++20"), ("g++", "-std=c++23")]

def gen(r):
    """A case: dict of plain data."""
    names = list(TYPES)
    maybe = r.random() < 0.12
    n = 1 if maybe else r.choice((1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 12, 17))
    alts = r.sample(names, n)
    if r.random() < 0.5:      # a family of convertible types
        fam = r.choice((["int", "double", "bool", "char", "unsigned", "long", "float", "short", "En", "ToInt", "FromInt"], ["P0", "D0", "FromP0", "P2", "D2", "Explicit"], ["std::string", "CStr", "bool", "IntPtr"], ["P1", "ToP1", "P0", "D0", "FromP0"]))
        alts = r.sample(fam, min(len(fam), n))
    if maybe:
        alts = alts[:1]
    kind = r.choice(("match",) * 9 + ("construct", "access"))
    case = dict(kind=kind, maybe=maybe, alts=alts, how=r.randrange(3))
    full = (["Nothing"] if maybe else []) + alts
    if kind == "construct":
        case["from"] = r.choice(full) if r.random() < 0.5 else r.choice(names)
    elif kind == "access":
        case["op"] = "get" if maybe else r.choice(("get", "move"))      # the optional has a move of its own
        if r.random() < 0.5:
            case["type"] = r.choice(full) if r.random() < 0.5 else r.choice(names)
        else:
            case["index"] = r.randrange(len(full) + 3)
    else:
        br = [dict(type=t) for t in full if r.random() < 0.93]
        if r.random() < 0.5:
            r.shuffle(br)
        if r.random() < 0.25 and br:      # drop more
            br = r.sample(br, r.randrange(1, len(br) + 1))
        for _ in range(r.choice((0, 0, 0, 0, 1, 1, 2))):
            br.insert(r.randrange(len(br) + 1), dict(type=r.choice(full) if r.random() < 0.3 else r.choice(names)))
        for b in br:
            b["form"] = r.choice(("v", "c", "c", "cv"))
            b["functor"] = r.random() < 0.3
            b["noexcept"] = r.random() < 0.2
        if r.random() < 0.06:
            br.insert(r.randrange(len(br) + 1), dict(generic=1))
        if r.random() < 0.4:
            br.append(dict(wild=1, noexcept=r.random() < 0.2, functor=r.random() < 0.3))
        if r.random() < 0.06:
            br.insert(r.randrange(len(br) + 1), dict(wild=1, noexcept=False, functor=False))
        if not br:
            br.append(dict(wild=1, noexcept=False, functor=False))
        case["branches"] = br
        case["void"] = r.random() < 0.3       # branches leave a mark instead of returning one
    return case

def full(case):
    return (["Nothing"] if case["maybe"] else []) + case["alts"]

def param(b):
    return {"v": "%s", "c": "const %s&", "cv": "const %s"}[b["form"]] % b["type"]

# ---- the oracle: ordinary overload resolution, without the library
ORACLE_HEAD = DECLS + r"""
#include <cstdio>
#include <utility>
struct Nothing {};
template<int k> struct R { static const int value = k; };
template<typename... Fs> struct Set;
template<typename F> struct Set<F> : F { using F::operator(); };
template<typename F, typename... Fs> struct Set<F, Fs...> : F, Set<Fs...> { using F::operator(); using Set<Fs...>::operator(); };
template<typename S, typename A> auto which(int) -> decltype(std::declval<const S&>()(std::declval<A>())) { return {}; }
template<typename S, typename A> R<-1> which(...) { return {}; }
template<typename S, typename A> int pick() { return decltype(which<S, A>(0))::value; }
"""
def oracle_code(i, case):
    out = "namespace o%d {\n" % i
    for k, b in enumerate(case["branches"]):
        if b.get("wild"):
            out += "struct B%d { template<typename A> R<%d> operator()(A&&) const; };\n" % (k, k)
        elif b.get("generic"):
            out += "struct B%d { template<typename A> R<%d> operator()(const A&) const; };\n" % (k, k)
        else:
            out += "struct B%d { R<%d> operator()(%s) const; };\n" % (k, k, param(b))
    n = len(case["branches"])
    out += "typedef Set<%s> S;\nvoid run() {\n" % ", ".join("B%d" % k for k in range(n))
    for t in full(case):
        out += "std::printf(\"%%d \", pick<S, const %s&>());\n" % t
    for k in range(n):
        out += "std::printf(\"%%d \", %s);\n" % " || ".join("(pick<B%d, %s>() >= 0)" % (k, t) for t in full(case))
    out += "std::printf(\"\\n\");\n}\n}\n"
    return out

def sh(cmd, timeout=300):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "", "TIMEOUT"

def expect(d, tag, cases):
    """For each case: None (to be rejected) or the list of results."""
    res = [None] * len(cases)
    m = []
    for i, c in enumerate(cases):
        f = full(c)
        if c["kind"] == "construct":
            ok = c["from"] in f and (c["from"] != "MoveOnly" or c["how"] == 0)
            res[i] = [f.index(c["from"])] if ok else None
        elif c["kind"] == "access":
            k = c["index"] if "index" in c else f.index(c["type"]) if c["type"] in f else None
            res[i] = None if k is None or k >= len(f) else [1 if j == k else 0 for j in range(len(f))]
        else:
            m.append(i)
    if m:
        src = os.path.join(d, "or%s.cpp" % tag)
        with open(src, "w") as f:
            f.write(ORACLE_HEAD + "".join(oracle_code(i, cases[i]) for i in m) + "int main() {\n" + "".join("o%d::run();\n" % i for i in m) + "}\n")
        rc, so, se = sh(["g++", "-std=c++17", "-w", "-O0", src, "-o", src + ".x"])
        if rc != 0:
            raise RuntimeError("oracle does not build: " + se[:2000])
        rc, so, se = sh([src + ".x"])
        os.remove(src + ".x")
        for i, l in zip(m, so.splitlines()):
            v = list(map(int, l.split()))
            c = cases[i]
            n = len(full(c))
            picks, rel = v[:n], v[n:]
            br = c["branches"]
            ok = all(p >= 0 for p in picks)
            for k, b in enumerate(br):
                if b.get("wild"):
                    ok = ok and k == len(br) - 1
                else:
                    ok = ok and rel[k]
            res[i] = picks if ok else None
    return res

# ---- the program under test
HEAD = DECLS + r"""
#include <cstdio>
typedef efp::Nothing Nothing;
static int mark;
template<int k> struct WildV { int salt; void operator()() const { mark = k + salt; } };
template<int k> struct AnyV { int salt; template<typename A> void operator()(const A&) const { mark = k + salt; } };
template<int k, typename P> struct FunV { int salt; void operator()(P) const { mark = k + salt; } };
template<int k> struct Wild { int salt; int operator()() const { return k + salt; } };
template<int k> struct Any { int salt; template<typename A> int operator()(const A&) const { return k + salt; } };
template<int k, typename P> struct Fun { int salt; int operator()(P) const { return k + salt; } };
"""
def value(t):
    return "efp::nothing" if t == "Nothing" else TYPES[t]

def code(i, case):
    f = full(case)
    E = "efp::Maybe<%s>" % case["alts"][0] if case["maybe"] else "efp::Enum<%s>" % ", ".join(f)
    out = "namespace c%d {\ntypedef %s E;\n" % (i, E)
    how = case["how"]
    if case["kind"] == "construct":
        t = case["from"]
        out += "void run() {\n"
        if how == 0:
            out += "E e((%s));\n" % (TYPES[t] if t != "Nothing" else "Nothing{}")
        elif how == 1:
            out += "%s v = %s; E e(v);\n" % (t, value(t) if t != "Nothing" else "Nothing{}")
        else:
            out += "const %s v = %s; E e = v;\n" % (t, value(t) if t != "Nothing" else "Nothing{}")
        out += "std::printf(\"%d \\n\", (int)e.index());\n}\n"
    elif case["kind"] == "access":
        arg = str(case["index"]) if "index" in case else case["type"]
        out += "template<typename T> int try_(T& e) { try { (void)e.template %s<%s>(); return 1; } catch (const std::exception&) { return 0; } }\nvoid run() {\n" % (case["op"], arg)
        for t in f:
            out += "{ %sE e((%s)); std::printf(\"%%d \", try_(e)); }\n" % ("const " if how == 1 else "", value(t) if t != "Nothing" else "Nothing{}")
        out += "std::printf(\"\\n\");\n}\n"
    else:
        br = case["branches"]
        vd = case.get("void")
        V, body = ("V", "mark = %d + salt;") if vd else ("", "return %d + salt;")
        out += "int one(%s e) {\nint salt = 0; (void)salt;\n%s e.match(\n" % ("const E&" if how == 0 else "E&" if how == 1 else "E&&", "mark = -1;" if vd else "return")
        parts = []
        for k, b in enumerate(br):
            ne = "noexcept " if b.get("noexcept") else ""
            if b.get("generic"):
                parts.append("Any%s<%d>{salt}" % (V, k))
            elif b.get("wild"):
                parts.append("Wild%s<%d>{salt}" % (V, k) if b["functor"] else "[&]() %s{ %s }" % (ne, body % k))
            elif b["functor"]:
                parts.append("Fun%s<%d, %s>{salt}" % (V, k, param(b)))
            else:
                parts.append("[&](%s) %s{ %s }" % (param(b), ne, body % k))
        out += ",\n".join(parts) + ");\n" + ("return mark;\n" if vd else "") + "}\nvoid run() {\n"
        for t in f:
            out += "{ E e((%s)); std::printf(\"%%d \", one(%s)); }\n" % (value(t) if t != "Nothing" else "Nothing{}", "static_cast<E&&>(e)" if how == 2 else "e")
        out += "std::printf(\"\\n\");\n}\n"
    return out + "}\n"

class Runner:
    def __init__(self, d, repo):
        self.d, self.repo, self.base = d, repo, {}
    def prepare(self, v):
        """Precompiled library header of one variant."""
        cc, std = VARIANTS[v]
        d = os.path.join(self.d, "pch%d" % v)
        os.makedirs(d, exist_ok=True)
        h = os.path.join(d, "all.hpp")
        with open(h, "w") as f:
            f.write('#include "efp.hpp"\n' + HEAD)
        cmd = [cc, std, "-w", "-I" + self.repo + "/include"]
        rc, so, se = sh(cmd + ["-x", "c++-header", h, "-o", h + (".gch" if cc == "g++" else ".pch")], 600)
        if rc != 0:
            raise RuntimeError("the library does not build (%s %s): %s" % (cc, std, se[:1500]))
        self.base[v] = cmd + ["-include", h]
    def write(self, tag, cases, idx):
        src = os.path.join(self.d, "p%s.cpp" % tag)
        with open(src, "w") as f:
            f.write("".join(code(i, cases[i]) for i in idx) + "int main() {\n" + "".join("c%d::run();\n" % i for i in idx) + "}\n")
        return src
    def accepted(self, v, tag, case):
        src = self.write(tag, [case], [0])
        rc, so, se = sh(self.base[v] + (["-fsyntax-only"] if VARIANTS[v][0] == "clang++" else ["-S", "-o", "/dev/null"]) + [src])      # gcc leaves bodies uninstantiated under -fsyntax-only
        os.remove(src)
        if rc == 0:
            return True, ""
        if "error:" not in se:
            raise RuntimeError("compiler failed: " + se[-1500:])
        return False, se
    def results(self, v, tag, cases, idx):
        """results of accepted programs, or None if the batch does not build"""
        src = self.write(tag, cases, idx)
        rc, so, se = sh(self.base[v] + ["-O0", src, "-o", src + ".x"], 600)
        if rc != 0:
            if "error:" not in se:
                raise RuntimeError("compiler failed: " + se[-1500:])
            return None, se
        rc, so, se = sh([src + ".x"])
        os.remove(src + ".x")
        os.remove(src)
        got = [list(map(int, l.split())) for l in so.splitlines()]
        got += [["ended with status %d" % rc]] * (len(idx) - len(got))
        return got, se
    def refused(self, v, tag, case):
        """access to what is not an alternative: does not compile, or always raises an error"""
        got, se = self.results(v, tag, [case], [0])
        if got is not None and got[0] != [0] * len(full(case)):
            return "access to something that is not an alternative gave %s (1: it succeeded)" % got[0]
        return None
    def judge(self, v, tag, case):
        """None if right, else what is wrong"""
        want = expect(self.d, tag, [case])[0]
        if want is None and case["kind"] == "access":
            return self.refused(v, tag, case)
        if want is None:
            ok, se = self.accepted(v, tag, case)
            return "a program that has to be rejected compiles" if ok else None
        got, se = self.results(v, tag, [case], [0])
        if got is None:
            return "a program that has to be accepted does not compile: " + " | ".join([l for l in se.splitlines() if "error:" in l][:2])
        if got[0] != want:
            return "the program ran %s, expected %s (branch taken, alternative or success per alternative)" % (got[0], want)
        return None

def smaller(case):
    for i in range(len(case["alts"])):
        if len(case["alts"]) > 1:
            yield dict(case, alts=case["alts"][:i] + case["alts"][i + 1:])
    for i in range(len(case.get("branches", []))):
        if len(case["branches"]) > 1:
            yield dict(case, branches=case["branches"][:i] + case["branches"][i + 1:])
    for i, b in enumerate(case.get("branches", [])):
        for k, w in (("noexcept", False), ("functor", False), ("form", "v")):
            if k in b and b[k] != w:
                yield dict(case, branches=case["branches"][:i] + [dict(b, **{k: w})] + case["branches"][i + 1:])
    if case["how"]:
        yield dict(case, how=0)
    if case.get("void"):
        yield dict(case, void=False)

def shrink(run, v, case, budget):
    end = time.time() + budget
    again = True
    while again and time.time() < end:
        again = False
        for c in smaller(case):
            if time.time() > end:
                break
            if run.judge(v, "sh", c):
                case, again = c, True
                break
    return case

def report(chk, run, v, case):
    if not run.judge(v, "rp", case):
        chk.errors.append("failure of a generated program did not reproduce: " + json.dumps(case))
        return
    case = shrink(run, v, case, 60)
    msg = run.judge(v, "rp", case)
    rdir = os.path.join(chk.root, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "C23-%s.txt" % hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10])
    with open(path, "w") as f:
        f.write("# property C23\n# harness c23\n# variant %d\n# kind program\n# build %s\n# log: %s\n" % (v, " ".join(VARIANTS[v]), msg.replace("\n", " ")))
        for l in code(0, case).splitlines():
            f.write("# step: %s\n" % l)
        f.write(json.dumps(case) + "\n")
    chk.failures.append(("ready", "c23", "c23", (path, " ".join(VARIANTS[v]) + ": " + msg + "\n" + code(0, case))))

def custom(chk):
    n, tmax = (1600, 70) if chk.tier == "quick" else (60000, 720)
    import check
    run = Runner(chk.dir, check.REPO)
    r = random.Random(int(hashlib.sha1(("%d/c23" % chk.seed).encode()).hexdigest()[:12], 16))
    end = time.time() + tmax
    try:
        with ThreadPoolExecutor(check.NCPU) as ex:
            list(ex.map(run.prepare, range(len(VARIANTS))))
            done = 0
            seen, labels, samples, evals, nontrivial = set(), {}, [], 0, 0
            per = 800
            while done < n and time.time() < end and not chk.failures:
                cases = [gen(r) for _ in range(per)]
                done += per
                parts = [(k, cases[k:k + 100]) for k in range(0, per, 100)]
                want = [w for res in ex.map(lambda p: expect(chk.dir, str(p[0]), p[1]), parts) for w in res]
                bad = []
                acc = [i for i in range(per) if want[i] is not None]
                rej = [i for i in range(per) if want[i] is None]
                def accept(b):
                    k, idx = b
                    v = (k + done // per) % len(VARIANTS)
                    got, se = run.results(v, "a%d" % k, cases, idx)
                    if got is None:
                        bad.extend((v, cases[i]) for j, i in enumerate(idx) if not run.accepted(v, "b%d_%d" % (k, j), cases[i])[0])
                    else:
                        bad.extend((v, cases[i]) for i, g in zip(idx, got) if g != want[i])
                def reject(i):
                    if time.time() > end + 60:
                        return
                    v = (i + done // per) % len(VARIANTS)
                    if run.refused(v, "r%d" % i, cases[i]) if cases[i]["kind"] == "access" else run.accepted(v, "r%d" % i, cases[i])[0]:
                        bad.append((v, cases[i]))
                list(ex.map(accept, [(k, acc[k * 24:k * 24 + 24]) for k in range((len(acc) + 23) // 24)]))
                list(ex.map(reject, rej))
                for i, c in enumerate(cases):
                    evals += 1
                    lab = c["kind"] + (" accepted" if want[i] is not None else " rejected")
                    labels[lab] = labels.get(lab, 0) + 1
                    if c.get("void"):
                        labels["branches without a result"] = labels.get("branches without a result", 0) + 1
                    if len(full(c)) > 1:
                        nontrivial += 1
                        seen.add(json.dumps(c, sort_keys=True))
                    if len(samples) < 6 and c["kind"] == "match" and i % 9 == 0:
                        samples.append(("accepted, runs %s" % want[i] if want[i] is not None else "rejected") + ":\n" + code(0, c))
                if bad:
                    bad.sort(key=lambda x: len(json.dumps(x[1])))
                    report(chk, run, *bad[0])
            for k, s in enumerate(samples or [""]):
                chk.stats.append(dict(evaluations=evals if k == 0 else 0, nontrivial=nontrivial if k == 0 else 0, distinct_extra=len(seen) if k == 0 else 0, seconds=0, labels=labels if k == 0 else {}, samples=[s], variant="8 builds", harness="generated programs", timed_out=k == 0 and done < n, seed=chk.seed))
    except RuntimeError as e:
        chk.errors.append(str(e))

def replay(chk, v, path):
    import check
    run = Runner(chk.dir, check.REPO)
    run.prepare(v)
    case = json.loads([l for l in open(path) if not l.startswith("#")][0])
    print(code(0, case))
    m = run.judge(v, "rp", case)
    print(m or "right")
    return 1 if m else 0
