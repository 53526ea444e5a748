"""C21: the same program built in many ways has to see the same results."""
import hashlib, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor

HARNESS = "c21_digest.cpp"

ENV = None
def observe(exe, path, log=False):
    r = subprocess.run([exe, "observe", path] + (["log"] if log else []), capture_output=True, timeout=120, env=ENV)
    return (r.returncode, r.stdout) if not log else r.stdout.decode("utf8", "replace") + (r.stderr.decode("utf8", "replace") if r.returncode else "")

def differs(a, b, choices, path):
    with open(path, "w") as f:
        f.write(" ".join(map(str, choices)) + "\n")
    return observe(a, path) != observe(b, path)

def shrink(a, b, v, path, budget):
    end = time.time() + budget
    changed = True
    while changed and time.time() < end:
        changed = False
        n = len(v)
        size = max(1, n // 2)
        while size >= 1 and time.time() < end:      # delete runs
            i = 0
            while i < len(v) and time.time() < end:
                w = v[:i] + v[i + size:]
                if len(w) < len(v) and differs(a, b, w, path):
                    v, changed = w, True
                else:
                    i += size
            size //= 2
        for i in range(len(v)):                      # lower values
            for x in (0, v[i] // 2, v[i] - 1):
                if time.time() > end:
                    break
                if 0 <= x < v[i]:
                    w = v[:i] + [x] + v[i + 1:]
                    if differs(a, b, w, path):
                        v, changed = w, True
                        break
    return v

def run(chk, variants, cases, tmax):
    import registry
    global ENV
    ENV = chk.env
    for name, (cc, fl) in variants.items():
        registry.VARIANTS[name] = (cc, fl)
    with ThreadPoolExecutor(8) as ex:
        exes = dict(zip(variants, ex.map(lambda v: chk.build(HARNESS, v), variants)))
    exes = {k: v for k, v in exes.items() if v}
    if chk.failures or chk.errors:
        return
    seed = int(hashlib.sha1(("%d/c21" % chk.seed).encode()).hexdigest()[:12], 16)
    def go(v):
        out = os.path.join(chk.dir, "dg." + v)
        r = subprocess.run([exes[v], "digest", str(seed), "0", str(cases), str(tmax), out], capture_output=True, timeout=tmax + 200, env=ENV)
        d = open(out + ".digest", "rb").read() if os.path.exists(out + ".digest") else b""
        return v, r.returncode, [d[i:i + 8] for i in range(0, len(d) - 7, 8)], r.stderr.decode("utf8", "replace")
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, exes))
    n = min(len(d) for _, _, d, _ in res)
    ended = [r for r in res if r[1] != 0]
    rv, rrc, rd, _ = next((r for r in res if r[1] == 0), res[0])
    bad = None
    for v, rc, d, err in res:
        i = next((k for k in range(min(len(d), len(rd))) if d[k] != rd[k]), None)
        if i is not None and (bad is None or i < bad[1]):
            bad = (v, i)
    if bad is None and ended:
        # digests of a process that ended early are lost with its buffer: find its case
        v, rc, d, err = ended[0]
        cur = chk.recover(os.path.join(chk.dir, "dg." + v + ".cur"))
        if cur is None:
            chk.errors.append("%s ended with %d: %s" % (v, rc, err[-500:]))
            return
        bad = (v, cur[0])
    chk.stats.append(dict(evaluations=n * len(res), nontrivial=n * len(res), seconds=0, labels={"builds compared": len(res), "cases per build": n}, samples=[], variant="compared", harness=HARNESS, seed=seed))
    if not bad:
        return
    v, i = bad
    path = os.path.join(chk.dir, "case.txt")
    subprocess.run([exes[rv], "choices", str(seed), str(i), path], check=True, timeout=120)
    ch = [int(x) for l in open(path) if not l.startswith("#") for x in l.split()]
    a, b = exes[rv], exes[v]
    if not all(differs(a, b, ch, path) for _ in range(2)):
        chk.errors.append("difference of case %d between %s and %s did not reproduce" % (i, rv, v))
        return
    ch = shrink(a, b, ch, path, 60 if chk.tier == "quick" else 200)
    differs(a, b, ch, path)
    rdir = os.path.join(chk.root, "replays")
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(rdir, "C21-%s.txt" % hashlib.sha1(str(ch).encode()).hexdigest()[:10])
    la, lb = observe(a, path)[1].decode("utf8", "replace"), observe(b, path)[1].decode("utf8", "replace")
    diff = [(x, y) for x, y in zip(la.splitlines() + ["(end)"], lb.splitlines() + ["(end)"]) if x != y][:5]
    msg = "results differ between builds %s (%s) and %s (%s):\n" % (rv, " ".join(registry.VARIANTS[rv]), v, " ".join(registry.VARIANTS[v]))
    for x, y in diff:
        msg += "  %s: %s\n  %s: %s\n" % (rv, x[:300], v, y[:300])
    with open(out, "w") as f:
        f.write("# property C21\n# harness %s\n# kind diff\n# variants %s %s\n" % (HARNESS, rv, v))
        for l in msg.splitlines():
            f.write("# log: %s\n" % l)
        for l in observe(a, path, True).splitlines()[:100]:
            f.write("# step: %s\n" % l)
        f.write(" ".join(map(str, ch)) + "\n")
    chk.failures.append(("ready", v, HARNESS, (out, msg)))

BOTH = {}
for cc, short in (("g++", "g"), ("clang++", "c")):
    for std in ("11", "14", "17", "20", "23"):
        for o in ("O0", "O2"):
            BOTH["d%s%s%s" % (short, std, o)] = (cc, "-std=c++%s -%s" % (std, o))
QUICK = {k: BOTH[k] for k in ("dg11O0", "dg14O2", "dg17O0", "dg20O2", "dg23O0", "dc11O2", "dc14O0", "dc17O2", "dc20O0", "dc23O2")}
DEEP = dict(BOTH, dg11O3=("g++", "-std=c++11 -O3"), dc17Os=("clang++", "-std=c++17 -Os"), dg14San=("g++", "-std=c++14 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=nonnull-attribute -ftrivial-auto-var-init=pattern"), dc20San=("clang++", "-std=c++20 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=nonnull-attribute -ftrivial-auto-var-init=zero"))
def replay(chk, names, path):
    import registry
    global ENV
    ENV = chk.env
    for n in names:
        registry.VARIANTS[n] = DEEP[n]
    exes = [chk.build(HARNESS, n) for n in names]
    if None in exes:
        print("does not build:", (chk.failures or chk.errors)[0])
        return 1 if chk.failures else 2
    a, b = [observe(e, path) for e in exes]
    for n, (rc, o) in zip(names, (a, b)):
        print("== %s: exit status %d\n%s" % (n, rc, o.decode("utf8", "replace")))
    print("the results differ" if a != b else "the results are the same")
    return 1 if a != b else 0

def custom(chk):
    if chk.tier == "quick":
        run(chk, QUICK, 60000, 60)
    else:
        run(chk, DEEP, 3000000, 500)
