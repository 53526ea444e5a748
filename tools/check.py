#!/usr/bin/env python3
"""Driver: builds the harness of one property from /repo's current tree in several
compiler/standard variants, runs generated cases, shrinks any failure, writes evidence.

  check.py C01 quick|thorough     run the check (VERIF_SEED, default 1)
  check.py --replay FILE          re-run a replay file against the current tree
"""
import sys, os, json, time, subprocess, hashlib, shutil, struct, array, re, threading, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import CHECKS, VARIANTS

NCPU = os.cpu_count() or 4
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=65536:free_fill_byte=173:max_free_fill_size=4096:detect_invalid_pointer_pairs=0"
ENV = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=86",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1", LC_ALL="C.UTF-8")

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=kw.pop("env", ENV), **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT"

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.root, self.env = pid, tier, seed, ROOT, ENV
        self.c = CHECKS[pid]
        self.t0 = time.time()
        self.dir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build")), pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        ENV["PBT_SCRATCH"] = os.path.join(self.dir, "scratch")   # removed with the build directory
        os.makedirs(ENV["PBT_SCRATCH"])
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.failures = []   # (kind, variant, harness, data)
        self.stats = []
        self.errors = []

    # ---- building
    def compile_cmd(self, variant, src, out, extra=()):
        cc, flags = VARIANTS[variant]
        return [cc] + flags.split() + ["-DPBT_MAIN", "-I" + REPO + "/include", "-I" + ROOT + "/pbt", "-w"] + list(extra) + [src, "-o", out] + \
               ["-pthread"]

    def build(self, harness, variant, extra=()):
        src = os.path.join(ROOT, "harness", harness)
        out = os.path.join(self.dir, harness.replace(".cpp", "") + "." + variant)
        cmd = self.compile_cmd(variant, src, out, extra)
        for attempt in (1, 2):
            rc, so, se = sh(cmd, timeout=600)
            if rc == 0:
                return out
            if rc == 124 or "error:" not in se:
                continue   # killed or out of memory: try again
            # Does an empty user of the library build?  Then the library no longer offers
            # what the property talks about; otherwise this is not ours to judge.
            probe = os.path.join(self.dir, "probe_%s.cpp" % variant)
            with open(probe, "w") as f:
                f.write('#include "efp.hpp"\nint main() {}\n')
            rc2, _, se2 = sh(self.compile_cmd(variant, probe, probe + ".out"), timeout=600)
            log = out + ".compile.log"
            with open(log, "w") as f:
                f.write(" ".join(cmd) + "\n" + se)
            if harness in self.c.get("optional", ()) and rc2 == 0:
                # leans on how the code names its primitives: without it the rest decides
                with self.lock:
                    self.extra_cov = dict(getattr(self, "extra_cov", {}), not_built=harness)
                return None
            if rc2 == 0 and "fatal error:" not in se:
                with self.lock:
                    self.failures.append(("compile", variant, harness, se))
                self.stop.set()
                return None
            break
        with self.lock:
            self.errors.append("cannot build %s (%s): rc=%s %s" % (harness, variant, rc, se[-3000:]))
        self.stop.set()
        return None

    # ---- running
    def recover(self, cur):
        with open(cur, "rb") as f:
            b = f.read()
        idx, n, active = struct.unpack_from("<QQQ", b, 0)
        if not active:
            return None
        return idx, list(struct.unpack_from("<%dI" % n, b, 24))

    def run_shard(self, exe, harness, variant, seed, start, cases, tmax, tag):
        if self.stop.is_set():
            return
        out = os.path.join(self.dir, "%s.%s" % (os.path.basename(exe), tag))
        cmd = [exe, "run", str(seed), str(start), str(cases), str(tmax), out]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open(out + ".err", "wb"), env=ENV)
        tend = time.time() + tmax + 200
        while True:
            try:
                so, _ = p.communicate(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                if self.stop.is_set() or time.time() > tend:
                    p.kill()
                    so, _ = p.communicate()
                    if not self.stop.is_set():
                        with self.lock:
                            self.errors.append("%s did not end in time" % tag)
                    return
        rc = p.returncode
        if rc == 0:
            with open(out + ".json") as f:
                st = json.load(f)
            st.update(variant=variant, harness=harness, hashes=out + ".hashes", seed=seed)
            with self.lock:
                self.stats.append(st)
            return
        if rc in (-9, -15):
            with self.lock:
                self.errors.append("%s was killed (out of memory?)" % tag)
            return
        so = so.decode("utf8", "replace")
        if rc == 3:
            with self.lock:
                self.errors.append("%s: harness error: %s" % (tag, open(out + ".err", errors="replace").read()[-2000:]))
            return
        if rc == 1 and os.path.exists(out + ".fail"):
            choices = out + ".fail"
            msg = so.strip()
        else:
            r = self.recover(out + ".cur")
            msg = open(out + ".err", errors="replace").read()
            if r is None:
                with self.lock:
                    self.failures.append(("outside", variant, harness, (rc, msg, cmd)))
                self.stop.set()
                return
            choices = out + ".fail"
            with open(choices, "w") as f:
                f.write(" ".join(map(str, r[1])) + "\n")
        with self.lock:
            self.failures.append(("case", variant, harness, (exe, choices, msg, cmd)))
        self.stop.set()

    # ---- failure processing
    def confirm(self, exe, choices, want=3):
        for _ in range(want):
            rc, so, se = sh([exe, "replay", choices], timeout=300)
            if rc == 0:
                return False
        return True

    def report_case(self, variant, harness, data):
        exe, choices, msg, cmd = data
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        if not self.confirm(exe, choices):
            # depends on what ran before: the whole shard is the reproduction
            rc, so, se = sh(cmd, timeout=1200)
            if rc == 0 and "WARNING: ThreadSanitizer: data race" in msg:
                so, se = "", msg      # a race that was seen is there, whatever the next schedule does
            elif rc == 0:
                self.errors.append("failure of %s/%s did not reproduce: %s" % (harness, variant, msg[-800:]))
                return None
            path = os.path.join(rdir, "%s-run-%s.txt" % (self.pid, variant))
            with open(path, "w") as f:
                f.write("# property %s\n# harness %s\n# variant %s\n# kind run\n# cmd %s\n" % (self.pid, harness, variant, json.dumps(cmd[1:])))
                for l in (so + se).splitlines()[:80]:
                    f.write("# log: %s\n" % l)
            return path, msg
        small = choices + ".min"
        rc, so, se = sh([exe, "shrink", choices, small, "60" if self.tier == "quick" else "240"], timeout=900)
        if rc != 0 or not os.path.exists(small) or not self.confirm(exe, small, 2):
            small = choices
        rc, so, se = sh([exe, "replay", small], timeout=300)
        body = [l for l in open(small) if not l.startswith("#")]
        h = hashlib.sha1("".join(body).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.txt" % (self.pid, h))
        with open(path, "w") as f:
            f.write("# property %s\n# harness %s\n# variant %s\n# kind case\n" % (self.pid, harness, variant))
            for l in so.splitlines()[:400]:
                f.write("# step: %s\n" % l)
            for l in se.splitlines()[:60]:
                f.write("# log: %s\n" % l)
            f.writelines(body)
        return path, so + "\n" + se

    def report(self):
        """Returns list of replay paths."""
        done = []
        for kind, variant, harness, data in self.failures[:3]:
            if kind == "case":
                r = self.report_case(variant, harness, data)
                if r:
                    done.append(r)
            elif kind == "compile":
                rdir = os.path.join(ROOT, "replays")
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-compile-%s.txt" % (self.pid, variant))
                with open(path, "w") as f:
                    f.write("# property %s\n# harness %s\n# variant %s\n# kind compile\n" % (self.pid, harness, variant))
                    for l in data.splitlines()[:120]:
                        f.write("# log: %s\n" % l)
                errs = [l for l in data.splitlines() if "error:" in l][:3]
                done.append((path, "a program using the property's operations no longer compiles: " + " | ".join(errs)))
            elif kind == "outside":
                rc, msg, cmd = data
                rc2, so2, se2 = sh(cmd, timeout=1200)
                if rc2 == 0:
                    self.errors.append("failure outside a case did not reproduce: " + msg[-800:])
                    continue
                rdir = os.path.join(ROOT, "replays")
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-run-%s.txt" % (self.pid, variant))
                with open(path, "w") as f:
                    f.write("# property %s\n# harness %s\n# variant %s\n# kind run\n# cmd %s\n" % (self.pid, harness, variant, json.dumps(cmd[1:])))
                    for l in msg.splitlines()[:80]:
                        f.write("# log: %s\n" % l)
                done.append((path, msg))
            elif kind == "ready":      # prepared by a custom stage: (path, message)
                done.append(data)
            if done:
                break
        return done

    # ---- libFuzzer stage (thorough)
    def fuzz(self, harness, seconds, jobs):
        out = os.path.join(self.dir, harness.replace(".cpp", "") + ".fuzz")
        src = os.path.join(ROOT, "harness", harness)
        cmd = self.compile_cmd("fuzz", src, out, ("-DPBT_FUZZ",))
        rc, so, se = sh(cmd, timeout=900)
        if rc != 0:
            self.errors.append("cannot build fuzz target %s: %s" % (harness, se[-2000:]))
            return
        procs = []
        for j in range(jobs):
            cor = os.path.join(self.dir, "corpus%d" % j)
            os.makedirs(cor, exist_ok=True)
            pre = os.path.join(self.dir, "fz%d" % j)
            env = dict(ENV, PBT_CUR=pre + ".cur", PBT_FAIL=pre + ".fail")
            p = subprocess.Popen([out, cor, "-seed=%d" % (self.seed * 100 + j + 1), "-max_total_time=%d" % seconds, "-max_len=4096",
                                  "-print_final_stats=1", "-timeout=60", "-rss_limit_mb=6000", "-artifact_prefix=" + pre + "."],
                                 stdout=subprocess.DEVNULL, stderr=open(pre + ".err", "wb"), env=env)
            procs.append((p, pre))
        for p, pre in procs:
            try:
                p.wait(timeout=seconds + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            err = open(pre + ".err", errors="replace").read()
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
            n = int(m.group(1)) if m else 0
            cov = re.findall(r"cov: (\d+)", err)
            with self.lock:
                self.fuzz_execs = getattr(self, "fuzz_execs", 0) + n
                self.fuzz_cov = max(getattr(self, "fuzz_cov", 0), int(cov[-1]) if cov else 0)
            if p.returncode != 0 and not self.failures:
                choices = pre + ".fail"
                if not os.path.exists(choices):
                    r = self.recover(pre + ".cur")
                    if r is None:
                        self.errors.append("fuzzer stopped: " + err[-1500:])
                        continue
                    with open(choices, "w") as f:
                        f.write(" ".join(map(str, r[1])) + "\n")
                exe = os.path.join(self.dir, harness.replace(".cpp", "") + "." + self.first_variant)
                self.failures.append(("case", self.first_variant, harness, (exe, choices, err[-2000:], [exe, "replay", choices])))

    # ---- main
    def main(self):
        c, tier = self.c, self.tier
        jobs = c["jobs"][tier] if "jobs" in c else []
        self.first_variant = jobs[0][1] if jobs else None
        if "custom" in c:
            c["custom"](self)
        with ThreadPoolExecutor(NCPU) as builders, ThreadPoolExecutor(NCPU) as runners:
            futs = {}
            for j in jobs:
                harness, variant = j[0], j[1]
                futs[builders.submit(self.build, harness, variant)] = j
            runs = []
            for f in as_completed(futs):
                exe = f.result()
                if exe is None:
                    continue
                harness, variant, shards, cases, tmax = futs[f]
                vseed = int(hashlib.sha1(("%d/%s/%s" % (self.seed, harness, variant)).encode()).hexdigest()[:12], 16)
                for k in range(shards):
                    runs.append(runners.submit(self.run_shard, exe, harness, variant, vseed, k * cases, cases, tmax, "s%d" % k))
            for r in runs:
                r.result()
        if tier == "thorough" and not self.failures and not self.errors:
            for harness in c.get("fuzz", []):
                self.fuzz(harness, c.get("fuzz_seconds", 300), NCPU)
        self.probe_known()
        done = self.report() if self.failures else []
        self.evidence(done)
        for l in self.known():
            print(l)
        ev = sum(s["evaluations"] for s in self.stats)
        print("%s %s seed=%d: %d cases, %d variants, %.1f s" % (self.pid, tier, self.seed, ev, len({s["variant"] for s in self.stats}), time.time() - self.t0))
        keep = os.environ.get("VERIF_KEEP")
        if not keep:
            shutil.rmtree(self.dir, ignore_errors=True)
        if done:
            for path, msg in done:
                print("\n".join(msg.strip().splitlines()[-25:]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.errors:
            for e in self.errors:
                print("CHECK-ERROR", e, file=sys.stderr)
            return 2
        return 0

    def probe_known(self):
        """Findings listed in known_findings.txt: report those that are still there. The generators leave them out;
        the probe only tells whether the listed input still fails."""
        src = self.c.get("known")
        if not src:
            return
        listed = set()
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) (\S+)", l)
                if m and m.group(1) == self.pid:
                    listed.add(m.group(2))
        out = os.path.join(self.dir, src.replace(".cpp", ".known"))
        rc, so, se = sh(["g++", "-std=c++17", "-w", "-I" + os.path.join(REPO, "include"), os.path.join(ROOT, "harness", src), "-o", out], timeout=300)
        if rc != 0:
            return
        rc, so, se = sh([out], timeout=60)
        self.known_hits = [l.split(" ", 2)[2] for l in so.splitlines() if l.startswith("FINDING ") and l.split(" ", 2)[1] in listed]

    def known(self):
        out = []
        for k in getattr(self, "known_hits", []):
            out.append("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        return out

    def evidence(self, done):
        c = self.c
        hs = set()
        for s in self.stats:
            h = s.get("hashes")
            if h and os.path.exists(h):
                a = array.array("Q")
                with open(h, "rb") as f:
                    a.frombytes(f.read())
                hs.update(a)
        labels, samples, per = {}, [], {}
        for s in self.stats:
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
            per.setdefault(s["harness"] + ":" + s["variant"], 0)
            per[s["harness"] + ":" + s["variant"]] += s["evaluations"]
            if len(samples) < 6:
                samples += [x.strip().splitlines() for x in s["samples"][:1]]
        cov = dict(evaluations=sum(s["evaluations"] for s in self.stats),
                   distinct_nontrivial=len(hs) + sum(s.get("distinct_extra", 0) for s in self.stats),
                   rule=c["rule"], samples=samples, cases_per_build=per, events=labels,
                   cut_short_by_time=sum(1 for s in self.stats if s.get("timed_out")))
        if hasattr(self, "fuzz_execs"):
            cov["coverage_guided_executions"] = self.fuzz_execs
            cov["coverage_guided_edges"] = self.fuzz_cov
        if hasattr(self, "extra_cov"):
            cov.update(self.extra_cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=c.get("level", "exploration"), coverage=cov,
                  assumptions=c.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=len(done))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

def replay(path):
    meta = {}
    for l in open(path):
        m = re.match(r"# (property|harness|variant|variants|kind|cmd) (.*)", l)
        if m:
            meta[m.group(1)] = m.group(2).strip()
    chk = Check(meta["property"], "quick", 1)
    if meta["kind"] == "diff":
        import c21
        rc = c21.replay(chk, meta["variants"].split(), path)
        shutil.rmtree(chk.dir, ignore_errors=True)
        return rc
    if meta["kind"] == "program":
        import c23
        rc = c23.replay(chk, int(meta["variant"]), path)
        shutil.rmtree(chk.dir, ignore_errors=True)
        return rc
    exe = chk.build(meta["harness"], meta["variant"])
    if exe is None:
        print("does not build:", (chk.failures or chk.errors)[0])
        return 1 if chk.failures else 2
    if meta["kind"] == "compile":
        print("builds: the replayed failure is gone")
        return 0
    if meta["kind"] == "run":
        cmd = [exe] + json.loads(meta["cmd"])
        cmd[-1] = os.path.join(chk.dir, "replayrun")
    else:
        cmd = [exe, "replay", path]
    rc, so, se = sh(cmd, timeout=1200)
    print(so[-6000:])
    print(se[-6000:], file=sys.stderr)
    shutil.rmtree(chk.dir, ignore_errors=True)
    return 0 if rc == 0 else 1

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(Check(sys.argv[1], tier, seed).main())
