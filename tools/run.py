#!/usr/bin/env python3
"""Driver: builds the harnesses of one property against /repo's working tree, searches, shrinks, replays, reports.

run.py ID --tier quick|thorough     run the check of one property
run.py --setup                      check that the toolchain is usable
run.py --replay FILE                re-run a replay file (exit 1 if it still fails)
run.py ID --only SUB --count N --seed S   exploratory run of single sub-checks
"""
import argparse, array, concurrent.futures as cf, glob, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CAPS = {"quick": 420.0, "thorough": 700.0}   # seconds of searching after which the rest is left inconclusive
HANG_CODE = 97


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "pbt")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Target:
    """one executable: checks/ID/x.cpp, optionally several variants through '// variant:' lines"""

    def __init__(self, pid, src, variant, cxx, flags, libs, env):
        self.pid, self.src, self.variant, self.cxx, self.flags, self.libs, self.env = pid, src, variant, cxx, flags, libs, env
        self.wrap = [x for w in flags if w.startswith("wrap:") for x in w[5:].split(",")]  # run under another program
        self.flags = [x for x in flags if not x.startswith("wrap:")]
        stem = os.path.splitext(os.path.basename(src))[0]
        self.name = stem + ("." + variant if variant else "")
        self.bin = None


def targets(pid):
    """header lines of a harness: '// cxx: clang++', '// flags: ...', '// libs: ...', '// env: A=B', '// variant: name flags...' (a flag wrap:PROG,ARG,... runs the executable under PROG)"""
    out = []
    for src in sorted(glob.glob(os.path.join(VERIF, "checks", pid, "*.cpp"))):
        cxx, flags, libs, env, variants = "g++", [], [], {}, []
        with open(src) as f:
            for line in f:
                m = re.match(r"//\s*(cxx|flags|libs|env|variant):\s*(.*)$", line)
                if not m:
                    if line.startswith("//"):
                        continue
                    break
                k, v = m.group(1), m.group(2).strip().replace("$REPO", REPO)
                if k == "cxx":
                    cxx = v
                elif k == "flags":
                    flags += v.split()
                elif k == "libs":
                    libs += v.split()
                elif k == "env":
                    a, b = v.split("=", 1)
                    env[a] = b
                elif k == "variant":
                    w = v.split()
                    variants.append((w[0], w[1:]))
        for name, extra in variants or [("", [])]:
            out.append(Target(pid, src, name, cxx, flags + extra, libs, env))
    return out


def compile_target(t, th):
    base = ["-std=c++20", "-O1", "-g0", "-w", "-DTLAPACK_CHECK_INPUT", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "pbt"),
            "-I" + os.path.join(VERIF, "checks", t.pid)]
    with open(t.src, "rb") as f:
        src = f.read()
    for h in sorted(glob.glob(os.path.join(VERIF, "checks", t.pid, "*.hpp"))):
        with open(h, "rb") as f:
            src += f.read()
    for inc in re.findall(rb'#include "(\.\./[A-Z]\d+/)([\w.]+)"', src):  # harness sources of another property
        for h in [os.path.join(VERIF, "checks", t.pid, (inc[0] + inc[1]).decode())] + sorted(glob.glob(os.path.join(VERIF, "checks", t.pid, inc[0].decode(), "*.hpp"))):
            with open(h, "rb") as f:
                src += f.read()
    key = sha(th, src, t.cxx, " ".join(base + t.flags + t.libs))
    d = os.path.join(BUILD, t.pid)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, t.name)
    stamp = exe + ".key"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        t.bin = exe
        return None
    if b"tlapack_cwrappers" in src:  # C headers as the build configures them, with default integer types
        g = os.path.join(d, "gen-" + t.name)
        os.makedirs(g, exist_ok=True)
        for h in glob.glob(os.path.join(REPO, "include", "*.h.in")):
            with open(h, errors="replace") as f, open(os.path.join(g, os.path.basename(h)[:-3]), "w") as o:
                o.write(re.sub(r"(?m)^@\w+@$", "", f.read()))
        base = base + ["-I" + g]
    cmd = [t.cxx] + base + t.flags + [t.src, "-o", exe + ".tmp"] + t.libs + ["-lpthread"]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    t.compile_s = time.time() - t0
    if p.returncode != 0:
        return " ".join(cmd) + "\n" + p.stdout[:200000] if p.stdout else " ".join(cmd) + "\n(no output)"
    os.rename(exe + ".tmp", exe)
    with open(stamp, "w") as f:
        f.write(key)
    t.bin = exe
    return None


def envof(t):
    e = dict(os.environ)
    e.setdefault("ASAN_OPTIONS", "abort_on_error=0:detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0")
    e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:exitcode=77:print_stacktrace=0")
    e.setdefault("OMP_NUM_THREADS", "1")
    e.update(t.env)
    return e


def read_progress(path):
    try:
        with open(path, "rb") as f:
            index, count, cap = struct.unpack("<QQQ", f.read(24))
            count = min(count, cap)
            data = f.read(8 * count)
            return index, list(struct.unpack("<%dQ" % (len(data) // 8), data))
    except Exception:
        return None


class Runner:
    def __init__(self, pid, tier, seed, only=None, count=None):
        self.pid, self.tier, self.seed, self.only, self.count = pid, tier, seed, only, count
        self.tmp = tempfile.mkdtemp(prefix="pbt-" + pid + "-")
        self.lock = threading.Lock()
        self.subs = {}      # (target,sub) -> aggregate
        self.failures = []
        self.skipped = 0
        self.deadline = None
        self.n = 0

    def path(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.tmp, "%d.%s" % (self.n, suffix))

    def listsubs(self, t):
        p = subprocess.run([t.bin, "--list"], stdout=subprocess.PIPE, env=envof(t), text=True)
        return json.loads(p.stdout)

    def agg(self, t, s):
        with self.lock:
            return self.subs.setdefault((t.name, s["name"]), dict(evaluations=0, discards=0, nontrivial=0, distinct=0, hashes=set(), cpu=0.0, labels={}, ratios={}, samples=[], rule=s["rule"], planned=0, failing=0))

    def chunk(self, t, s, start, count):
        a = self.agg(t, s)
        key = (t.name, s["name"])
        guard = 0
        while count > 0:
            with self.lock:
                nf = sum(1 for f in self.failures if f["key"] == key)
            if nf >= 4:
                return
            if time.time() > self.deadline:
                with self.lock:
                    self.skipped += count
                return
            out, prog, log = self.path("json"), self.path("prog"), self.path("log")
            with open(log, "wb") as lf:
                try:
                    p = subprocess.run(t.wrap + [t.bin, "--run", s["name"], str(self.seed), str(start), str(count), out, prog, "200"], env=envof(t), stdout=lf, stderr=lf,
                                       timeout=max(5.0, self.hard - time.time()))
                except subprocess.TimeoutExpired:
                    with self.lock:
                        self.skipped += count
                    return
            if p.returncode == 0:
                r = json.load(open(out))
                with self.lock:
                    for k in ("evaluations", "discards", "nontrivial", "cpu"):
                        a[k] += r[k]
                    for k, v in r["labels"].items():
                        a["labels"][k] = a["labels"].get(k, 0) + v
                    for k, v in r["ratios"].items():
                        a["ratios"][k] = max(a["ratios"].get(k, 0), v)
                    if len(a["samples"]) < 3:
                        a["samples"] += r["samples"]
                    a["failing"] += sum(r["failsigs"].values())
                    for f in r["failures"]:
                        self.failures.append(dict(key=key, target=t, **f))
                    h = array.array("Q")
                    with open(out + ".h", "rb") as fh:
                        h.frombytes(fh.read())
                    a["hashes"].update(h)
                    a["distinct"] = len(a["hashes"])
                for f in (out, prog, log, out + ".h"):
                    os.unlink(f)
                return
            # the worker died: take the case it was running
            guard += 1
            pr = read_progress(prog)
            text = open(log, "rb").read()[:6000].decode(errors="replace")
            if pr is None or guard > 4:
                with self.lock:
                    self.skipped += count
                return
            index, choices = pr
            cfile, rfile = self.path("choices"), self.path("replay")
            with open(cfile, "w") as f:
                f.write(" ".join(map(str, choices)))
            q = subprocess.run(t.wrap + [t.bin, "--shrink", s["name"], cfile, rfile], env=envof(t), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if q.returncode == 0:
                r = json.load(open(rfile))
            else:
                r = dict(sub=s["name"], sig="hang" if p.returncode == HANG_CODE else "crash", msg="worker died with status %s" % p.returncode, case="", choices=choices)
            r["log"] = text
            done = index - start
            with self.lock:
                a["evaluations"] += done + 1
                a["failing"] += 1
                self.failures.append(dict(key=key, target=t, **r))
                if r["sig"] == "hang":  # further hangs cost their whole time limit each: stop the search soon
                    self.deadline = min(self.deadline, time.time() + 20)
                    self.hard = min(self.hard, time.time() + 60)
            start, count = index + 1, count - (done + 1)

    def run(self):
        t0 = time.time()
        self.deadline = t0 + CAPS[self.tier]
        self.hard = t0 + CAPS[self.tier] + 230  # processes still running then are ended, their cases count as skipped
        th = tree_hash()
        ts = targets(self.pid)
        if not ts:
            print("no harness for", self.pid)
            return 2
        self.targets = ts
        self.compile_fail = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = []
            pending = {ex.submit(compile_target, t, th): t for t in ts}
            for f in cf.as_completed(list(pending)):
                t = pending[f]
                err = f.result()
                if err:
                    if re.search(r"internal compiler error|Killed|out of memory|virtual memory|No space left", err):
                        err = compile_target(t, th)
                    if err:
                        self.compile_fail.append((t, err))
                        continue
                for s in self.listsubs(t):
                    if self.only and not re.search(self.only, s["name"]):
                        continue
                    n = self.count or s[self.tier]
                    self.agg(t, s)["planned"] += n
                    c = max(1, (n + 2 * JOBS - 1) // (2 * JOBS)) if not t.wrap else (n + 2) // 3
                    for st in range(0, n, c):
                        futs.append(ex.submit(self.chunk, t, s, st, min(c, n - st)))
            for f in futs:
                f.result()
        self.search_s = time.time() - t0
        return 0

    def confirm(self, f, times=5):
        cfile = self.path("choices")
        with open(cfile, "w") as fh:
            fh.write(" ".join(map(str, f["choices"])))
        k, text = 0, ""
        for i in range(times):
            p = subprocess.run(f["target"].wrap + [f["target"].bin, "--exec", f["sub"], cfile], env=envof(f["target"]), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if p.returncode == 1:
                k += 1
                text = p.stdout
            if k and (i >= 2 or f["sig"] == "hang"):
                break
            if f["sig"] == "hang" and i >= 1:
                break
        return k, text


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def match_known(k, pid, f):
    return (k["property"] == pid and re.fullmatch(k["sub"], f["sub"]) and re.fullmatch(k["sig"], f["sig"]) and re.search(k.get("case", ""), f["case"]) is not None
            and re.search(k.get("msg", ""), f.get("msg", "")) is not None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--count", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--ratios", action="store_true")
    ap.add_argument("--labels", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for c in (["g++", "--version"], ["clang++", "--version"]):
            subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("setup ok: harnesses are built by each check from /repo's working tree")
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        if r.get("kind") == "compile":
            ts = [t for t in targets(r["property"]) if t.name == r["target"]]
            err = compile_target(ts[0], tree_hash())
            print(err or "compiles")
            return 1 if err else 0
        ts = [t for t in targets(r["property"]) if t.name == r["target"]]
        err = compile_target(ts[0], tree_hash())
        if err:
            print(err)
            return 1
        with tempfile.NamedTemporaryFile("w", suffix=".choices") as fh:
            fh.write(" ".join(map(str, r["choices"])))
            fh.flush()
            e = envof(ts[0])
            e["PBT_VERBOSE"] = "1"
            return subprocess.run(ts[0].wrap + [ts[0].bin, "--exec", r["sub"], fh.name], env=e).returncode
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in CAPS else "quick"
    t0 = time.time()
    R = Runner(a.id, tier, seed, a.only, a.count)
    try:
        rc = R.run()
        if rc:
            return rc
        return report(R, a, seed, tier, t0)
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)


def report(R, a, seed, tier, t0):
    pid = a.id
    known = [k for k in load_known() if k["property"] == pid]
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    violations, unrepro, seen = [], [], set()
    for t, err in R.compile_fail:
        path = os.path.join(rdir, "%s-%s-compile.json" % (pid, t.name))
        json.dump(dict(kind="compile", property=pid, target=t.name, log=err), open(path, "w"), indent=1)
        violations.append((path, "harness %s no longer compiles against the library: %s" % (t.name, (re.findall(r"error:.*", err) or [""])[0][:300])))
    known_hit, hung = {}, False
    for f in R.failures:
        if f["sig"] == "hang" and hung:
            continue
        for k in known:
            if match_known(k, pid, f):
                known_hit.setdefault(k["what"], f)
                break
        else:
            key = (f["key"], f["sig"])
            if key in seen or len(violations) >= 12:
                continue
            seen.add(key)
            n, text = R.confirm(f)
            if n == 0:
                unrepro.append("%s/%s: %s %s" % (f["key"][0], f["sub"], f["sig"], f.get("msg", "")[:200]))
                continue
            hung = hung or f["sig"] == "hang"
            h = sha(f["sub"], f["sig"], *f["choices"])[:10]
            path = os.path.join(rdir, "%s-%s-%s.json" % (pid, re.sub(r"\W+", "_", f["sub"]), h))
            json.dump(dict(property=pid, target=f["key"][0], sub=f["sub"], sig=f["sig"], msg=f.get("msg"), case=f.get("case"), choices=f["choices"], seed=seed, log=f.get("log", ""),
                           reproduced="%d" % n), open(path, "w"), indent=1)
            violations.append((path, "%s/%s: %s: %s | case: %s" % (f["key"][0], f["sub"], f["sig"], f.get("msg", "")[:400], f.get("case", "")[:400])))
    # known findings: replay the listed input, whatever the random search met
    for k in known:
        ts = [t for t in R.targets if t.name == k["target"] and t.bin]
        if not ts:
            continue
        n, text = R.confirm(dict(target=ts[0], sub=k["replay_sub"], choices=k["choices"], sig=""), times=1)
        if n:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: listed finding no longer reproduces: %s" % k["what"])
    ev = sum(x["evaluations"] for x in R.subs.values())
    di = sum(x["distinct"] for x in R.subs.values())
    rules = sorted({x["rule"] for x in R.subs.values() if x["rule"]})
    samples, labels = [], {}
    for (tn, sn), x in sorted(R.subs.items()):
        for s in x["samples"][:2]:
            samples.append("%s/%s: %s" % (tn, sn, s[:600]))
    per = {"%s/%s" % k: dict(planned=x["planned"], evaluations=x["evaluations"], discarded=x["discards"], nontrivial=x["nontrivial"], distinct_nontrivial=x["distinct"], cpu_s=round(x["cpu"], 2),
                              labels=x["labels"], max_ratio_to_threshold={n: round(v, 4) for n, v in x["ratios"].items()}) for k, x in sorted(R.subs.items())}
    evidence = dict(property=pid, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=ev, distinct_nontrivial=di,
                                  rule="cases are drawn from seeded choice sequences (one integer per decision); non-trivial: " + "; ".join(rules), samples=samples[:60] or ["none"], sub_checks=per,
                                  cases_skipped_by_time_cap=R.skipped, unreproduced_failures=unrepro),
                    assumptions=["search, not proof: only the generated cases are decided", "harnesses are compiled with " + ", ".join(sorted({t.cxx for t in R.targets})) + " from /repo/include (and /repo/src for X04)"],
                    wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    if a.ratios or a.only:
        for n, x in per.items():
            print("%-44s ev=%-7d nt=%-7d di=%d cpu=%.1f %s %s" % (n, x["evaluations"], x["nontrivial"], x["discarded"], x["cpu_s"], " ".join("%s=%.3f" % kv for kv in x["max_ratio_to_threshold"].items()), x["labels"] if a.labels else ""))
    for u in unrepro:
        print("unreproduced:", u)
    print("%s: %d cases, %d distinct non-trivial, %d skipped, %.1f s (compile max %.1f s)" % (pid, ev, di, R.skipped, time.time() - t0, max([getattr(t, "compile_s", 0) for t in R.targets] + [0])))
    for path, what in violations:
        print("  " + what)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
