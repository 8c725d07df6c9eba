#!/usr/bin/env python3
"""Driver: builds /repo's current sources under sanitizers, runs the monitored workloads of one property,
routes every observed failure (oracle failure, sanitizer report, abort, hang) through the known-findings
file, writes the evidence file and decides the exit code.

  vp.py check  <ID> [--tier quick|thorough] [--seed N]
  vp.py replay <file>                 re-run one recorded failing case
  vp.py setup                         build everything once
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
GRACE = 20  # seconds the other shards get once one of them has observed a violation
NCPU = max(1, min(16, os.cpu_count() or 8))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props  # noqa: E402

MODULES = ["AlexandriaKernel", "Configuration", "FilePool", "GridContainer", "Histogram", "KdTree", "MathUtils",
           "NdArray", "PhysicsUtils", "SOM", "SourceCatalog", "Table", "XYDataset"]
COMMON = ["-std=c++14", "-g1", "-O1", "-fno-omit-frame-pointer", "-pthread", "-w",
          "-D_GLIBCXX_ASSERTIONS", "-DVP_MONITOR", "-include", "memory", "-include", "array",
          "-include", "boost/io/quoted.hpp", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]
CONFIGS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
}
INC = ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness")] + \
      ["-I" + os.path.join(REPO, m) for m in MODULES]
LIBS = ["-lboost_iostreams", "-lboost_filesystem", "-lboost_thread", "-lboost_regex", "-lboost_program_options",
        "-lboost_serialization", "-lboost_system", "-lboost_chrono", "-lboost_atomic", "-lboost_date_time"]
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=1:"
                    "max_allocation_size_mb=6000:handle_abort=1:hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:detect_deadlocks=0:history_size=4",
    "LC_ALL": "C.UTF-8",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ build
_hash_cache = {}


def file_hash(p):
    if p not in _hash_cache:
        try:
            with open(p, "rb") as f:
                _hash_cache[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash_cache[p] = "missing"
    return _hash_cache[p]


def parse_deps(d):
    try:
        t = open(d).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    out = []
    for line in t.splitlines():
        if ":" in line:
            out += line.split(":", 1)[1].split()
    return [x for x in out if not x.startswith("/usr/")]


def compile_one(src, cfg, extra):
    """Compile src for cfg; content-hash cached. Returns (obj, error-or-None)."""
    key = hashlib.sha256((src + cfg + " ".join(extra)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "obj", cfg)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, os.path.basename(src).rsplit(".", 1)[0] + "-" + key)
    obj, dep, stamp = base + ".o", base + ".d", base + ".h"
    cmd = ["g++"] + COMMON + CONFIGS[cfg] + extra + INC + ["-c", src, "-o", obj + ".tmp", "-MMD", "-MF", dep]
    if os.path.exists(obj) and os.path.exists(stamp):
        deps = parse_deps(dep)
        if deps is not None:
            h = hashlib.sha256((" ".join(cmd) + "".join(x + file_hash(x) for x in sorted(set(deps)))).encode()).hexdigest()
            if open(stamp).read() == h:
                return obj, None
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return obj, r.stderr
    os.replace(obj + ".tmp", obj)
    deps = parse_deps(dep) or []
    h = hashlib.sha256((" ".join(cmd) + "".join(x + file_hash(x) for x in sorted(set(deps)))).encode()).hexdigest()
    with open(stamp, "w") as f:
        f.write(h)
    return obj, None


def lib_sources(module, fits):
    root = os.path.join(REPO, module, "src")
    out = []
    for dp, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".cpp") and (fits or "fits" not in f.lower()) and "/program" not in dp:
                out.append(os.path.join(dp, f))
    return out


def build(harness, cfg, spec):
    """Build harness binary. The libraries are the modules the harness needs, from /repo's working tree."""
    jobs = []
    srcs = [os.path.join(VERIF, "harness", s) for s in spec["sources"]]
    # the FITS classes are built, over the stand-in for CCfits, where they are judged
    fits = spec.get("fits", False)
    if "Table" in spec["modules"] and not fits:
        srcs.append(os.path.join(VERIF, "harness", "fits_stub.cpp"))
    for s in srcs:
        jobs.append((s, cfg, spec.get("cflags", [])))
    # biggest first
    libs = [s for m in spec["modules"] for s in lib_sources(m, fits)]
    for s in libs:
        jobs.append((s, cfg, ["-I" + os.path.dirname(s)]))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    for (s, _, _), (o, err) in zip(jobs, res):
        if err is not None:
            raise HarnessError("compilation of %s failed:\n%s" % (s, err[-6000:]))
    objs = [o for o, _ in res]
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    out = os.path.join(bindir, harness + "-" + cfg)
    stamp = out + ".h"
    ld = spec.get("ldflags", [])
    h = hashlib.sha256((" ".join(objs + ld) + "".join(hashlib.sha256(open(o, "rb").read()).hexdigest() for o in objs)).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    nh = len(srcs)
    arch = out + ".a"
    if os.path.exists(arch):
        os.remove(arch)
    if objs[nh:]:
        subprocess.run(["ar", "rcs", arch] + objs[nh:], check=True)
    # whole-archive: static registration and virtual tables of the library behave as in the shared library
    cmd = ["g++"] + CONFIGS[cfg] + ["-pthread", "-o", out + ".tmp"] + objs[:nh] + \
        ([arch] if objs[nh:] else []) + ld + LIBS
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise HarnessError("link of %s failed:\n%s" % (harness, r.stderr[-6000:]))
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(h)
    return out


# ------------------------------------------------------------------------------------------------ run
def run_env(seed):
    e = dict(os.environ)
    e.update(ENV)
    e["VERIF_SEED"] = str(seed)
    return e


def clean_frame(fn):
    fn = re.sub(r"<.*", "", fn)
    fn = re.sub(r"\(.*", "", fn)
    fn = re.sub(r"\[abi:[^]]*\]", "", fn)
    return fn.strip()


def crash_key(err, rc):
    """A stable key for an abnormal end: kind of report + innermost function defined under /repo."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", err)
    if m2 and not m:
        t = re.sub(r"0x[0-9a-f]+", "P", m2.group(1))
        t = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", t)
        kind = "ubsan-" + re.sub(r"[^A-Za-z]+", "_", t)[:60].strip("_")
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m3:
        kind = "tsan-" + m3.group(1).replace(" ", "-")
    if kind is None:
        if "Assertion" in err:
            kind = "assert"
        elif "terminate called" in err:
            kind = "terminate"
        elif rc < 0:
            kind = "signal-%d" % -rc
        else:
            kind = "exit-%d" % rc
    frame = "unknown"
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?)(?::\d+)?(?::\d+)?(?: |$|\n)", err):
        if m.group(2).startswith(REPO + "/"):
            frame = clean_frame(m.group(1)) + "@" + os.path.basename(m.group(2))
            break
    return "crash:%s:%s" % (kind, frame)


class Shard:
    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        self.start = 0
        self.outs = []
        self.violations = []
        self.crashes = 0
        self.inconclusive = []
        self.stopped = False

    def cmd(self, out, extra):
        c = self.ctx
        return c["prefix"] + [c["binary"], "--seed", str(c["seed"]), "--cases", str(c["cases"]), "--tier", c["tier"],
                              "--out", out, "--scratch", c["scratch"]] + extra

    def run_once(self, out, extra, stall):
        """Returns (rc, stderr, stdout, last_case, hung)."""
        for f in (out + ".json", out + ".progress"):
            if os.path.exists(f):
                os.remove(f)
        errp = out + ".err"
        outp = out + ".out"
        with open(errp, "wb") as ef, open(outp, "wb") as of:
            p = subprocess.Popen(self.cmd(out, extra), stdout=of, stderr=ef, stdin=subprocess.DEVNULL,
                                 env=run_env(self.ctx["seed"]), cwd=self.ctx["scratch"], start_new_session=True)
            last, t0, hung = None, time.time(), False
            while True:
                try:
                    rc = p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = open(out + ".progress").read()
                except OSError:
                    cur = None
                if cur != last:
                    last, t0 = cur, time.time()
                big = os.path.getsize(errp) + os.path.getsize(outp) > 300 * 1024 * 1024
                if self.ctx["bad_since"] is None and self.fresh_in(outp):
                    self.ctx["bad_since"] = time.time()
                if self.ctx["bad_since"] is not None and time.time() - self.ctx["bad_since"] > GRACE:
                    # the property is already known to be violated: what is left is not worth waiting for
                    self.stopped = True
                    os.killpg(p.pid, signal.SIGKILL)
                    rc = p.wait()
                    break
                if time.time() - t0 > stall or big:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    rc = p.wait()
                    break
        try:
            case = int(open(out + ".progress").read().split()[0])
        except (OSError, ValueError, IndexError):
            case = None
        err = open(errp, errors="replace").read(200000)
        so = open(outp, errors="replace").read(2000000)
        return rc, err, so, case, hung

    def fresh_in(self, outp):
        if os.path.getsize(outp) == 0:
            return False
        with open(outp, errors="replace") as f:
            for line in f.read(200000).splitlines():
                if line.startswith("VP-VIOLATION\t") and line.split("\t")[1] not in self.ctx["known"]:
                    return True
        return False

    def collect(self, so):
        for line in so.splitlines():
            if line.startswith("VP-VIOLATION\t"):
                _, key, case, msg = (line.split("\t", 3) + [""])[:4]
                self.violations.append({"key": key, "case": int(case), "msg": msg, "cfg": self.ctx["cfg"]})

    def run(self):
        c = self.ctx
        n = 0
        while True:
            out = os.path.join(c["outdir"], "s%d.%d" % (self.k, n))
            n += 1
            rc, err, so, case, hung = self.run_once(
                out, ["--shard", str(self.k), "--nshards", str(c["nshards"]), "--start", str(self.start)], c["stall"])
            self.collect(so)
            self.outs.append(out)
            if self.stopped:
                return
            if not hung and rc == 0 and os.path.exists(out + ".json"):
                return
            if rc == 3 or (case is None and not hung):
                raise HarnessError("harness could not run (rc=%s): %s" % (rc, err[-3000:]))
            if hung:
                rc2, err2, so2, _, hung2 = self.run_once(out + ".re", ["--case", str(case)], c["stall"] * 1.5)
                self.collect(so2)
                if self.stopped:
                    return
                if hung2:
                    self.violations.append({"key": "hang", "case": case, "cfg": c["cfg"],
                                            "msg": "case did not finish (twice; %ds and %ds without progress)" % (c["stall"], c["stall"] * 1.5)})
                elif rc2 != 0:
                    self.violations.append({"key": crash_key(err2, rc2), "case": case, "cfg": c["cfg"], "msg": digest(err2)})
                else:
                    self.inconclusive.append(case)
                    log("note: case %s stalled once and finished when re-run" % case)
            else:
                self.violations.append({"key": crash_key(err, rc), "case": case, "cfg": c["cfg"], "msg": digest(err)})
            self.crashes += 1
            if c["bad_since"] is None and any(v["key"] not in c["known"] for v in self.violations):
                c["bad_since"] = time.time()
            self.start = case + 1
            if self.crashes >= 6 or (hung and hung2):
                return


def digest(err):
    lines = [l for l in err.splitlines() if re.search(r"ERROR|WARNING|runtime error|Assertion|terminate|what\(\)|#\d+ .*" + re.escape(REPO), l)]
    return " | ".join(x.strip() for x in lines[:8])[:1500] or err[-800:].replace("\n", " ")


def tsan_prefix(binary):
    """Address-space randomisation can defeat the thread sanitizer; find a way of running it."""
    for pre in ([], ["setarch", "-R"], ["setarch", os.uname().machine, "-R"]):
        ok = True
        for _ in range(3):
            try:
                r = subprocess.run(pre + [binary, "--cases", "0"], capture_output=True, text=True, env=run_env(1), timeout=60)
                if r.returncode != 0:
                    ok = False
                    break
            except (OSError, subprocess.TimeoutExpired):
                ok = False
                break
        if ok:
            return pre
    return None


def load_known():
    known, p = [], os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def write_replay(pid, v, seed, tier, i):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, i))
    with open(p, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, **v,
                   "how": "python3 tools/vp.py replay " + os.path.relpath(p, VERIF)}, f, indent=1)
    return p


def runs_of(spec):
    return spec["runs"]


def check(pid, tier, seed):
    t0 = time.time()
    spec = props.SPECS[pid]
    scratch_root = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    known_keys = {k for p, k, _ in load_known() if p == pid}
    violations, evals, counters, samples, distinct, inconclusive = [], 0, {}, [], set(), []
    per_run = []
    try:
        for run in runs_of(spec):
            if tier not in run.get("tiers", ("quick", "thorough")):
                continue
            hspec = props.HARNESSES[run["harness"]]
            tb = time.time()
            binary = build(run["harness"], run["cfg"], hspec)
            tb = time.time() - tb
            prefix = []
            if run["cfg"] == "tsan":
                prefix = tsan_prefix(binary)
                if prefix is None:
                    raise HarnessError("the thread sanitizer cannot run in this sandbox")
            if run.get("pre"):
                pass
            outdir = os.path.join(scratch_root, run["harness"] + "-" + run["cfg"])
            sd = os.path.join(scratch_root, "scratch-" + run["harness"] + "-" + run["cfg"])
            os.makedirs(outdir)
            os.makedirs(sd)
            ns = run.get("shards", NCPU)
            ctx = {"binary": binary, "prefix": prefix, "seed": seed, "tier": tier, "cfg": run["cfg"],
                   "cases": run[tier], "outdir": outdir, "scratch": sd, "nshards": ns,
                   "stall": run.get("stall", 40), "bad_since": None, "known": known_keys}
            shards = [Shard(ctx, k) for k in range(ns)]
            errs = []

            def go(s):
                try:
                    s.run()
                except HarnessError as e:
                    errs.append(e)
            ts = [threading.Thread(target=go, args=(s,)) for s in shards]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if errs:
                raise errs[0]
            n = 0
            for s in shards:
                for v in s.violations:
                    v["harness"] = run["harness"]
                    v["cases"] = run[tier]
                    violations.append(v)
                inconclusive += s.inconclusive
                for o in s.outs:
                    if os.path.exists(o + ".json"):
                        j = json.load(open(o + ".json"))
                        n += j["evaluations"]
                        for k, c in j["counters"].items():
                            counters[k] = counters.get(k, 0) + c
                        samples += [x for x in j["samples"] if x not in samples][:2]
                        raw = open(o + ".distinct", "rb").read()
                        distinct.update(raw[i:i + 8] for i in range(0, len(raw), 8))
            evals += n
            per_run.append({"harness": run["harness"], "config": run["cfg"], "build_s": round(tb, 1), "cases": n})
            if any(v["key"] not in known_keys for v in violations):
                break
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)

    known = [(k, w) for p, k, w in load_known() if p == pid]
    seen_known, fresh = {}, {}
    for v in violations:
        hit = next((x for x in known if x[0] == v["key"]), None)
        if hit:
            seen_known[hit[0]] = hit[1]
        else:
            fresh.setdefault(v["key"], v)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
                       "samples": samples[:8] or ["(no case finished)"], "observed": counters, "runs": per_run,
                       "inconclusive_cases": len(inconclusive),
                       "known_findings_seen": sorted(seen_known)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, w in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for i, (k, v) in enumerate(sorted(fresh.items())):
        rp = write_replay(pid, v, seed, tier, i)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  key=%s case=%s config=%s: %s" % (k, v["case"], v["cfg"], v["msg"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %d known, %.1fs" %
          (pid, tier, seed, evals, len(distinct), len(fresh), len(seen_known), wall))
    obs = {k: v for k, v in sorted(counters.items()) if not k.startswith("scenario.")}
    print("observed: " + ", ".join("%s=%d" % kv for kv in obs.items()))
    if fresh:
        return 1
    missing = [r for r in spec.get("require", []) if not counters.get(r)]
    if missing or evals == 0 or len(distinct) < 2:
        log("nothing was observed for: %s (evaluations %d)" % (missing, evals))
        return 4
    return 0


def replay(path):
    r = json.load(open(path))
    hspec = props.HARNESSES[r["harness"]]
    binary = build(r["harness"], r["cfg"], hspec)
    pre = tsan_prefix(binary) if r["cfg"] == "tsan" else []
    d = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        return subprocess.run((pre or []) + [binary, "--seed", str(r["seed"]), "--tier", r["tier"], "--case", str(r["case"]),
                                             "--cases", str(r["cases"]), "--scratch", d, "--verbose", "1"],
                              env=run_env(r["seed"]), cwd=d).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    opt = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith("--")}
    tier = opt.get("--tier", os.environ.get("VERIF_TIER") or "quick")
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED") or "1"))
    try:
        if a[0] == "check":
            return check(a[1], tier, seed)
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "setup":
            # the tool chain and the committed files are all that is needed: build one harness as a self test
            for h in props.SETUP_HARNESSES:
                build(h, "asan", props.HARNESSES[h])
            return 0
    except HarnessError as e:
        log("HARNESS ERROR: %s" % e)
        return 3
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
