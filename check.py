#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py PROP [--tier quick|thorough]     decide one property
  check.py --setup                          build everything
  check.py --replay FILE                    re-run the case of a replay file, verbosely
  check.py --list
Exit: 0 held on everything explored, 1 violation, 3 no verdict (build failure, too little observed).
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, time, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from checks_cfg import CHECKS, LEVEL_NOTES  # noqa: E402
NPROC = max(1, min(8, os.cpu_count() or 1))
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1"
ENV["LC_ALL"] = "C"


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---- building ---------------------------------------------------------------------------------
def hashes():
    h = {}
    for root in (os.path.join(REPO, "src"), os.path.join(V, "harness")):
        for d, dirs, fs in os.walk(root):
            dirs[:] = [x for x in dirs if x not in ("__pycache__", "_build", ".git")]
            for f in fs:
                p = os.path.join(d, f)
                try:
                    h[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
                except OSError:
                    pass
    return h


def guard(bdir):
    """A build directory is reused only if the build tool is certain to notice every changed file."""
    st = os.path.join(bdir, "verif-stamp.json")
    now = hashes()
    if os.path.isdir(bdir):
        try:
            old = json.load(open(st))
        except Exception:
            old = None
        wipe = old is None
        if old is not None:
            t = old["time"]
            for p, h in now.items():
                if old["files"].get(p) != h and os.path.getmtime(p) <= t + 2:
                    wipe = True
            if set(old["files"]) - set(now):
                wipe = True
        if wipe:
            shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    return now


def build(targets):
    """targets: set of (san, target)"""
    for san in sorted({s for s, _ in targets}):
        bdir = os.path.join(B, san)
        t0 = time.time()
        now = guard(bdir)
        log = os.path.join(bdir, "build.log")
        with open(log, "w") as f:
            r = 0
            if not os.path.exists(os.path.join(bdir, "build.ninja")):
                r = subprocess.call(["cmake", "-G", "Ninja", "-S", os.path.join(V, "harness"), "-B", bdir,
                                     "-DMON=" + san, "-DREPO=" + REPO, "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc"], stdout=f, stderr=f, env=ENV)
            if r == 0:
                r = subprocess.call(["ninja", "-C", bdir] + sorted(t for s, t in targets if s == san), stdout=f, stderr=f, env=ENV)
        if r != 0:
            say(open(log).read()[-3000:])
            try:
                os.unlink(os.path.join(bdir, "verif-stamp.json"))
            except OSError:
                pass
            raise NoVerdict("the monitors do not build against the current tree, see " + log)
        json.dump({"time": t0, "files": now}, open(os.path.join(bdir, "verif-stamp.json"), "w"))


# ---- running ----------------------------------------------------------------------------------
def bdir_of(item):
    return "plain" if item.get("san") == "vg" else item.get("san", "asan")


def command(item, args):
    if item.get("py"):
        return ["python3", os.path.join(V, "harness", item["py"]), "--bindir", os.path.join(B, item.get("san", "asan"))] + args
    cmd = [os.path.join(B, bdir_of(item), item["bin"])] + args
    if item.get("san") == "vg":  # uninitialised memory, which the compiled-in sanitizers do not see
        cmd = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes"] + cmd
    return cmd


CRASH = re.compile(r"(Conditional jump or move depends on uninit\w+|Use of uninit\w+ value|uninit\w+ byte|Invalid (?:read|write) of size \d+|ERROR: AddressSanitizer: [\w-]+|runtime error: .{0,90}|WARNING: ThreadSanitizer: [\w -]+|Assertion .{0,90} failed|terminate called.{0,90}|what\(\):.{0,90}|SUMMARY: .{0,120})")


def crash_key(err, rc):
    m = CRASH.search(err)
    s = m.group(1) if m else "exit status %s" % rc
    s = re.sub(r"0x[0-9a-f]+|\d+", "N", s)
    return "crash:" + s


def one_shot(item, seed, index, hang):
    cur = os.path.join(B, "work", "one.%d.%d" % (os.getpid(), index))
    out = cur + ".json"
    cmd = command(item, ["--mode", item["mode"], "--seed", str(seed), "--from", str(index), "--to", str(index + 1), "--hang", str(hang), "--cur", cur, "--out", out])
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=hang + 60, errors="replace", cwd=os.path.join(B, "work"))
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, err = 97, ""
    res = None
    if rc == 0 and os.path.exists(out):
        res = json.load(open(out))
    for f in (cur, out, out + ".bin"):
        if os.path.exists(f):
            os.unlink(f)
    return rc, err, res


def shard(prop, item, seed, s, n, stride, hang, budget, known):
    """one shard of a mode, resumed after known crashes"""
    tag = "%s.%s.%d" % (prop, item["mode"], s)
    cur = os.path.join(B, "work", tag + ".cur")
    out = os.path.join(B, "work", tag + ".json")
    R = {"evaluations": 0, "cases": 0, "discards": 0, "counters": {}, "samples": [], "violations": [], "distinct": set(), "inconclusive": [], "cut": False}
    start = s
    t0 = time.time()
    while start < n:
        for f in (cur, out, out + ".bin"):
            if os.path.exists(f):
                os.unlink(f)
        left = budget - (time.time() - t0)
        if left <= 1:
            R["cut"] = True
            break
        cmd = command(item, ["--mode", item["mode"], "--seed", str(seed), "--from", str(start), "--to", str(n), "--stride", str(stride),
                             "--hang", str(hang), "--budget", str(left), "--cur", cur, "--out", out])
        with open(os.path.join(B, "work", tag + ".err"), "w") as ef:
            try:
                rc = subprocess.call(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=ef, timeout=budget + hang + 60, cwd=os.path.join(B, "work"))
            except subprocess.TimeoutExpired:
                rc = 97
        err = open(ef.name, errors="replace").read()
        if rc == 0 and os.path.exists(out):
            d = json.load(open(out))
            for k in ("evaluations", "cases", "discards"):
                R[k] += d[k]
            for k, v in d["counters"].items():
                R["counters"][k] = R["counters"].get(k, 0) + v
            R["samples"] += d["samples"]
            R["cut"] = R["cut"] or d["cut"]
            if os.path.exists(out + ".bin"):
                raw = open(out + ".bin", "rb").read()
                R["distinct"].update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
            for v in d["violations"]:
                R["violations"].append(v)
            if any(not is_known(known, prop, v) for v in d["violations"]):
                break
            if not d["violations"] or d["cut"]:
                break
            start = d["at"] + stride   # only known findings so far: go on
            continue
        # the worker died: which case?
        if rc == 2:
            raise NoVerdict("worker usage error: " + err[-500:])
        m = re.match(r"(\w+)\s+(\S+)\s+(\d+)", open(cur).read()) if os.path.exists(cur) else None
        if not m or m.group(1) == "DONE":
            raise NoVerdict("worker died outside a case (%s, status %s): %s" % (item["mode"], rc, err[-1500:]))
        idx = int(m.group(3))
        R["cases"] += (idx - start) // stride + 1
        R["evaluations"] += (idx - start) // stride  # the cases before it completed
        hung = rc == 97
        # confirm on its own
        conf = None
        for _ in range(2 if not hung else 1):
            rc2, err2, res2 = one_shot(item, seed, idx, hang)
            if rc2 != 0:
                conf = (rc2, err2)
                break
            if res2 and res2["violations"]:
                R["violations"] += res2["violations"]
                conf = "v"
                break
        if conf == "v":
            v = R["violations"][-1]
        elif conf is not None:
            rc2, err2 = conf
            key = "hang" if rc2 == 97 else crash_key(err2, rc2)
            v = {"index": idx, "mode": item["mode"], "key": key, "msg": "the run hangs" if rc2 == 97 else "the run dies: " + key[6:], "detail": err2[-6000:]}
            R["violations"].append(v)
        elif not hung and item.get("san") == "tsan" and "ThreadSanitizer" in err:
            # a race report is evidence in itself, even if the schedule does not recur
            v = {"index": idx, "mode": item["mode"], "key": crash_key(err, rc), "msg": "data race reported", "detail": err[-6000:]}
            R["violations"].append(v)
        elif not hung and item.get("threads") and ("AddressSanitizer" in err or "runtime error" in err):
            v = {"index": idx, "mode": item["mode"], "key": crash_key(err, rc), "msg": "sanitizer report (schedule dependent)", "detail": err[-6000:]}
            R["violations"].append(v)
        else:
            R["inconclusive"].append("%s case %d: %s not reproduced" % (item["mode"], idx, "hang" if hung else "death (status %s)" % rc))
            v = None
        if v is not None and not is_known(known, prop, v):
            break
        start = idx + stride
    return R


def load_known():
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def is_known(known, prop, v):
    for k in known:
        if k["property"] == prop and (k.get("mode") in (None, v["mode"])) and re.fullmatch(k["key"], v["key"], re.S) and ("match" not in k or re.search(k["match"], v["msg"] + "\n" + v["detail"], re.S)):
            return k
    return None


def run(prop, tier, seed):
    t0 = time.time()
    cfg = CHECKS[prop]
    known = [k for k in load_known() if k.get("status") == "open"]
    os.makedirs(os.path.join(B, "work"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    targets = set()
    for it in cfg["items"]:
        if not it[tier]:
            continue
        for t in it.get("targets", [it["bin"]] if it.get("bin") else []):
            targets.add((bdir_of(it), t))
    build(targets)
    tb = time.time()
    total = {"evaluations": 0, "cases": 0, "discards": 0, "counters": {}, "samples": [], "inconclusive": []}
    distinct = set()
    viols, knownhit, cut = [], {}, False
    per_mode = {}
    for it in cfg["items"]:
        n = it[tier]
        if not n:
            continue
        hang = it.get("hang", 150 if it.get("san") == "vg" else 40)
        budget = it.get("budget", 150) if tier == "quick" else it.get("tbudget", 1500)
        ns = min(it.get("shards", NPROC), n)
        with cf.ThreadPoolExecutor(ns) as ex:
            rs = list(ex.map(lambda s: shard(prop, it, seed, s, n, ns, hang, budget, known), range(ns)))
        dm = set()
        ev = 0
        for r in rs:
            for k in ("evaluations", "cases", "discards"):
                total[k] += r[k]
            ev += r["evaluations"]
            for k, v in r["counters"].items():
                key = it["mode"] + "." + k
                total["counters"][key] = total["counters"].get(key, 0) + v
            if r["samples"]:
                total["samples"].append("[%s] %s" % (it["mode"], r["samples"][0][:1500]))
            total["inconclusive"] += r["inconclusive"]
            cut = cut or r["cut"]
            dm |= r["distinct"]
            for v in r["violations"]:
                v["item"] = it
                k = is_known(known, prop, v)
                if k:
                    knownhit[k["id"]] = (k, v)
                else:
                    viols.append(v)
        distinct |= {(it["mode"], x) for x in dm}
        per_mode[it["mode"] + {"asan": "", "vg": "/memcheck"}.get(it.get("san", "asan"), "/" + it.get("san", "asan"))] = {"evaluations": ev, "distinct": len(dm)}
        if viols:
            break
        if ev < n * it.get("min", 0.05):
            raise NoVerdict("mode %s observed only %d of %d cases" % (it["mode"], ev, n))
    # one sample per mode is enough
    seen, samples = set(), []
    for s in total["samples"]:
        m = s.split("]")[0]
        if m not in seen:
            seen.add(m)
            samples.append(s)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": len(distinct), "rule": cfg["rule"], "samples": samples[:8] or ["(no sample: stopped at a violation)"],
                       "cases": total["cases"], "discarded_cases": total["discards"], "per_mode": per_mode, "observed": total["counters"],
                       "inconclusive": total["inconclusive"], "cut_by_time_guard": cut, "exhaustive": False},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(tb - t0, 2), "violations": len(viols),
          "known_findings": sorted(knownhit)}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    say("%s %s seed=%d: %d evaluations, %d distinct, %d discarded, build %.0fs total %.0fs" % (prop, tier, seed, total["evaluations"], len(distinct), total["discards"], tb - t0, time.time() - t0))
    for x in total["inconclusive"]:
        say("inconclusive:", x)
    for k in known:
        # a listed finding is announced whether or not this seed met it again
        if k["property"] == prop:
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        rd = os.path.join(B, "replay")
        os.makedirs(rd, exist_ok=True)
        for n_, v in enumerate(viols[:5]):
            path = os.path.join(rd, "%s-%s-%d-%d.json" % (prop, v["mode"], seed, v["index"]))
            json.dump({"property": prop, "item": v["item"], "seed": seed, "index": v["index"], "mode": v["mode"], "key": v["key"], "msg": v["msg"], "detail": v["detail"]}, open(path, "w"), indent=1)
            say("--- %s case %d [%s] %s" % (v["mode"], v["index"], v["key"], v["msg"]))
            say(v["detail"][:2500])
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--list":
        for p in CHECKS:
            say(p, [i["mode"] for i in CHECKS[p]["items"]])
        return 0
    try:
        if a and a[0] == "--setup":
            build({(bdir_of(it), t) for c in CHECKS.values() for it in c["items"] if it["quick"] for t in it.get("targets", [it["bin"]] if it.get("bin") else [])})
            return 0
        if a and a[0] == "--replay":
            d = json.load(open(a[1]))
            it = d["item"]
            build({(bdir_of(it), t) for t in it.get("targets", [it["bin"]] if it.get("bin") else [])})
            os.makedirs(os.path.join(B, "work"), exist_ok=True)
            return subprocess.call(command(it, ["--mode", d["mode"], "--seed", str(d["seed"]), "--from", str(d["index"]), "--to", str(d["index"] + 1), "--verbose", "1"]), env=ENV, cwd=os.path.join(B, "work"))
        prop = a[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return run(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    except NoVerdict as e:
        say("NO VERDICT:", e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
