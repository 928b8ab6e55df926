#!/usr/bin/env python3
"""Runs the monitors of one property: builds the library from the working tree, drives it, collects verdicts.

usage: run.py <property> [--thorough] [--seed N] [--repo DIR] [--keep] [--replay FILE]
Exit 0: held on everything observed. 1: violated, with a VIOLATION line. 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

ENVE = ["flat", "mesh", "rib", "shape", "shell", "triangleground"]
SAN = {
    "plain": ["-O1"],
    "toolbox": ["-O1"],
    "toolbox-asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "vg": ["-O1", "-g1"],
    "count": ["-O1", "-fsanitize-coverage=trace-pc"],
}
EIGEN = "/usr/include/eigen3"
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:second_deadlock_stack=1")


class CheckError(Exception):
    pass


class Builder:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.cache = os.environ.get("VERIF_DEV_CACHE")
        self.pool = cf.ThreadPoolExecutor(8)
        tb = os.path.join(repo, "toolbox", "src")
        self.inc = os.path.join(work, "inc")
        os.makedirs(self.inc)
        os.symlink(os.path.join(tb, "acme.hh"), os.path.join(self.inc, "acme.hh"))
        os.symlink(os.path.join(tb, "acme"), os.path.join(self.inc, "acme"))
        self.futures = {}
        self.hdr = None

    def headers_hash(self):
        if self.hdr is None:
            h = hashlib.sha256()
            for d in ("src", "toolbox/src", "toolbox/src_mex", "sfun/include_sfun"):
                for root, _, files in sorted(os.walk(os.path.join(self.repo, d))):
                    for f in sorted(files):
                        if f.endswith((".hh", ".hxx", ".h")):
                            h.update(open(os.path.join(root, f), "rb").read())
            for f in sorted(os.listdir(os.path.join(HERE, "mon"))):
                if f.endswith((".hh", ".h")):
                    h.update(open(os.path.join(HERE, "mon", f), "rb").read())
            self.hdr = h.hexdigest()
        return self.hdr

    def includes(self, flavour):
        tb = os.path.join(self.repo, "toolbox", "src")
        inc = ["-I" + tb, "-I" + os.path.join(self.repo, "toolbox", "src_mex")] if flavour.startswith("toolbox") else ["-I" + self.inc, "-I" + os.path.join(self.repo, "src")]
        return inc + ["-I" + os.path.join(self.repo, "sfun", "include_sfun"), "-I" + EIGEN, "-I" + os.path.join(HERE, "mon")]

    def compile(self, src, flavour, std, extra=()):
        out = os.path.join(self.work, "%s_%s.o" % (flavour, hashlib.md5((src + repr(extra)).encode()).hexdigest()[:12]))
        cmd = ["g++", "-std=" + std, "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_MAX_CPP_VER=11"] + SAN[flavour] + list(extra) + self.includes(flavour) + ["-c", src, "-o", out]
        key = None
        if self.cache:
            h = hashlib.sha256(self.headers_hash().encode())
            h.update(open(src, "rb").read())
            h.update(repr([2, std, SAN[flavour], list(extra), flavour.startswith("toolbox")]).encode())
            key = os.path.join(self.cache, h.hexdigest() + ".o")
            if os.path.exists(key):
                return key
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("cannot compile %s:\n%s" % (src, p.stdout[-3000:]))
        if key:
            shutil.copy(out, key + ".tmp%d" % os.getpid())
            os.replace(key + ".tmp%d" % os.getpid(), key)
        return out

    def submit(self, *a, **k):
        key = repr((a, k))
        if key not in self.futures:
            self.futures[key] = self.pool.submit(self.compile, *a, **k)
        return self.futures[key]

    def library(self, flavour):
        tb = os.path.join(self.repo, "toolbox", "src")
        src = []
        for f in sorted(os.listdir(tb)):
            if f.endswith(".cc") and (flavour.startswith("toolbox") or f[:-3] not in ENVE):
                src.append(os.path.join(tb, f))
        if not flavour.startswith("toolbox"):
            d = os.path.join(self.repo, "src")
            src += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc")]
        # the big files first
        src.sort(key=lambda s: -os.path.getsize(s))
        return [self.submit(s, flavour, "c++11") for s in src]

    def driver(self, job):
        fl = job["flavour"]
        objs = [self.submit(os.path.join(HERE, "mon", job["driver"] + ".cc"), fl, "c++17", tuple(job.get("cflags", ())))]
        for s in job.get("sources", ()):
            s, flags = s if isinstance(s, tuple) else (s, ())
            objs.append(self.submit(os.path.join(self.repo, s), fl, "c++11", tuple(flags)))
        return objs

    def link(self, name, flavour, objs):
        out = os.path.join(self.work, name)
        cmd = ["g++"] + SAN[flavour] + objs + ["-o", out, "-lpthread", "-ldl"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("cannot link %s:\n%s" % (name, p.stdout[-3000:]))
        return out


def summary_of(stderr):
    """A short, stable name of a sanitizer report or abort."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)(?: \S*?([\w.]+):\d+)?(?:.* in (\S+))?", stderr)
    if m:
        return "-".join(x for x in (m.group(1), m.group(2), m.group(3), m.group(4)) if x)
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.{0,80})", stderr)
    if m:
        return "UBSan-%s-%s" % (os.path.basename(m.group(1)), re.sub(r"\W+", "-", m.group(2))[:60])
    m = re.search(r"Assertion [`'](.{0,80})", stderr)
    if m:
        return "assertion-" + re.sub(r"\W+", "-", m.group(1))[:60]
    m = re.search(r"terminate called.*\n.*what\(\): *(.{0,80})", stderr)
    if m:
        return "terminate-" + re.sub(r"\W+", "-", m.group(1))[:60]
    m = re.search(r"== (Invalid (?:read|write)|Conditional jump|Use of uninit|Syscall param)", stderr)
    if m:
        return "valgrind-" + m.group(1).replace(" ", "-")
    return ""


def limits(flavour):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavour in ("plain", "toolbox", "count"):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    return f


def run_shard(exe, job, shard, shards, args, work, timeout, only=None, tag=""):
    out = os.path.join(work, "out_%s_%s_%s_%d%s.jsonl" % (job["driver"], job["flavour"], job.get("tag", ""), shard, tag))
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, "--seed", str(args.seed), "--out", out, "--shard", "%d/%d" % (shard, shards), "--scratch", scratch,
           "--repo", args.repo, "--scale", repr(float(job.get("scale_thorough" if args.thorough else "scale", job.get("scale", 1.0))))]
    if args.thorough:
        cmd.append("--thorough")
    if job.get("families"):
        cmd += ["--families", ",".join(job["families"])]
    if only:
        cmd += ["--family", only[0], "--case", str(only[1]), "--verbose"]
    if job["flavour"] == "vg":
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no", "--max-stackframe=8000000", "--fair-sched=no"] + cmd
    err = open(out + ".err", "w+b")
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL if not only else None, stderr=err, cwd=scratch, env=ENV, preexec_fn=limits(job["flavour"]))
    timed_out = False
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err.seek(0)
    stderr = err.read().decode("utf8", "replace")
    err.close()
    res = {"job": job, "shard": shard, "rc": p.returncode, "timeout": timed_out, "stderr": stderr, "wall": time.time() - t0, "violations": [], "summary": None,
           "progress": ""}
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("t") == "violation":
                res["violations"].append(j)
            elif j.get("t") == "summary":
                res["summary"] = j
    if os.path.exists(out + ".progress"):
        res["progress"] = open(out + ".progress").readline().strip()
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true", default=os.environ.get("VERIF_TIER") == "thorough")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    pid = args.property
    if pid not in CHECKS:
        print("unknown property", pid, file=sys.stderr)
        return 2
    chk = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return run(pid, chk, args, work, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), file=sys.stderr)
        return 2
    finally:
        if args.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, chk, args, work, t0):
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = {k["id"]: k for k in known["findings"]}
    jobs = [dict(j) for j in chk["jobs"] if not (j.get("thorough_only") and not args.thorough)]
    for j in jobs:
        for k in ("scale", "scale_thorough"):
            if k in j or k == "scale":
                j[k] = j.get(k, 1.0) * args.scale
    replay = None
    if args.replay:
        replay = json.load(open(args.replay))
        jobs = [j for j in jobs if j["driver"] == replay["driver"] and j["flavour"] == replay["flavour"] and j.get("tag", "") == replay.get("tag", "")]
        args.seed, args.thorough = replay["seed"], replay["tier"] == "thorough"
    b = Builder(args.repo, work)
    drv = [b.driver(j) for j in jobs]
    libs = {f: b.library(f) for f in sorted({j["flavour"] for j in jobs})}
    exes = {}
    for j, d in zip(jobs, drv):
        key = repr((j["driver"], j["flavour"], j.get("cflags"), j.get("sources")))
        if key not in exes:
            exes[key] = b.link("exe%d" % len(exes), j["flavour"], [f.result() for f in d] + [f.result() for f in libs[j["flavour"]]])
        j["exe"] = exes[key]
    t_build = time.time() - t0

    if replay:
        r = run_shard(jobs[0]["exe"], jobs[0], 0, 1, args, work, 600, only=(replay["family"], replay["case"]))
        sys.stderr.write(r["stderr"][-6000:] + "\n")
        bad = bool(r["violations"]) or r["rc"] != 0
        print("replay:", "violated" if bad else "held")
        return 1 if bad else 0

    tmo = 1500 if args.thorough else 240
    tasks = []
    for j in jobs:
        n = j.get("shards", 8)
        tasks += [(j, s, n) for s in range(n)]
    tasks.sort(key=lambda t: -t[0].get("weight", 1))
    with cf.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda t: run_shard(t[0]["exe"], t[0], t[1], t[2], args, work, tmo), tasks))
    for k, r in enumerate(results):  # a run that did not end in time is repeated once, alone
        if r["timeout"] and time.time() - t0 < (6000 if args.thorough else 500):
            t = tasks[k]
            results[k] = run_shard(t[0]["exe"], t[0], t[1], t[2], args, work, tmo, tag="_again")
            results[k]["again"] = True

    viol, errors = [], []
    for r in results:
        base = {"driver": r["job"]["driver"], "flavour": r["job"]["flavour"], "tag": r["job"].get("tag", ""), "shard": r["shard"]}
        for v in r["violations"]:
            if r["job"].get("only_kinds") and not v["kind"].startswith(r["job"]["only_kinds"]):
                continue  # judged by another property's check
            viol.append(dict(base, kind=v["kind"], family=v["family"], case=v["case"], known=v["known"], msg=v["msg"], input=v["input"]))
        fam, case = (r["progress"].split() + ["", "-1"])[:2]
        if r["timeout"]:
            if r.get("again"):
                viol.append(dict(base, kind="hang", family=fam, case=int(case), known="", msg="no end within %d s, twice" % tmo, input=""))
            else:
                errors.append("timed out: %s shard %d at %s" % (r["job"]["driver"], r["shard"], r["progress"]))
        elif r["rc"] == 3 or r["rc"] in (126, 127):
            errors.append("harness error in %s: %s" % (r["job"]["driver"], r["stderr"][-500:]))
        elif r["rc"] != 0:
            name = summary_of(r["stderr"]) or ("signal-%d" % -r["rc"] if r["rc"] < 0 else "exit-%d" % r["rc"])
            viol.append(dict(base, kind="crash:" + name, family=fam, case=int(case), known="", msg=r["stderr"][-2500:], input="last case started: " + r["progress"]))
        elif r["summary"] is None:
            errors.append("no summary from %s shard %d" % (r["job"]["driver"], r["shard"]))

    # coverage
    ev, distinct, count, mx, samples, fams = 0, set(), {}, {}, [], {}
    for r in results:
        s = r["summary"]
        if not s:
            continue
        pre = "" if len({(j["driver"], j["flavour"]) for j in jobs}) == 1 else "%s/%s " % (r["job"]["driver"], r["job"]["flavour"])
        ev += s["evaluations"]
        distinct.update((r["job"]["driver"], h) for h in s["distinct"])
        for k, v in s["count"].items():
            (fams if k.startswith("cases:") else count)[pre + k] = (fams if k.startswith("cases:") else count).get(pre + k, 0) + v
        for k, v in s["max"].items():
            mx[pre + k] = max(mx.get(pre + k, 0), v)
        samples += [x[:1500] for x in s["samples"]]
    wall = time.time() - t0

    new = [v for v in viol if not (v["known"] and v["known"] in listed and listed[v["known"]]["property"] == pid)]
    old = sorted({v["known"] for v in viol} & {k for k, v in listed.items() if v["property"] == pid})
    for k in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))

    tier = "thorough" if args.thorough else "quick"
    if not new:
        if errors:
            raise CheckError("; ".join(errors))
        for k, n in chk.get("floors", {}).items():
            got = sum(v for c, v in count.items() if c.split(" ")[-1] == k or c == k)
            if got < n * args.scale:
                raise CheckError("observed too little: %s = %d, at least %d wanted" % (k, got, n))
        if ev < 1 or len(distinct) < 2:
            raise CheckError("observed nothing")
    evidence = {
        "property": pid, "tier": tier, "seed": args.seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(distinct), "rule": chk["rule"], "samples": samples[:6],
                     "observed": dict(sorted(count.items())), "cases": dict(sorted(fams.items())), "peaks": dict(sorted(mx.items())),
                     "runs": len(results), "builds": sorted({j["flavour"] for j in jobs}), "build_s": round(t_build, 1)},
        "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        kinds = {}
        for v in new:
            kinds.setdefault(v["kind"], []).append(v)
        for n, (kind, vs) in enumerate(sorted(kinds.items())):
            if n >= 10:
                break
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (pid, tier, n))
            with open(path, "w") as f:
                json.dump(dict(vs[0], property=pid, seed=args.seed, tier=tier, others=len(vs) - 1,
                               how="python3 %s %s --replay %s" % (os.path.join(HERE, "run.py"), pid, path)), f, indent=1)
            print("  %s (%d times) %s#%s: %s" % (kind, len(vs), vs[0]["family"], vs[0]["case"], vs[0]["msg"][:400]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("property=%s held: %d evaluations, %d distinct non-trivial, %d runs, %.1f s (build %.1f s)" % (pid, ev, len(distinct), len(results), wall, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main())
