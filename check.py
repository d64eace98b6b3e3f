#!/usr/bin/env python3
"""check.py ID [--replay FILE]: build the harnesses of a property from /repo/src, run them, decide. See DESIGN.md."""
import sys, os, json, time, subprocess, struct, re, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import checks

NCPU = max(1, min(8, os.cpu_count() or 1))
CASE_LIMIT_S = 700          # wall limit of one shard: inconclusive, never a verdict

class Infra(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_build(b, bdir):
    """b: dict name, srcs, cxx, flags, link, objs; returns (binary or None, log)"""
    out = os.path.join(bdir, b["name"])
    objs, log, procs = [], "", []
    for i, s in enumerate(b["srcs"]):
        if isinstance(s, tuple): src, extra = s
        else: src, extra = s, None
        o = f"{out}.{i}.o"
        flags = b["flags"] if extra is None else extra
        cmd = [b.get("cxx", "g++")] + flags + ["-c", src, "-o", o]
        objs.append((cmd, o))
    return out, objs

def build_all(builds, bdir):
    jobs = []
    for b in builds:
        out, objs = compile_build(b, bdir)
        b["_out"], b["_objs"] = out, [o for _, o in objs]
        jobs += [(b, c) for c, _ in objs]
    failed = {}
    # the optional builds must not turn into an alarm, so failures are kept per build
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (b, c), r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
            if r.returncode != 0:
                failed.setdefault(b["name"], " ".join(c) + "\n" + r.stdout[-6000:])
        def link(b):
            if b["name"] in failed: return None
            return sh([b.get("cxx", "g++")] + b["_objs"] + ["-o", b["_out"]] + b.get("link", []))
        for b, r in zip(builds, ex.map(link, builds)):
            if r is not None and r.returncode != 0:
                failed[b["name"]] = r.stdout[-6000:]
    return failed

SAN = re.compile(r"(AddressSanitizer|MemorySanitizer|LeakSanitizer|UndefinedBehaviorSanitizer|runtime error|ThreadSanitizer)")

def classify(rc, err):
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)[^\n]*", err)
    if m: return f"sanitizer:{m.group(1)}:{m.group(2)}"
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m: return "sanitizer:UBSan:" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1).lower()))[:60].strip("-")
    if "Assertion" in err: return "crash:assertion"
    if rc < 0: return f"crash:signal{-rc}"
    return f"crash:exit{rc}"

def run_one(argv, env, hangs_ok=False):
    p = argv["progress"]
    try:
        r = subprocess.run(argv["cmd"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=CASE_LIMIT_S,
                           env=env, cwd=argv["cwd"])
    except subprocess.TimeoutExpired:
        return dict(kind="timeout")
    out = r.stdout.decode("utf-8", "replace"); err = r.stderr.decode("utf-8", "replace")
    res = dict(kind="ok", viol=[], cov={}, samples=[], end=False, rc=r.returncode, err=err[-8000:], digests=[])
    for line in out.split("\n"):
        f = line.split("\t")
        if f[0] == "COV" and len(f) == 3: res["cov"][f[1]] = res["cov"].get(f[1], 0) + int(f[2])
        elif f[0] == "SAMPLE": res["samples"].append(f[1])
        elif f[0] == "VIOL" and len(f) >= 4: res["viol"].append((f[1], int(f[2]), f[3]))
        elif f[0] == "DIGEST": res["digests"].append(tuple(f[1:]))
        elif f[0] == "HANG": res["kind"] = "hang"; res["case"] = int(f[1])
        elif f[0] == "END": res["end"] = True
    if res["kind"] == "hang": return res
    if r.returncode in (0, 1) and res["end"]: return res
    case = 0
    try:
        with open(p, "rb") as fh: case = struct.unpack("<Q", fh.read(8))[0]
    except Exception: pass
    res["kind"] = "crash"; res["case"] = case
    res["key"] = classify(r.returncode, err)
    return res

ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:handle_segv=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1",
}

def load_known(pid):
    known = []
    path = os.path.join(V, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3)))
    return known

def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    keep = "--keep" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    rp = None
    if replay:
        rp = json.load(open(replay)); seed, tier = rp["seed"], rp["tier"]
    bdir = os.path.join(V, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    try:
        rc = decide(pid, seed, tier, bdir, t0, rp)
    except Infra as e:
        print(f"ERROR property={pid}: {e}"); rc = 2
    finally:
        if not keep: shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def decide(pid, seed, tier, bdir, t0, rp):
    spec = checks.get(pid, dict(repo=REPO, src=os.path.join(REPO, "src"), v=V, bdir=bdir, seed=seed, tier=tier, ncpu=NCPU))
    builds, runs = spec["builds"], spec["runs"]
    failed = build_all(builds, bdir)
    optional = {b["name"] for b in builds if b.get("optional")}
    skipped = []
    for n, log in failed.items():
        if n in optional: skipped.append(n); print(f"NOTE build {n} is not available: {log[:300]!r}")
        else: raise Infra(f"build {n} failed:\n{log}")
    t_build = time.time() - t0
    bpath = {b["name"]: b["_out"] for b in builds}
    bsan = {b["name"]: b for b in builds}
    jobs = []
    for r in runs:
        if r["build"] in failed: continue
        n = r["cases"][tier]
        shards = min(NCPU, max(1, n), r.get("max_shards", NCPU))
        for s in range(shards):
            k = len(jobs)
            hf, pf = os.path.join(bdir, f"h{k}"), os.path.join(bdir, f"p{k}")
            cmd = [bpath[r["build"]], f"seed={seed}", f"cases={n}", f"first={s}", f"stride={shards}",
                   f"thorough={1 if tier == 'thorough' else 0}", f"hashes={hf}", f"progress={pf}"] + r.get("args", [])
            if rp:
                if rp["run"] != r["name"] and not spec.get("post"): continue
                cmd = [c for c in cmd if not c.startswith(("first=", "cases=", "stride="))] + [f"first={rp['case']}", f"cases={rp['case']+1}", "stride=1"]
                if s: continue
            jobs.append(dict(run=r, cmd=cmd, hashes=hf, progress=pf, cwd=bdir))
    env = dict(os.environ); env.update(ENV_SAN)
    viols, cov, samples, distinct, digests, inconclusive = [], {}, {}, set(), {}, []
    def rerun_single(j, case):
        cmd = [c for c in j["cmd"] if not c.startswith(("first=", "cases=", "stride=", "hashes="))]
        cmd += [f"first={case}", f"cases={case+1}", "stride=1"]
        return run_one(dict(cmd=cmd, progress=j["progress"], cwd=bdir), env)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, res in zip(jobs, ex.map(lambda j: run_one(j, env), jobs)):
            rn = j["run"]["name"]
            if res["kind"] == "timeout": inconclusive.append(f"run {rn} did not finish within {CASE_LIMIT_S} s (inconclusive)"); continue
            if res["kind"] == "hang":
                again = rerun_single(j, res["case"])
                if again["kind"] == "hang":
                    viols.append((rn, "hang", res["case"], f"the case used more than its CPU-time limit twice (a case normally takes milliseconds)"))
                    continue
                inconclusive.append(f"run {rn} case {res['case']} hit the CPU watchdog once but not when repeated (inconclusive)"); continue
            for (k, c, d) in res["viol"]: viols.append((rn, k, c, d))
            if res["kind"] == "crash":
                if "ThreadSanitizer: unexpected memory mapping" in res["err"]:
                    print(f"NOTE run {rn}: ThreadSanitizer cannot run here"); continue
                if res["rc"] == -9:
                    inconclusive.append(f"run {rn} was killed"); continue
                viols.append((rn, res["key"], res["case"], "process died: " + res["err"][-3000:]))
                continue
            for k, n in res["cov"].items(): cov[k] = cov.get(k, 0) + n
            samples.setdefault(rn, []).extend(res["samples"])
            digests.setdefault(rn, []).extend(res["digests"])
            try:
                with open(j["hashes"], "rb") as fh: data = fh.read()
                distinct.update(struct.unpack(f"<{len(data)//8}Q", data))
            except FileNotFoundError: pass
    if spec.get("post"):
        for v in spec["post"](digests, cov, lambda rn, case: rerun_single(next(j for j in jobs if j["run"]["name"] == rn), case)): viols.append(v)
    known = load_known(pid)
    shown = {}
    new = []
    for v in viols:
        hit = [k for k in known if re.fullmatch(k[0], v[1])]
        if hit: shown[hit[0]] = shown.get(hit[0], 0) + 1
        else: new.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k[1]} (seen {shown.get(k, 0)} times in this run)")
    allsamp = []
    for rn in samples: allsamp += [f"[{rn}] {s}" for s in samples[rn][:2]]
    ev = cov.pop("evaluations", 0)
    missing = [k for k in spec.get("require", []) if cov.get(k, 0) == 0 and k[9:] not in {x.rsplit("-", 1)[0] for x in skipped}] if not rp else []
    evidence = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
        coverage=dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=spec["rule"], samples=allsamp[:10] or ["none"],
                      observed=cov, runs=[dict(name=r["name"], build=r["build"], cases=r["cases"][tier]) for r in runs],
                      builds_skipped=skipped, build_seconds=round(t_build, 1)),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if not rp:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{pid}.json"), "w") as f: json.dump(evidence, f, indent=1)
    if new:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        seen = set()
        for (rn, key, case, det) in new:
            if (rn, key) in seen: continue
            seen.add((rn, key))
            path = os.path.join(V, "replays", f"{pid}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, run=rn, key=key, case=case, seed=seed, tier=tier, detail=det,
                               how=f"VERIF_SEED={seed} python3 /verif/check.py {pid} --replay {path}"), f, indent=1)
            print(f"  run={rn} key={key} case={case}: {det[:1200]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if inconclusive: raise Infra("; ".join(inconclusive))
    if missing: raise Infra(f"nothing observed for {missing}: {cov}")
    if ev == 0 and not rp: raise Infra("no case was evaluated")
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={ev} distinct={len(distinct)} wall={time.time()-t0:.1f}s build={t_build:.1f}s {json.dumps(cov)}")
    return 0

if __name__ == "__main__":
    main()
