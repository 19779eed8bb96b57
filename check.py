#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--list]

Decides one property of /repo: rebuilds the symbolic executor, the LLVM IR of the harness
(which links /repo's current source) and the native replayer, runs the property's jobs
through the executor, replays every counterexample against the native code and writes
evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: VIOLATION."""
import json, os, queue, re, subprocess, sys, threading, time, fcntl, hashlib

ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(ROOT, ".work")
REPO = "/repo"
sys.path.insert(0, os.path.join(ROOT, "lib"))
import jobs as J

NCPU = os.cpu_count() or 8
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu"))
ENV["RUSTFLAGS"] = "--cfg rtbvh_verif"


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def cargo(cwd, target, *args):
    e = dict(ENV, CARGO_TARGET_DIR=target)
    p = subprocess.run(["cargo"] + list(args), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build():
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    out = {}

    def go(name, *a):
        out[name] = cargo(*a)
    ts = [threading.Thread(target=go, args=a) for a in (
        ("engine", os.path.join(ROOT, "engine"), os.path.join(WORK, "engine"), "build", "--release", "--offline"),
        ("ir", os.path.join(ROOT, "harness"), os.path.join(WORK, "ir"), "rustc", "--release", "--offline", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"),
        ("release", os.path.join(ROOT, "replay"), os.path.join(WORK, "replay"), "build", "--release", "--offline"),
        ("dev", os.path.join(ROOT, "replay"), os.path.join(WORK, "replay-dev"), "build", "--offline"))]
    for t in ts: t.start()
    for t in ts: t.join()
    bad = [k for k, v in out.items() if v[0] != 0]
    for k in bad:
        log("build of %s failed:\n%s" % (k, out[k][1][-3000:]))
    if bad:
        sys.exit(3)
    deps = os.path.join(WORK, "ir", "release", "deps")
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("vharness") and f.endswith(".ll")]
    ll = max(lls, key=os.path.getmtime)
    for f in lls:
        if f != ll: os.remove(f)
    # private copies: another check may rebuild while this one runs
    run = os.path.join(WORK, "run-%d" % os.getpid())
    os.makedirs(run, exist_ok=True)
    b = {}
    for name, src in (("ll", ll), ("symex", os.path.join(WORK, "engine", "release", "symex")), ("release", os.path.join(WORK, "replay", "release", "vreplay")), ("dev", os.path.join(WORK, "replay-dev", "debug", "vreplay"))):
        d = os.path.join(run, name)
        subprocess.run(["cp", "--reflink=auto", src, d], check=True)
        b[name] = d
    b["run"] = run
    fcntl.flock(lock, fcntl.LOCK_UN)
    return b


# ---------------------------------------------------------------- native runs
def pargs(params):
    r = []
    for k in sorted(params): r += ["--param", "%d=%d" % (k, params[k])]
    return r


def native(bin_, entry, params, extra, timeout):
    """-> (status, values, text); status: ok, rejected, fail, hang, error"""
    try:
        p = subprocess.run([bin_, entry] + pargs(params) + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "", "no result within %d s" % timeout
    vals = ""
    m = re.search(r"^VALUES (.*)$", p.stdout, re.M)
    if m: vals = m.group(1)
    first = p.stdout.strip().split("\n")[0] if p.stdout.strip() else ""
    if p.returncode == 0: return "ok", vals, first
    if p.returncode == 3: return "rejected", vals, first
    if p.returncode == 1 and first.startswith("FAIL"): return "fail", vals, first
    if p.returncode < 0 or p.returncode == 1 or p.returncode >= 101: return "fail", vals, "crash (exit %d) %s" % (p.returncode, p.stdout.strip()[-300:].replace("\n", " "))
    return "error", vals, p.stdout[-300:]


# ---------------------------------------------------------------- engine
class Job:
    def __init__(self, d):
        self.entry, self.params = d["entry"], d["params"]
        self.time, self.threads, self.opts = d.get("time", 20), d.get("threads", 1), d.get("opts", [])
        self.note = d.get("note", "")
        self.cover_time = d.get("cover_time", 2)
        self.seed_search = d.get("seed_search", True)
        self.res, self.seed, self.cover, self.err = None, "", "", ""
        self.cands, self.validated, self.mismatch = [], 0, 0

    def name(self):
        return self.entry + "[" + " ".join("%d=%d" % (k, self.params[k]) for k in sorted(self.params)) + "]"


def run_job(b, j, i, deadline):
    # a native run that reaches the end: vacuity witness and first path for the engine
    st, vals, msg = native(b["release"], j.entry, j.params, ["--cover", "--search", "200000" if j.seed_search else "1", "--seed", str(J.SEED), "--time", str(j.cover_time)], 30 + j.cover_time)
    if st == "ok" and "covers []" not in msg:
        j.cover, j.seed = msg, vals
    elif st in ("fail", "hang"):
        j.cands.append(("native", msg, vals))
        if st == "hang" and not vals: j.cands[-1] = ("native", msg, "")
        # the executor decides that path for every input that follows it
        if st == "fail": j.seed = vals
    left = deadline - time.time()
    if left < 2:
        j.err = "not started: out of time"
        return
    out = os.path.join(b["run"], "job%d.json" % i)
    t = min(j.time, left)
    cmd = [b["symex"], "--ll", b["ll"], "--entry", j.entry, "--out", out, "--threads", str(j.threads), "--time", "%.1f" % t, "--keep-going"] + pargs(j.params) + j.opts
    if j.seed: cmd += ["--seed-values", j.seed]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 45)
        j.rc = p.returncode
    except subprocess.TimeoutExpired:
        j.err = "engine killed %d s past its limit" % 45
    if os.path.exists(out):
        try:
            j.res = json.load(open(out))
        except Exception as e:
            j.err = "unreadable engine result: %s" % e
        os.remove(out)
    elif not j.err:
        j.err = "engine gave no result (exit %s)" % j.rc
    if not j.res: return
    for v in j.res["violations"]: j.cands.append(("model", "%s %d %s" % (v["kind"], v["id"], v["what"]), v["inputs"]))
    for v in j.res["undecided"]: j.cands.append(("undecided", "%s %d %s" % (v["kind"], v["id"], v["what"]), v["inputs"]))
    for m, (n, inp) in j.res["errors"].items():
        if inp and "step limit" in m: j.cands.append(("steps", m, inp))
    # the engine's accepted paths must be accepted by the real code as well
    for s in j.res["samples"][:2]:
        st, vals, msg = native(b["release"], j.entry, j.params, ["--values", s], 60)
        if st == "ok": j.validated += 1
        elif st in ("fail", "hang"): j.cands.insert(0, ("sample", msg, s))
        else: j.mismatch += 1


MIRI = {"lock": threading.Lock(), "tries": 0, "left": 0.0, "built": False}


def miri_cmd(entry, params, vals, seeds):
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, "miri"), RAYON_NUM_THREADS="3", RUSTFLAGS="--cfg rtbvh_verif -Awarnings",
             MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-num-cpus=3 -Zmiri-preemption-rate=0.5 -Zmiri-many-seeds=0..%d" % seeds)
    q = {k: v for k, v in params.items() if k < 900 or k == 903}
    return e, ["cargo", "+nightly", "miri", "run", "--offline", "--", entry] + pargs(q) + (["--values", vals] if vals else [])


def miri(j, vals):
    """replay with the real rayon and crossbeam under Miri, which detects data races and
    takes a different interleaving for every seed"""
    with MIRI["lock"]:
        if MIRI["tries"] >= 3 or MIRI["left"] < 5: return None
        MIRI["tries"] += 1
        # the job's own scene, and a larger one: more pieces of work run at the same time
        for params, v, seeds in ((j.params, vals, 32), ({**j.params, 1: 30, 2: 0, 5: 15, 9: 0}, "", 128), ({**j.params, 1: 12, 2: 0, 5: 15, 9: 0}, "", 128)):
            e, cmd = miri_cmd(j.entry, params, v, seeds)
            t = time.time()
            pr = subprocess.Popen(cmd, cwd=os.path.join(ROOT, "miri"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
            try: out, _ = pr.communicate(timeout=max(5, MIRI["left"]))
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, 9)
                out = pr.communicate()[0] or ""
            MIRI["left"] -= time.time() - t
            m = re.search(r"Data race detected[^\n]*|^FAIL [^\n]*|deadlock[^\n]*", out, re.M)
            if m: return "miri", "Miri: " + m.group(0)[:250], v or " ", params, seeds
            if MIRI["left"] < 5: break
    return None


def confirm(b, j, c, tsearch):
    """replay a candidate; -> (profile, message, values) or None"""
    kind, what, vals = c
    for prof in ("release", "dev"):
        st, v, msg = native(b[prof], j.entry, j.params, ["--values", vals] if vals else ["--seed", str(J.SEED)], 60)
        if st == "fail": return prof, msg, v or vals
        if st == "hang":
            # make sure it is not load
            st2, _, _ = native(b[prof], j.entry, j.params, ["--values", vals] if vals else ["--seed", str(J.SEED)], 60)
            if st2 == "hang": return prof, "does not terminate (60 s)", vals
    if 902 in j.params or "--race" in j.opts:
        r = miri(j, vals)
        if r:
            j.miri = r[3:]
            return r[:3]
    if tsearch > 0 and vals:
        st, v, msg = native(b["release"], j.entry, j.params, ["--values", vals, "--search", "100000000", "--seed", str(J.SEED), "--time", str(tsearch)], 60 + tsearch)
        if st == "fail": return "release", msg, v or vals
    return None


def pool(items, width, fn):
    """run fn(item, index) with at most `width` slots in use"""
    cond = threading.Condition()
    free = [width]
    ths = []
    for i, (need, it) in enumerate(items):
        need = min(need, width)
        with cond:
            while free[0] < need: cond.wait()
            free[0] -= need

        def go(need=need, it=it, i=i):
            try: fn(it, i)
            finally:
                with cond:
                    free[0] += need
                    cond.notify_all()
        t = threading.Thread(target=go)
        t.start()
        ths.append(t)
    for t in ths: t.join()


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")[:len(names)]
    except Exception:
        return names


def load_findings():
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                r.append(dict(x.split("=", 1) for x in re.findall(r'(\w+=(?:"[^"]*"|\S+))', l)))
    return r


def matches(f, prop, j, msg):
    if f.get("property") != prop or f.get("entry") != j.entry: return False
    for k, v in f.items():
        if k.startswith("p") and k[1:].isdigit() and str(j.params.get(int(k[1:]), "")) != v: return False
    return f.get("fails", "").strip('"') in msg


def main():
    if sys.argv[1:] == ["--build"]:
        b = build()
        subprocess.run(["rm", "-rf", b["run"]])
        return 0
    prop = sys.argv[1]
    av = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in av: tier = av[av.index("--tier") + 1]
    only = av[av.index("--only") + 1] if "--only" in av else ""
    P = J.PROPS[prop]
    spec = P["jobs"](tier)
    js = [Job(d) for d in spec]
    if only: js = [j for j in js if only in j.name()]
    if "--list" in av:
        for j in js: print(j.time, j.threads, j.name(), " ".join(j.opts), j.note)
        return 0
    b = build()
    tb = time.time() - T0
    limit = P.get("limit", 150 if tier == "quick" else 3600)
    if tier == "quick": limit = min(limit, 400)
    deadline = time.time() + limit
    order = sorted(js, key=lambda j: (-j.threads, -j.time))
    lock = threading.Lock()
    verbose = "-v" in av

    def one(j, i):
        t = time.time()
        run_job(b, j, i, deadline)
        if verbose:
            r = j.res or {}
            with lock:
                log("%6.1fs %-9s %s paths=%s wit=%s q=%s cover=%s und=%d viol=%d %s %s" % (time.time() - t, "complete" if r.get("complete") else "PARTIAL", j.name(), r.get("paths"), r.get("paths_witnessed"), r.get("queries"), "yes" if j.cover else "NO", len(r.get("undecided", [])), len(r.get("violations", [])), j.err, str(r.get("errors") or "")[:120]))
    pool([(j.threads, j) for j in order], NCPU, one)

    # confirmation of candidates by native replay
    found, known, unconfirmed = [], [], 0
    findings = load_findings()
    rank = {"native": 0, "sample": 0, "model": 1, "steps": 2, "undecided": 3}
    cands = []
    for j in js:
        per = {}
        for c in sorted(j.cands, key=lambda c: rank[c[0]]):
            k = (c[0], c[1])
            per[k] = per.get(k, 0) + 1
            if per[k] <= 3: cands.append((rank[c[0]], j, c))
    cands.sort(key=lambda x: x[0])
    maxc = 64 if tier == "quick" else 400
    skipped = max(0, len(cands) - maxc)
    MIRI["left"] = 150.0 if tier == "quick" else 1200.0
    tsearch = 3 if tier == "quick" else 10
    cend = time.time() + (60 if tier == "quick" else 900)

    def conf(x, i):
        nonlocal unconfirmed, skipped
        _, j, c = x
        if len(found) >= 3: return
        if time.time() > cend:
            with lock: skipped += 1
            return
        r = confirm(b, j, c, tsearch)
        with lock:
            if not r: unconfirmed += 1; return
            for f in findings:
                if matches(f, prop, j, r[1]): known.append((f, j, r)); return
            found.append((j, c, r))
    pool([(1, c) for c in cands[:maxc]], NCPU, conf)

    rc = 0
    seen = set()
    for f, j, r in known:
        k = json.dumps(f, sort_keys=True)
        if k in seen: continue
        seen.add(k)
        log("KNOWN-FINDING: property=%s %s fails %s [%s]" % (prop, j.name(), r[1], f.get("note", "")))
    if found:
        rc = 1
        rd = os.path.join(WORK, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (j, c, r) in enumerate(found[:3]):
            prof, msg, vals = r
            h = hashlib.sha1((j.name() + vals).encode()).hexdigest()[:8]
            path = os.path.join(rd, "%s-%s.sh" % (prop, h))
            tgt = "replay/release" if prof == "release" else "replay-dev/debug"
            with open(path, "w") as fh:
                if prof == "miri":
                    e, cmd = miri_cmd(j.entry, j.miri[0], vals.strip(), j.miri[1])
                    fh.write("#!/bin/sh\n# property %s: %s\n# what fails under Miri: %s\n# found as: %s %s\ncd %s/miri && exec env %s %s\n" % (prop, P["title"], msg.replace("\n", " "), c[0], c[1], ROOT, " ".join("%s='%s'" % (k, e[k]) for k in ("CARGO_TARGET_DIR", "RAYON_NUM_THREADS", "RUSTFLAGS", "MIRIFLAGS", "CARGO_NET_OFFLINE")), " ".join("'%s'" % x if " " in x else x for x in cmd)))
                else: fh.write("#!/bin/sh\n# property %s: %s\n# what fails natively: %s\n# found as: %s %s\n" % (prop, P["title"], msg, c[0], c[1]))
                if prof != "miri": fh.write("cd %s/replay && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/%s cargo build --offline %s >/dev/null 2>&1\n" % (ROOT, WORK, "replay" if prof == "release" else "replay-dev", "--release" if prof == "release" else ""))
                if prof != "miri": fh.write("exec %s/%s/vreplay %s %s%s\n" % (WORK, tgt, j.entry, " ".join(pargs(j.params)), " --values '%s'" % vals if vals else ""))
            os.chmod(path, 0o755)
            log("  %s: %s (profile %s)" % (j.name(), msg[:300], prof))
            log("VIOLATION property=%s replay=%s" % (prop, path))
    evidence(prop, tier, P, js, found, known, unconfirmed, skipped, tb)
    subprocess.run(["rm", "-rf", b["run"]])
    st = [j.res for j in js if j.res]
    log("%s %s: %d jobs, %d complete, %d paths, %d queries, %.0f s solver, %d counterexample(s), %d candidate(s) not reproduced, %.0f s (build %.0f s)" % (prop, tier, len(js), sum(1 for r in st if r["complete"]), sum(r["paths"] for r in st), sum(sum(r["queries"]) for r in st), sum(sum(r["solver_s"]) for r in st), len(found), unconfirmed, time.time() - T0, tb))
    return rc


def evidence(prop, tier, P, js, found, known, unconfirmed, skipped, tb):
    rs = [j.res for j in js if j.res]
    fn = {}
    for r in rs:
        for k, v in r["functions"].items(): fn[k] = fn.get(k, 0) + v
    names = sorted(k for k in fn if "rtbvh" in k)
    dm = demangle(names)
    funcs = sorted(set(x for x in dm))
    cov = {
        "states": sum(r["paths"] for r in rs),
        "transitions": sum(r["forks"] for r in rs),
        "traces_validated_against_impl": sum(j.validated for j in js) + sum(1 for j in js if j.cover),
        "samples": [{"job": j.name(), "inputs": (j.res["samples"][0] if j.res and j.res["samples"] else j.seed)[:600]} for j in js if j.res and (j.res["samples"] or j.seed)][:6],
        "jobs": len(js),
        "jobs_complete": sum(1 for r in rs if r["complete"]),
        "jobs_partial": [{"job": j.name(), "why": j.err or ("time limit" if j.res["timeout"] else "undecided queries" if j.res["undecided"] else "engine errors: " + "; ".join(j.res["errors"])[:200] if j.res["errors"] else "counterexamples" if j.res["violations"] else "crash"), "paths": j.res["paths"] if j.res else 0} for j in js if not (j.res and j.res["complete"])][:200],
        "paths_with_witness": sum(r["paths_witnessed"] for r in rs),
        "paths_infeasible": sum(r["paths_infeasible"] for r in rs),
        "ir_instructions_executed": sum(r["instructions"] for r in rs),
        "assertions_decided": sum(sum(r["checks"].values()) for r in rs),
        "paths_left_open": sum(r.get("open", 0) for r in rs),
        "assertions_syntactic": sum(r["checks_syntactic"] for r in rs),
        "discharged_by_solver": sum(r["discharged"]["lazy"] + r["discharged"]["exact"] for r in rs),
        "queries": {"lazy": sum(r["queries"][0] for r in rs), "bit_exact": sum(r["queries"][1] for r in rs)},
        "solver_s": round(sum(sum(r["solver_s"]) for r in rs), 2),
        "max_query_s": max([max(r["max_query_s"]) for r in rs] or [0]),
        "unknown_answers": sum(sum(r["unknown"]) for r in rs),
        "undecided_assertions": sum(len(r["undecided"]) for r in rs),
        "candidates_not_reproduced": unconfirmed,
        "candidates_not_tried": skipped,
        "samples_rejected_natively": sum(j.mismatch for j in js),
        "vacuity": {"jobs_with_native_witness": sum(1 for j in js if j.cover), "jobs_with_engine_witness": sum(1 for r in rs if any(v[1] for v in r["covers"].values())), "jobs_without": [j.name() for j in js if not j.cover and not (j.res and any(v[1] for v in j.res["covers"].values()))][:50]},
        "functions_encoded": funcs[:150],
        "functions_encoded_count": len(funcs),
        "bounds": P["bounds"],
        "outside_bounds": P["outside"],
        "build_s": round(tb, 1),
        "complete_within_bounds": all(j.res and j.res["complete"] for j in js),
        "job_list": [{"job": j.name(), "opts": " ".join(j.opts), "complete": bool(j.res and j.res["complete"]), "wall_s": round(j.res["wall_s"], 2) if j.res else None, "paths": j.res["paths"] if j.res else 0} for j in js][:400],
    }
    ev = {"property": prop, "tier": tier, "seed": J.SEED, "level": "model_checking", "coverage": cov, "assumptions": J.ASSUME + P.get("assume", []), "wall_s": round(time.time() - T0, 2), "violations": len(found)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
