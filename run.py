#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property by symbolic execution of /repo's current code.

Builds the engine and the harness crates it needs, runs every entry of the property (checks.py), replays each
counterexample natively against the real, optimised code before reporting it, replays a sample of explored paths to
compare the encoding with the real code, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict (reason on stderr)."""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks  # noqa: E402

TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
FOUND = []  # when violations were found
KNOWN = set()  # known findings: (entry, assertion)
STOPPED = "stopped after a violation was found"
CORES = min(8, os.cpu_count() or 8)


def build(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        # a broken target directory (interrupted build) is not the code's fault: once more
        p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-6000:])
        die("building %s failed" % what)


def die(msg):
    sys.stderr.write("ERROR: %s\n" % msg)
    sys.exit(2)


def so(crate):
    return os.path.join(TARGET, crate, "release", "lib%s.so" % crate)


def ll(crate):
    return os.path.join(TARGET, crate, "release", "deps", "%s.ll" % crate)


def symir(e, out, timeout, seed, part):
    cmd = [os.path.join(TARGET, "engine/release/symir"), ll(e.crate), "--entry", e.name, "--out", out, "--timeout", str(timeout),
           "--query-timeout-ms", str(e.query_ms), "--samples", str(e.samples), "--seed", str(seed), "--root", "/repo/",
           "--max-violations", "60", "--settle", "40", "--own", ",".join(e.ids or []) or "*", "--known", ",".join(i for n, i in KNOWN if n == e.name and i), "--part", "%d/%d" % (part, e.parts)] + (["--text"] if e.crate in ("oracle", "service", "cli") else [])
    if os.path.exists(out):
        os.remove(out)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    while True:
        try:
            err = p.communicate(timeout=1)[1]
            break
        except subprocess.TimeoutExpired:
            late = time.time() - t0 > timeout + 120
            # a violation elsewhere settles the answer; the rest gets a little longer
            if late or FOUND and time.time() - FOUND[0] > 60:
                p.kill()
                p.communicate()
                return None, "timeout" if late else STOPPED
    try:
        d = json.load(open(out))
    except Exception:
        return None, err[-2000:]
    if any(e.owns(v["id"]) and v["real"] and (e.name, v["id"]) not in KNOWN for v in d["violations"]):
        FOUND.append(time.time())
    return d, err[-2000:]


def replay(crate, entry, inputs, path, want=None):
    with open(path, "w") as f:
        f.write("# symreplay %s %s\n" % (crate, entry))
        for t, h in inputs:
            f.write("%s %s\n" % (t, h))
    try:
        p = subprocess.run([os.path.join(TARGET, "engine/release/symreplay"), so(crate), entry, path], capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return {"fail": ["hang"], "obs": [], "end": "hang", "cover": [], "diverged": False}
    r = {"fail": [], "obs": [], "end": None, "cover": [], "diverged": False}
    if "memory-fault" == want and "FAIL memory-fault" not in p.stdout:
        # an access outside an object that happens not to trap
        try:
            q = subprocess.run(["valgrind", "-q", "--error-exitcode=99", os.path.join(TARGET, "engine/release/symreplay"), so(crate), entry, path],
                               capture_output=True, text=True, timeout=300)
            if q.returncode == 99 and "Invalid" in q.stderr:
                r["fail"].append("memory-fault")
        except (subprocess.TimeoutExpired, OSError):
            pass
    for l in p.stdout.splitlines():
        k, _, v = l.partition(" ")
        if k == "FAIL":
            r["fail"].append(v)
        elif k == "OBS":
            a, _, b = v.rpartition(" ")
            r["obs"].append([a, int(b)])
        elif k == "COVER":
            r["cover"].append(v)
        elif k == "END":
            r["end"] = v
        elif k == "DIVERGED":
            r["diverged"] = True
    return r


def merge(ps):
    """The results of the parts of one entry as one."""
    e = ps[0][0]
    if any(d is not None for _, d, _ in ps):
        ps = [x for x in ps if x[2] != STOPPED or x[1] is not None]
    bad = [err for _, d, err in ps if d is None]
    if bad:
        return e, None, bad[0]
    r = ps[0][1]
    for _, d, _ in ps[1:]:
        for k in ("paths", "aborts", "covers"):
            for x, n in d[k].items():
                r[k][x] = r[k].get(x, 0) + n
        for x, n in d["asserts"].items():
            a = r["asserts"].setdefault(x, [0, 0])
            r["asserts"][x] = [a[0] + n[0], a[1] + n[1]]
        for k in ("queries", "sat", "unsat", "unknown", "secs"):
            r["solver"][k] += d["solver"][k]
        r["solver"]["max_secs"] = max(r["solver"]["max_secs"], d["solver"]["max_secs"])
        r["steps"] += d["steps"]
        r["wall_s"] = max(r["wall_s"], d["wall_s"])
        r["repo_lines"] = max(r["repo_lines"], d["repo_lines"])
        r["functions"] = sorted(set(r["functions"]) | set(d["functions"]))
        r["violations"] += d["violations"]
        r["errors"] += d["errors"]
        r["samples"] += d["samples"]
    if len(r["samples"]) > e.samples:
        step = len(r["samples"]) / e.samples
        r["samples"] = [r["samples"][int(i * step)] for i in range(e.samples)]
    return e, r, ""


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known", "findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[len("finding:"):].split(" what=")[0].split() if "=" in x)
                d["what"] = l.split(" what=", 1)[1] if " what=" in l else ""
                if d.get("property") == prop:
                    out.append(d)
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    c = checks.CHECKS[prop]
    entries = [e for e in c.entries if tier == "thorough" or e.tier == "quick"]
    budget = 760 if tier == "quick" else 6600
    os.makedirs(os.path.join(WORK, prop), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    crates = sorted({e.crate for e in entries})
    build([os.path.join(HERE, "engine/build.sh"), os.path.join(TARGET, "engine")], "the engine")
    for cr in crates:
        build([os.path.join(HERE, "harness/build.sh"), cr, os.path.join(TARGET, cr)], "harness crate " + cr)
    build_s = time.time() - t0

    KNOWN.update((k.get("entry"), k.get("assertion")) for k in known_findings(prop))
    order = sorted([(e, i) for e in entries for i in range(e.parts)], key=lambda x: -x[0].cost / x[0].parts)
    parts = {}

    def one(x):
        e, i = x
        now = time.time() - t0
        if FOUND and time.time() - FOUND[0] > 60:
            return e, (None, STOPPED)
        to = min(e.timeout * (1 if tier == "quick" else 8), max(30, budget - now))
        return e, symir(e, os.path.join(WORK, prop, "%s.%d.json" % (e.label, i)), to, seed, i)

    with cf.ThreadPoolExecutor(CORES) as ex:
        for e, (d, err) in ex.map(one, order):
            parts.setdefault(e.label, []).append((e, d, err))
    results = {n: merge(ps) for n, ps in parts.items()}

    problems, confirmed, foreign = [], [], []
    validated = mismatched = skipped = 0
    kf = known_findings(prop)
    kf_hit = {}
    cov_entries = {}
    funcs = set()
    tot = dict(states=0, transitions=0, queries=0, sat=0, unsat=0, unknown=0, secs=0.0, obl=0, disch=0)
    samples = []
    jobs = []
    for e in entries:
        e, d, err = results[e.label]
        if d is None:
            problems.append("%s: no result (%s)" % (e.name, err.strip()[-300:]))
            continue
        s = d["solver"]
        tot["states"] += sum(d["paths"].values())
        tot["transitions"] += d["steps"]
        for k in ("queries", "sat", "unsat", "unknown"):
            tot[k] += s[k]
        tot["secs"] += s["secs"]
        mine = {k: v for k, v in d["asserts"].items() if e.owns(k)}
        tot["obl"] += sum(v[0] for v in mine.values())
        tot["disch"] += sum(v[1] for v in mine.values())
        funcs.update(d["functions"])
        cov_entries[e.label] = {
            "crate": e.crate, "bounds": e.bounds, "paths": d["paths"], "covers": d["covers"], "assertions": {k: v[0] for k, v in mine.items()},
            "solver_queries": s["queries"], "solver_s": round(s["secs"], 2), "max_query_s": s["max_secs"], "wall_s": round(d["wall_s"], 2), "steps": d["steps"], "repo_lines_executed": d["repo_lines"],
        }
        for x in d["errors"]:
            problems.append("%s: %s" % (e.label, x[:400]))
        for i, v in enumerate(d["violations"]):
            path = os.path.join(WORK, prop, "%s-%d.txt" % (e.label, i))
            jobs.append(("v", e, v, path))
        if not any(e.owns(v["id"]) for v in d["violations"]):
            for cv in e.covers:
                if not d["covers"].get(cv):
                    problems.append("%s: nothing reached %r (vacuous)" % (e.label, cv))
        for i, smp in enumerate(d["samples"]):
            if smp.get("real"):
                jobs.append(("s", e, smp, os.path.join(WORK, prop, "%s-s%d.txt" % (e.label, i))))
            else:
                skipped += 1

    with cf.ThreadPoolExecutor(CORES) as ex:
        outs = list(ex.map(lambda j: replay(j[1].crate, j[1].name, j[2]["inputs"], j[3], j[2].get("id", "").split(":")[0]), jobs))
    unrepro = []
    for (kind, e, v, path), r in zip(jobs, outs):
        if kind == "s":
            want = [[a, b] for a, b in v["obs"]]
            if r["diverged"] or r["end"] != v["end"] or r["obs"] != want:
                mismatched += 1
                problems.append("%s: the real code does otherwise than the encoding on %s (end %s/%s, obs %s/%s)"
                                % (e.label, path, v["end"], r["end"], want[:4], r["obs"][:4]))
            else:
                validated += 1
                if len(samples) < 4:
                    samples.append({"entry": e.name, "end": v["end"], "inputs": [[t, h if len(h) < 80 else h[:76] + "..."] for t, h in v["inputs"]][:24], "observed": r["obs"]})
                os.remove(path)
            continue
        if v["id"].split(":")[0] in r["fail"]:
            if not e.owns(v["id"]):
                foreign.append("%s/%s" % (e.label, v["id"]))
                continue
            hit = [k for k in kf if k.get("entry") == e.name and k.get("assertion") == v["id"]]
            if hit:
                kf_hit[hit[0]["entry"] + "/" + hit[0]["assertion"]] = hit[0]
                continue
            confirmed.append((e, v, path))
        elif e.owns(v["id"]):
            unrepro.append("%s: counterexample for %s does not reproduce natively (%s; %s)" % (e.label, v["id"], "real" if v["real"] else "not realisable", v["detail"][:120]))
    # a counterexample that exists only for some choice of the uninterpreted functions counts if another one of the same
    # assertion reproduced; otherwise there is no verdict
    conf_ids = {(e.label, v["id"]) for e, v, _ in confirmed} | {tuple(x.split("/", 1)) for x in kf_hit}
    problems += [u for u in unrepro if not any(u.startswith(n + ":") and (" for %s does" % i) in u for n, i in conf_ids)]
    for k in kf:
        n = k["entry"] + "/" + k["assertion"]
        if n in kf_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif k["entry"] in [e.name for e in entries]:
            print("note: known finding %s no longer reproduces" % n)

    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": checks.LEVEL,
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": validated,
            "samples": samples or [{"entry": e.name} for e in entries[:1]],
            "what_states_are": "symbolic paths explored to their end (each stands for all inputs that take it); transitions are LLVM instructions executed symbolically",
            "assertions_on_paths": tot["obl"], "assertions_needing_solver": tot["disch"],
            "solver_queries": tot["queries"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"], "solver_unknown": tot["unknown"],
            "solver_s": round(tot["secs"], 2), "solver": checks.SOLVER,
            "entries": cov_entries,
            "functions_encoded": sorted(funcs),
            "bounds": c.bounds, "outside_the_claim": c.outside,
            "path_samples_not_realisable": skipped,
            "build_s": round(build_s, 1),
        },
        "assumptions": checks.COMMON_ASSUMPTIONS[c.family] + c.assumptions,
        "wall_s": round(wall, 1), "violations": len(confirmed),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d entries, %d paths, %d assertion instances (%d to the solver), %d queries, %.1f s solver, %d path samples replayed natively, %.0f s"
          % (prop, tier, len(entries), tot["states"], tot["obl"], tot["disch"], tot["queries"], tot["secs"], validated, wall))
    if confirmed:
        seen = set()
        for e, v, path in confirmed:
            if (e.label, v["id"]) in seen:
                continue
            seen.add((e.label, v["id"]))
            print("  %s: assertion %s: %s" % (e.label, v["id"], v["detail"][:160]))
            for t in v["trace"][:3]:
                print("    at", t)
        e, v, path = confirmed[0]
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for f in sorted(set(foreign)):
        print("note: %s fails, which belongs to another property" % f)
    if problems:
        for p in problems[:12]:
            sys.stderr.write("ERROR: %s\n" % p)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
