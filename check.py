#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]      decide one property on /repo's working tree
check.py --replay FILE                                     run the one case of a reported violation again"""
import json, os, sys, time, re, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import rvlib as R
from specs import SPECS

VERIF = R.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known(prop):
    """Findings recorded (not repaired) for this property: (regular expression over signatures, text)."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2) + r"\Z"), m.group(3).strip()))
    return out


def builds(T, spec, names=None):
    """Build every variant a spec needs and link its harnesses: {(harness, variant): executable}."""
    exes, jobs = {}, {}
    runs = [r for r in spec["runs"] if names is None or (r["h"], r.get("v", "rel")) in names]
    for r in runs:
        v = R.VARIANTS[r.get("v", "rel")]
        k = (r["h"], r.get("v", "rel"))
        if k not in jobs:
            flags = list(v.get("hflags", ()))
            if v.get("mpi"):
                flags += R.mpi_flags("compile")
            jobs[k] = T.harness(r["h"], flags=flags, tag="-" + k[1])
    for (h, vn) in list(jobs):
        v = R.VARIANTS[vn]
        libs = T.variant(vn)
        exes[(h, vn)] = T.link(jobs[(h, vn)], libs, "%s-%s" % (h, vn), flags=list(v.get("lflags", ())) + (R.mpi_flags("link") if v.get("mpi") else []))
    return exes


def decide(prop, tier, seed):
    spec, t0 = SPECS[prop], time.time()
    R.SEED = seed
    res, T = R.Result(), R.Tree()
    thorough = tier == "thorough"
    phases = {}
    if "custom" in spec:
        spec["custom"](T, res, seed, thorough, phases)
    if "diff" in spec:
        builds_agree(T, res, spec, seed, thorough, phases)
    if spec.get("runs"):
        exes = builds(T, spec)
        phases["build_s"] = round(time.time() - t0, 1)
        for r in spec["runs"]:
            if r.get("thorough_only") and not thorough:
                continue
            if r.get("optional") and not R.runs(r["wrap"], r.get("env")):
                res.count("launcher-unavailable")
                continue
            t1, e1 = time.time(), res.evals
            try:
                R.run_sharded(res, exes[(r["h"], r.get("v", "rel"))], r["m"], seed, r["t" if thorough else "q"], r.get("tl", 600) if thorough else r.get("ql", 30), thorough=thorough,
                              extra=r.get("x", ""), env=r.get("env"), shards=r.get("shards", R.NCPU), meta=dict(harness=r["h"], variant=r.get("v", "rel")), wrap=r.get("wrap", ()))
            except R.Inconclusive as x:
                if not (r.get("optional") and "MPI does not start" in str(x)):
                    raise
                res.count("launcher-unavailable")
            phases["%s/%s/%s" % (r["h"], r["m"], r.get("v", "rel"))] = dict(cases=res.evals - e1, seconds=round(time.time() - t1, 1))
    return spec, res, phases, t0


def builds_agree(T, res, spec, seed, thorough, phases, only=None, base="rel"):
    """Run one harness that prints a digest per case on every variant; the digests must be those of the base build."""
    d = spec["diff"]
    vs = [v for v in d["variants"] if thorough or v not in d.get("thorough_only", ())]
    if only:
        vs, R.SEED = [only["variant"]], only["seed"]
    t0 = time.time()
    job = T.harness(d["h"])
    job[0].wait()
    exes = {base: T.link((None, job[1]), T.variant(base), "%s-%s" % (d["h"], base))}
    for v in list(vs):
        try:
            exes[v] = T.link((None, job[1]), T.variant(v), "%s-%s" % (d["h"], v))
        except R.Inconclusive as e:        # the base built, so it is this configuration that does not
            vs.remove(v)
            res.count("compared-with-" + v)
            res.count("not-built-" + v)
            if v not in d.get("optional", ()):
                res.violation("build:" + v, "%s while the %s build works" % (e, base), dict(harness=None, variant=v, seed=seed, case=None, thorough=thorough))
    phases["build_s"] = round(time.time() - t0, 1)
    for m in d["modes"]:
        if only and only["mode"] != m["m"]:
            continue
        ref = {}
        for v in [base] + vs:
            t1, got, sub = time.time(), {}, R.Result()
            R.run_sharded(sub, exes[v], m["m"], seed, m["t" if thorough else "q"], 1e6, thorough=thorough, only=only["case"] if only else None, digests=got, watchdog=1500, meta=dict(harness=d["h"], variant=v))
            res.viol += sub.viol
            res.viols += sub.viols
            if v == base:
                ref = got
                res.evals += sub.evals
                res.distinct += sub.distinct
                res.samples += sub.samples
                for k, n in sub.ctr.items():
                    res.count(k, n)
            else:
                if len(got) != len(ref) and not sub.viols:
                    raise R.Inconclusive("build %s answered %d of %d cases" % (v, len(got), len(ref)))
                for c, (h, nm) in sorted(ref.items()):
                    if c in got and got[c][0] != h:
                        res.violation("differs:%s:%s" % (v, nm), "%s: the %s build and the %s build give different bits (%s and %s) for case %d" % (nm, base, v, h, got[c][0], c),
                                      dict(harness=d["h"], variant=v, mode=m["m"], seed=seed, case=c, thorough=thorough))
                res.count("compared-with-" + v, len(got))
            phases["%s/%s" % (m["m"], v)] = dict(cases=len(got), seconds=round(time.time() - t1, 1))


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    if args and args[0] == "--setup":          # nothing to build ahead: every check builds from /repo's current tree
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    for i, a in enumerate(args):
        if a == "--tier":
            tier = args[i + 1]
        if a == "--seed":
            seed = int(args[i + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        spec, res, phases, t0 = decide(prop, tier, seed)
    except R.Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the check itself failed" % prop)
        return 2
    missing = [k for k in spec.get("need", ()) if not res.ctr.get(k)]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 1),
              coverage=dict(evaluations=res.evals, distinct_nontrivial=res.distinct, rule=spec["rule"], samples=res.samples[:6] or ["none kept"],
                            observed=dict(sorted(res.ctr.items())), phases=phases, monitors_not_reached=missing))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    rules, bad, quiet = known(prop), [], {}
    for sig, detail, rp in res.viol:
        hit = next((t for rx, t in rules if rx.match(sig)), None)
        if hit:
            quiet[hit] = 1
        else:
            bad.append((sig, detail, rp))
    for t in quiet:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if bad:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        for n, (sig, detail, rp) in enumerate(bad[:20]):
            p = os.path.join(d, "%s-%s-%d.json" % (prop, tier, n))
            with open(p, "w") as f:
                json.dump(dict(property=prop, signature=sig, detail=detail, **rp), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s: %s" % (sig, detail[:1500]))
        return 1
    if missing:
        print("INCONCLUSIVE property=%s monitors never reached: %s" % (prop, ", ".join(missing)))
        return 2
    print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, seed, res.evals, res.distinct, time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    spec = SPECS[prop]
    print("%s %s\n  %s" % (prop, d["signature"], d["detail"]))
    if not d.get("harness") or d.get("case") is None:
        print("this violation has no single case; running the whole check")
        res = decide(prop, "thorough" if d.get("thorough") else "quick", d.get("seed", 1))[1]
    elif "diff" in spec:
        T, res = R.Tree(), R.Result()
        builds_agree(T, res, spec, d["seed"], d.get("thorough", False), {}, only=d)
    else:
        T, res = R.Tree(), R.Result()
        k = (d["harness"], d.get("variant", "rel"))
        exes = builds(T, dict(runs=[r for r in spec["runs"] if (r["h"], r.get("v", "rel")) == k][:1]))
        run = [r for r in spec["runs"] if (r["h"], r.get("v", "rel")) == k and r["m"] == d["mode"]][0]
        R.run_sharded(res, exes[k], d["mode"], d["seed"], 0, 600, thorough=d.get("thorough", False), extra=d.get("extra", ""), env=run.get("env"), only=d["case"], meta=dict(harness=k[0], variant=k[1]), wrap=run.get("wrap", ()))
    for sig, detail, rp in res.viol:
        print("again: %s: %s" % (sig, detail))
    print("%d violations" % res.viols)
    return 1 if res.viols else 0


if __name__ == "__main__":
    sys.exit(main())
