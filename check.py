#!/usr/bin/env python3
"""check.py <property id> [...]: decide properties of /repo's current source by static analysis.

Exit 0: property holds on everything analysed.  Exit 1 + "VIOLATION property=..": broken.
Exit 2: the analysis could not be carried out (lost anchor, source does not type-check, ...).
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lmverif import facts
from lmverif.prog import Program
from lmverif.core import Ctx

META = json.load(open(os.path.join(HERE, "lmverif", "rules", "meta.json")))


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {(e["property"], e["key"]): e for e in json.load(open(p)).get("findings", [])}


def run(pid, ctx, t0, extra):
    mod = importlib.import_module("lmverif.rules." + META[pid]["module"])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    res = mod.check(ctx) if len(META[pid].get("args", [])) == 0 else mod.check(ctx, *META[pid]["args"])
    st_n = 0
    if hasattr(mod, "selftest"):
        st_n = mod.selftest(pid) or 0
    kf = known()
    new, old = [], []
    for v in res.viol:
        (old if (pid, v[0]) in kf else new).append(v)
    for k, msg, where, tr in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kf[(pid, k)].get("what", msg), where))
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    P = ctx.P
    cov = {
        "explanation": META[pid]["rule"] + " Analysed every translation unit of the default build configuration with clang 18's type-checked AST/CFG.",
        "translation_units": len(P.tus),
        "functions": len(P.funcs),
        "classes": len(P.records),
        "obligations": res.obligations,
        "discharged": res.discharged,
        "instances": res.counts,
        "samples": res.samples or ["(no sample)"],
    }
    if st_n:
        cov["selftest_examples"] = st_n
    if res.notes:
        cov["notes"] = res.notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": META[pid].get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d TUs, %d functions; %d obligations, %d discharged; %s" % (pid, len(P.tus), len(P.funcs), res.obligations, res.discharged, res.counts))
    if new:
        rp = os.path.join(edir, pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("# re-run: python3 %s %s\n" % (os.path.join(HERE, "check.py"), pid))
            for k, msg, where, tr in new:
                f.write("%s: %s\n  instance: %s\n" % (where, msg, k))
                for t in tr:
                    f.write("    via %s\n" % t)
        for k, msg, where, tr in new[:8]:
            print("%s: %s [%s]" % (where, msg, k))
            for t in tr[:8]:
                print("    via " + t)
        if len(new) > 8:
            print("... and %d more (see the replay file)" % (len(new) - 8))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main():
    t0 = time.time()
    pids = sys.argv[1:]
    if pids == ["all"]:
        pids = sorted(META)
    try:
        raw = facts.collect()
        ctx = Ctx(Program(raw, facts.REPO))
    except facts.AnalysisError as e:
        print("ANALYSIS-ERROR: %s" % e)
        return 2
    rc = 0
    for pid in pids:
        try:
            rc = max(rc, run(pid, ctx, t0, None))
        except facts.AnalysisError as e:
            print("ANALYSIS-ERROR property=%s: %s" % (pid, e))
            rc = max(rc, 2)
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-ERROR property=%s: internal error" % pid)
            rc = max(rc, 2)
    return rc


if __name__ == "__main__":
    sys.exit(main())
