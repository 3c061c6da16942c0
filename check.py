#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   (see DESIGN.md)"""
import argparse, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from vf import core
from vf.props import PROPS


def load_known():
    p = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--unit", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[a.prop]
    t0 = time.time()
    ctx = core.Ctx(seed, a.tier)
    units = [u for u in P["units"] if (a.tier == "thorough" or u.tier == "quick") and (not a.unit or re.fullmatch(a.unit, u.name))]
    known = [k for k in load_known() if k["property"] == a.prop]
    evdir = os.path.join(core.VERIF, "evidence")
    rdir = os.path.join(evdir, "replays")
    os.makedirs(rdir, exist_ok=True)
    viol, rows, degraded = [], [], []
    try:
        def one(u):
            log = []
            try:
                r, v, hit = core.decide(ctx, u, log)
            except Exception as e:  # machinery failure is never a violation
                import traceback
                log.append(traceback.format_exc())
                r, v, hit = dict(unit=u, status="error", failed=[], obligations=0, discharged=0, lib=0,
                                 solver_s=0.0, wall=0.0, note=repr(e), cmds=[]), "degraded", None
            if v == "violation" and not any(kk["unit"] == u.name for kk in known):
                ctx.stop = True
            return u, r, v, hit, log
        order = sorted(units, key=lambda u: -u.timeout)
        with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            results = list(ex.map(one, order))
        for u, r, v, hit, log in results:
            rows.append((u, r, v))
            if v == "skipped":
                continue
            if a.v or v != "ok":
                print("unit %-34s %-11s %-10s %3d/%3d obligations  %.1fs" %
                      (u.name, u.kind, v if v != "ok" else "discharged", r["discharged"], r["obligations"], r["wall"]))
            if v.startswith("violation"):
                k = None
                for kk in known:
                    if kk["unit"] == u.name and r["failed"] and all(
                            re.search(kk["obligation"], core.obl_id(u, x)) for x in r["failed"]):
                        k = kk
                if k:
                    print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
                    continue
                path = os.path.join(rdir, "%s-%s.txt" % (a.prop, u.name))
                with open(path, "w") as f:
                    f.write("property %s, unit %s, function under contract: %s\n" % (a.prop, u.name, u.fn))
                    f.write("sources: %s\n" % ", ".join(u.files))
                    for x in r["failed"]:
                        f.write("FAILED OBLIGATION: %s\n" % core.obl_id(u, x))
                    if r["note"]:
                        f.write("note: %s\n" % r["note"])
                    f.write("commands:\n  %s\n" % "\n  ".join(r["cmds"]))
                    if hit:
                        f.write("REPLAYED AGAINST THE REAL CODE: harness %s entry %s, vin() values in order:\n%s\n"
                                % (u.harness, u.entry, " ".join(str(x) for x in hit["values"])))
                        f.write("observed: %s\n" % hit["out"])
                    f.write("\nlog:\n%s\n" % "\n".join(log))
                viol.append((u, r, v, path))
            elif v == "degraded":
                degraded.append((u, r))
                print("note: unit %s not re-established on this source shape (%s): %s" %
                      (u.name, r["status"], (r["note"] or "; ".join(core.obl_id(u, x) for x in r["failed"][:3]))[:600]))
            if a.v and v != "ok":
                print("\n".join(log))
    finally:
        ctx.close()
    proof = [(u, r) for u, r, v in rows if u.kind == "proof"]
    bnd = [(u, r) for u, r, v in rows if u.kind == "bounded"]
    okp = [(u, r) for u, r, v in rows if u.kind == "proof" and v == "ok"]
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=P["level"], wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              assumptions=P.get("assumptions", []) + sorted({x for u, r in proof + bnd for x in u.assumes}),
              coverage=dict(
                  obligations=sum(r["obligations"] for u, r in proof),
                  discharged=sum(r["discharged"] for u, r in proof),
                  checker_cmd="python3 check.py %s --tier %s" % (a.prop, a.tier),
                  trusted_base=["CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT back end",
                                "the harness stubs listed under assumptions"],
                  explanation=P.get("explanation", "contract obligations of the real functions, discharged by CBMC"),
                  functions_under_contract=sorted({u.fn for u, r in proof}),
                  units=[dict(unit=u.name, function=u.fn, sources=list(u.files), kind=u.kind, bound=u.bound,
                              enforced_contract=u.enforce, callee_contracts=list(u.replace),
                              verdict=v, status=r["status"], obligations=r["obligations"], discharged=r["discharged"],
                              library_obligations=r["lib"], backend=("CBMC SAT (MiniSat)" if u.backend == "sat" else u.backend),
                              solver_s=round(r["solver_s"], 2), wall_s=round(r["wall"], 2), what=u.what)
                         for u, r, v in rows],
                  bounded_obligations=sum(r["obligations"] for u, r in bnd),
                  bounded_discharged=sum(r["discharged"] for u, r in bnd),
                  not_reestablished=[u.name for u, r in degraded]))
    if a.unit is None:
        with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if viol:
        # one line per violation, those with a failing input first
        for u, r, v, path in sorted(viol, key=lambda x: x[2] != "violation"):
            names = "; ".join(core.obl_id(u, x) for x in r["failed"][:2]) or r["note"]
            print("failed: " + names)
            print("VIOLATION property=%s replay=%s%s" % (a.prop, path, "" if v == "violation" else " no-failing-input-found"))
        return 1
    print("%s %s: %d proof obligations in %d units discharged, %d bounded obligations in %d units, %d units not re-established, %.1fs" %
          (a.prop, a.tier, ev["coverage"]["discharged"], len(okp), ev["coverage"]["bounded_discharged"], len(bnd),
           len(degraded), time.time() - t0))
    return 0


sys.exit(main())
