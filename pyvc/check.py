"""Command line of the checks: discharges the obligations of one property, cross-checks on concrete inputs, writes the evidence."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"] = tier
    try:
        from . import load                                        # noqa: F401
        from . import props, vc
    except BaseException as e:                                    # the package does not even import
        import_error = "%s: %s" % (type(e).__name__, e)
        return report(pid, tier, seed, t0, None, None, [("import", "the package cannot be loaded: %s" % import_error)], None, [])
    led = vc.Ledger()
    led.tier = tier
    p = props.PROPS[pid]
    for name, g in p.groups:
        try:
            n = len(led.results)
            g(led)
            if len(led.results) == n:
                led.fail(name, "no obligation was generated")
        except vc.Unsupported as e:
            led.fail(name, "unsupported construct: %s" % e)
        except Exception as e:
            led.fail(name, "%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:]))
    failed = led.failed()
    debug = os.environ.get("VERIF_DEBUG")
    if debug:
        for r in failed:
            print("FAILED", r.name, "|", r.detail[:int(debug) if debug.isdigit() and int(debug) > 1 else 300])
    t1 = time.time()
    if tier == "quick":
        budget = 100 if failed else p.budget
    else:
        budget = 400 if failed else 10 * p.budget
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    conc = None
    from . import recipe
    p.recipes = [x for r in failed for x in recipe.parse(r.detail)]
    for r in failed: r.detail = recipe.strip(r.detail)
    try:
        conc = p.search(budget, seed, [r.name for r in failed])
    except Exception:
        conc = {"evaluations": 0, "error": traceback.format_exc()[-1500:], "violation": None}
        if debug: print(conc["error"])
    return report(pid, tier, seed, t0, led, conc, [(r.name, r.detail) for r in failed], p, known(pid))


def known(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: property=%s " % pid):])
    except OSError:
        pass
    return out


def report(pid, tier, seed, t0, led, conc, failed, p, findings):
    edir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f))
    viol = conc.get("violation") if conc else None
    code = 0
    if viol or failed:
        path = os.path.join(rdir, "%s.json" % pid)
        data = {"property": pid, "failed_obligations": [{"obligation": n, "verifier_output": d} for n, d in failed]}
        if viol:
            data["failing_input"] = viol["input"]
            data["what_fails"] = viol["text"]
            data["replay_cmd"] = "/verif/replay.sh %s" % path
        json.dump(data, open(path, "w"), indent=1, default=str)
        for n, d in failed[:8]:
            print("obligation not discharged: %s: %s" % (n, str(d)[:400].replace("\n", " ")))
        if len(failed) > 8:
            print("... and %d more" % (len(failed) - 8))
        if viol:
            print("failing input: %s" % viol["text"])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        code = 1
    n = len(led.results) if led else 0
    d = sum(1 for r in led.results if r.status == "proved") if led else 0
    by = {}
    for r in (led.results if led else []):
        if r.status == "proved":
            k = by.setdefault(r.solver, {"obligations": 0, "seconds": 0.0})
            k["obligations"] += 1
            k["seconds"] = round(k["seconds"] + r.seconds, 3)
    cov = {"obligations": n, "discharged": d, "checker_cmd": "/verif/check.sh %s %s" % (pid, tier),
           "trusted_base": sorted(p.trusted(led)) if p and led else [],
           "back_ends": by,
           "functions_under_contract": {k: v for k, v in sorted(led.functions.items())} if led else {},
           "obligation_groups": [n_ for n_, _ in p.groups] if p else [],
           "bounded_cross_check": {k: v for k, v in (conc or {}).items() if k != "violation"}}
    if p is not None and p.level != "proof":
        cov.update({k: (conc or {}).get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "samples") if (conc or {}).get(k) is not None})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.level if p else "proof", "coverage": cov,
          "assumptions": sorted(led.assumptions | set(p.assumptions)) if led and p else [], "wall_s": round(time.time() - t0, 2), "violations": 1 if code else 0}
    json.dump(ev, open(os.path.join(edir, "%s.json" % pid), "w"), indent=1, default=str)
    print("%s: %d of %d obligations discharged, %s concrete cases, %.1f s" % (pid, d, n, (conc or {}).get("evaluations", 0), time.time() - t0))
    return code


def replay(path):
    from . import load, props                                     # noqa: F401
    d = json.load(open(path))
    if "failing_input" not in d:
        print("no failing input was found; obligations not discharged:")
        for o in d["failed_obligations"]:
            print(" ", o["obligation"], "|", o["verifier_output"][:2000])
        return 1
    text = props.PROPS[d["property"]].replay(d["failing_input"])
    print("still fails: %s" % text if text else "does not fail")
    return 1 if text else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        code = replay(sys.argv[2])
    else:
        try:
            code = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
        except BaseException:
            traceback.print_exc()
            code = 2
    sys.stdout.flush()
    os._exit(code)
