#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current source."""
import importlib
import json
import os
import shutil
import sys
import time
import traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "checks")]
import common
from common import Check, Missing, dump
from registry import CHECKS


def known():
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                _, prop, key, what = l.split(" ", 3)
                out.setdefault(prop.split("=")[1], {})[key.split("=", 1)[1]] = what
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = CHECKS[pid]
    d = dump()
    try:
        ck = Check(pid, tier, d)
        ck.known = set(known().get(pid, {}))
        for modname, fn in spec["run"]:
            m = importlib.import_module(modname)
            try:
                getattr(m, fn)(ck)
            except Missing as e:
                ck.missing.append(str(e))
            except Exception as e:
                ck.undecided("internal:%s.%s" % (modname, fn), "analysis stopped: %r %s" % (e, traceback.format_exc()[-700:]))
                ck.notes.append(traceback.format_exc()[-1500:])
    finally:
        if not os.environ.get("VERIF_DUMP"):
            shutil.rmtree(d, ignore_errors=True)
    kn = known().get(pid, {})
    fresh = [v for k, v in sorted(ck.viol.items()) if k not in kn]
    for k in sorted(ck.viol):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, ck.viol[k]["message"]))
    n_ok = sum(ck.obl.values())
    n_obl = n_ok + sum(u["n"] for u in ck.undec.values()) + len(ck.viol) + len(ck.missing)
    cov = {
        "obligations": n_obl, "discharged": n_ok,
        "checker_cmd": "python3 bin/check.py %s %s" % (pid, tier),
        "trusted_base": ["rustc nightly MIR export (driver/)", "engine/ (abstract interpreter, term normaliser)", "engine/intrin.py (model of the Rust standard library)", "reference tables in checks/"],
        "explanation": spec["rule"],
        "obligation_kinds": ck.obl,
        "samples": [{"rule": k, "case": x} for k, l in sorted(ck.samples.items()) for x in l][:60] or sorted(ck.obl)[:60],
        "undecided": [dict(key=u["key"], message=u["message"][:300], site=u["site"], n=u["n"]) for u in list(ck.undec.values())[:25]],
        "missing": ck.missing,
        "detail": ck.extra,
        "notes": ck.notes[:10],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumes", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        cov["detail"] = {"truncated": True}
        cov["notes"] = []
        s = json.dumps(ev, indent=1, default=str)[:64000]
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        f.write(s)
    print("%s: %d obligations, %d discharged, %d undecided kinds, %d violations, %.1fs" % (pid, n_obl, n_ok, len(ck.undec), len(fresh), time.time() - t0))
    if fresh:
        rp = os.path.join(V, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in fresh:
                f.write("property %s\nkey %s\nwhat  %s\nwhere %s\n" % (pid, v["key"], v["message"], v["site"]))
                for l in v["trace"]:
                    f.write("    " + l + "\n")
                f.write("\n")
        for v in fresh[:6]:
            print("  %s: %s [%s]" % (v["key"], v["message"][:300], v["site"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if not n_ok:
        print("WARNING: nothing could be decided about this tree: %s" % (ck.missing or list(ck.undec)[:5]))
    for u in list(ck.undec.values())[:8]:
        print("  undecided %s: %s [%s]" % (u["key"], u["message"][:160], u["site"]))
    for m in ck.missing:
        print("  missing %s" % m)


main()
