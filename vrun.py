#!/usr/bin/env python3
"""vrun.py ID: runs the check of one property.  VERIF_SEED, VERIF_TIER (quick|thorough) are honoured.
vrun.py --replay FILE: runs a saved failure again."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core  # noqa: E402
import checks  # noqa: E402


def main():
    a = sys.argv[1:]
    replay = None
    if a and a[0] == "--replay":
        replay = json.load(open(a[1]))
        prop = replay["property"]
    else:
        prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if replay:
        seed = replay.get("seed", seed)
        tier = replay.get("tier", tier)
    ck = core.Check(prop, tier, seed)
    nviol = 0
    rc = 0
    try:
        try:
            if replay:
                checks.replay(ck, replay)
            else:
                checks.CHECKS[prop](ck)
        except core.Violation as v:
            rep = dict(v.replay)
            rep["seed"], rep["tier"], rep["message"] = ck.seed, ck.tier, v.msg
            gen = {}
            for n in sorted(os.listdir(ck.scratch)):
                if n.startswith("gen") and n.endswith((".hpp", ".cpp")):
                    p = os.path.join(ck.scratch, n)
                    if os.path.getsize(p) < 400000:
                        gen[n] = open(p).read()
            known = [k for k in core.known_findings() if k[0] == prop and k[1] in v.msg]
            if known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[0][2]))
            else:
                nviol = 1
                path = core.save_replay(prop, rep, gen)
                print("%s: %s" % (prop, v.msg[:3000]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                rc = 1
        for k in core.known_findings():
            if k[0] == prop and k[1] in ck.known:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        if not replay:
            core.write_evidence(ck, nviol)
        if rc == 0:
            print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs" % (
                prop, tier, seed, ck.evaluations, len(ck.nontrivial), __import__("time").time() - ck.t0))
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ck.scratch)
        else:
            ck.cleanup()
    sys.exit(rc)


main()
