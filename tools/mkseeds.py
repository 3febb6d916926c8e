"""mkseeds.py [ID...]: makes /verif/seeded/<id> from seedspecs.py after confirming each planted bug against /repo:
patch applies, touches original lines, builds, the stable tests pass, and the demo separates the two trees."""
import json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(__file__))
import seedspecs
R = "/repo"; S = "/verif/seeded"; BASE = "b46875b"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


DEMO = """#!/bin/bash
# cwd: /repo, built.  Exit 0: the property holds; anything else: it does not.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
%s
"""


def demo(sp):
    if "demo_sh" in sp:
        return DEMO % sp["demo_sh"]
    cfg = ""
    if sp.get("nobounds"):
        cfg = ('mkdir -p "$T/cfg/shiva" && sed "s/#define SHIVA_ENABLE_BOUNDS_CHECK/#undef SHIVA_ENABLE_BOUNDS_CHECK/" '
               '_build/shiva/include/shiva/ShivaConfig.hpp > "$T/cfg/shiva/ShivaConfig.hpp" || exit 2\n')
    body = cfg + '%s %s %s -I include -I _build/shiva/include "$D/demo.cpp" -o "$T/demo" || exit 1\n"$T/demo"' % (
        sp.get("cxx", "g++"), sp.get("flags", "-std=c++17 -O1"), '-I "$T/cfg"' if cfg else "")
    return DEMO % body


def make(sp):
    i = sp["id"]
    d = os.path.join(S, i)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
    for f, old, new in sp["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        n = sp.get("count", 1)
        if t.count(old) != n:
            sh("git -C %s checkout -- ." % R)
            return "edit matches %d times in %s" % (t.count(old), f)
        open(p, "w").write(t.replace(old, new))
    try:
        diff = sh("git -C %s diff" % R).stdout
        # removed lines must be original ones
        ok = False
        cur = None
        for f in {e[0] for e in sp["edits"]}:
            mine = {l.split(")", 1)[1][1:] for l in sh("git -C %s blame -s %s.. HEAD -- %s" % (R, BASE, f)).stdout.splitlines() if not l.startswith("^")}
            for l in sh("git -C %s diff -- %s" % (R, f)).stdout.splitlines():
                if l.startswith("-") and not l.startswith("---"):
                    if l[1:] in mine:
                        return "touches a line of ours: " + l
                    ok = True
        if not ok:
            return "removes no original line"
        td = tempfile.mkdtemp(prefix="seedmk.", dir="/tmp")
        open(td + "/demo.sh", "w").write(demo(sp)); os.chmod(td + "/demo.sh", 0o755)
        if "demo_cpp" in sp:
            open(td + "/demo.cpp", "w").write(sp["demo_cpp"])
        for n, t in sp.get("files", {}).items():
            open(os.path.join(td, n), "w").write(t)
        r = sh("bash /opt/vp/test.sh /tmp/seedout.json")
        res = json.load(open("/tmp/seedout.json"))
        if len(res["passed"]) < 70 or res["failed"]:
            return "tests: %d passed, failed %s %s" % (len(res["passed"]), res["failed"][:5], r.stdout[-1500:] if not res["passed"] else "")
        bad = sh(["bash", td + "/demo.sh"], cwd=R, timeout=300)
    finally:
        sh("git -C %s checkout -- ." % R)
    sh("bash /opt/vp/build.sh")
    good = sh(["bash", td + "/demo.sh"], cwd=R, timeout=300)
    if good.returncode != 0:
        return "demo fails on the unchanged tree: rc %d %s" % (good.returncode, (good.stdout + good.stderr)[-2500:])
    if bad.returncode == 0:
        return "demo passes with the patch"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    shutil.copytree(td, d); shutil.rmtree(td)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return "OK (bad rc %d: %s)" % (bad.returncode, (bad.stdout + bad.stderr).strip()[-160:].replace("\n", " | "))


if __name__ == "__main__":
    want = sys.argv[1:]
    for sp in seedspecs.SEEDS:
        if (want and sp["id"] in want) or (not want and not os.path.isdir(os.path.join(S, sp["id"]))):
            print(sp["id"], sp["property"], make(sp), flush=True)
