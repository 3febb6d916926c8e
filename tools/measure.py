"""measure.py [-j N] [-t thorough] [--all] [SEED...]: runs the check of the property of each planted bug (or, with --all, every check)
against a scratch copy of /repo with the bug, and prints what caught it."""
import json, os, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; S = V + "/seeded"


def run(seed, prop, repo):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVID=repo + "/evid")
    t = time.time()
    try:
        p = subprocess.run(["python3", V + "/vrun.py", prop], capture_output=True, text=True, env=env, timeout=1700, cwd=V)
        out = p.stdout
        hit = p.returncode == 1 and ("VIOLATION property=%s " % prop) in out
        msg = next((l for l in out.splitlines() if l.startswith(prop + ":")), "")[:140]
        return hit, p.returncode, msg if hit else p.stderr[-200:] if p.returncode else "", time.time() - t
    except subprocess.TimeoutExpired:
        return False, -1, "timeout", time.time() - t


def one(job):
    seed, props = job
    d = tempfile.mkdtemp(prefix="meas.", dir="/tmp")
    os.chmod(d, 0o755)   # some checks run scripts as an unprivileged user
    repo = d + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    subprocess.run(["git", "-C", repo, "apply", "%s/%s/patch.diff" % (S, seed)], check=True)
    for p in props:
        h, rc, msg, dt = run(seed, p, repo)
        print("%-34s %s %s %ds %s" % (seed, p, "CAUGHT" if h else ("quiet" if rc == 0 else "RC%d" % rc), dt, msg), flush=True)
    shutil.rmtree(d)


a = sys.argv[1:]
j = 2
if "-j" in a:
    j = int(a[a.index("-j") + 1]); del a[a.index("-j"):a.index("-j") + 2]
allp = "--all" in a
a = [x for x in a if x != "--all"]
seeds = a or sorted(os.listdir(S))
ids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
jobs = [(s, ids if allp else [json.load(open("%s/%s/meta.json" % (S, s)))["property"]]) for s in seeds]
with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, jobs))
