"""Runs the generated cases of one module with Hypothesis, in a process of its own that gives up its privileges first, so that
the scripts under test can reach nothing but its scratch directory.

engine.py MODULE PROPERTY --seed N --cases N --out REPORT --work DIR --repo DIR [--replay FILE]"""
import argparse
import hashlib
import importlib
import io
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534


class Violation(Exception):
    pass


class Context:
    def __init__(self, prop, work, repo, tier):
        self.prop, self.work, self.repo, self.tier = prop, work, repo, tier
        self.n = 0
        self.codes = {}
        self.known, self.seen = [], set()

    def violation(self, msg):
        """Raises, unless the failure is a recorded finding: then the case goes on."""
        for p, match in self.known:
            if p == self.prop and match in msg:
                self.seen.add(match)
                return
        raise Violation(msg)

    def fresh(self):
        """An empty directory for one case."""
        self.n += 1
        d = os.path.join(self.work, "case%d" % self.n)
        os.makedirs(d)
        return d

    def drop(self, d):
        if d.startswith(self.work + os.sep):
            shutil.rmtree(d, ignore_errors=True)

    def script(self, path, argv, cwd, env=None, argv0=None, cpu=8):
        """Runs a Python script as a program in a forked child. Returns (exit status, stdout, stderr); a negative status is a signal."""
        if path not in self.codes:
            with open(path) as f:
                self.codes[path] = compile(f.read(), path, "exec")
        fo, fe = os.path.join(self.work, "stdout"), os.path.join(self.work, "stderr")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
                resource.setrlimit(resource.RLIMIT_FSIZE, (32 << 20, 32 << 20))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                for n, fd in ((fo, 1), (fe, 2)):
                    h = os.open(n, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                    os.dup2(h, fd)
                h = os.open("/dev/null", os.O_RDONLY)
                os.dup2(h, 0)
                sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", write_through=True)
                sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", write_through=True)
                os.chdir(cwd)
                if env is not None:
                    os.environ.clear()
                    os.environ.update(env)
                sys.argv = [argv0 or path] + list(argv)
                sys.path[0] = os.path.dirname(path)
                sys.dont_write_bytecode = True
                rc = 0
                try:
                    exec(self.codes[path], {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
                except SystemExit as x:
                    if x.code is None:
                        rc = 0
                    elif isinstance(x.code, int):
                        rc = x.code & 255
                    else:
                        print(x.code, file=sys.stderr)
                        rc = 1
                except BaseException:
                    traceback.print_exc()
                    rc = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
            except BaseException:
                os._exit(119)
        _, st = os.waitpid(pid, 0)
        rc = os.waitstatus_to_exitcode(st)
        with open(fo, errors="replace") as f:
            o = f.read()
        with open(fe, errors="replace") as f:
            e = f.read()
        return rc, o, e


def snapshot(root, skip=()):
    """Everything below a directory: {path: (kind, mode, contents)}."""
    res = {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        ds[:] = [x for x in ds if os.path.normpath(os.path.join(rel, x)) not in skip]
        res[rel] = ("dir", os.lstat(d).st_mode & 0o777, None)
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            r = os.path.normpath(os.path.join(rel, f))
            if r in skip:
                continue
            if os.path.islink(p):
                res[r] = ("link", 0, os.readlink(p))
            else:
                with open(p, "rb") as h:
                    res[r] = ("file", os.lstat(p).st_mode & 0o777, h.read())
    return res


def difference(a, b):
    """Text that names the first differences of two snapshots."""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s %s" % ("created" if k not in a else "removed" if k not in b else "changed", k))
    return ", ".join(out[:6])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=100)
    ap.add_argument("--out", required=True)
    ap.add_argument("--work", required=True)
    ap.add_argument("--repo", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    report = open(a.out, "w")
    known = []
    for line in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) match=\"(.*?)\" ", line)
        if m:
            known.append(m.groups())
    rcase = json.load(open(a.replay)) if a.replay else None
    os.chmod(a.work, 0o755)
    if os.getuid() == 0:
        os.chown(a.work, NOBODY, NOBODY)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    os.environ["HOME"] = a.work
    os.environ["TMPDIR"] = a.work
    os.chdir(a.work)
    mod = importlib.import_module(a.module)
    ctx = Context(a.prop, a.work, a.repo, a.tier)
    ctx.known = known
    mod.prepare(ctx)
    run = getattr(mod, "run_" + a.prop.lower())

    if a.replay:
        try:
            run(rcase, ctx)
            res = {"failed": False}
        except Violation as x:
            res = {"failed": True, "msg": str(x)}
        json.dump(res, report)
        report.close()
        return

    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    st = {"evaluations": 0, "shrink": 0, "labels": {}, "hashes": set(), "samples": [], "failing": None, "msg": None}

    @hypothesis.seed(a.seed)
    @settings(max_examples=a.cases, database=None, deadline=None, phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False)
    @given(getattr(mod, "strategy_" + a.prop.lower())(ctx))
    def test(case):
        if st["failing"] is None:
            st["evaluations"] += 1
        else:
            st["shrink"] += 1
        try:
            labels, nontrivial = run(case, ctx)
        except Violation as x:
            st["failing"], st["msg"] = case, str(x)
            raise
        if st["failing"] is None:
            for l in labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            text = json.dumps(case, sort_keys=True)
            if nontrivial:
                st["hashes"].add(hashlib.sha1(text.encode()).hexdigest()[:16])
                if len(st["samples"]) < 6 and st["evaluations"] % 23 == 1:
                    st["samples"].append(text[:700])

    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        pass
    st["hashes"] = sorted(st["hashes"])
    st["known"] = sorted(ctx.seen)
    json.dump(st, report)
    report.close()


if __name__ == "__main__":
    sys.modules["engine"] = sys.modules["__main__"]
    main()
