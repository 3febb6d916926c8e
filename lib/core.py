"""Common machinery of the checks: scratch space, configuring and compiling against /repo, running the
generated-case engines, replay, evidence, verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4

CAMP = "-DSHIVA_ENABLE_CAMP"
# name: (compiler, standard, flags, bounds check)
CONFIGS = {
    "gcc17": ("g++", "c++17", ["-O1"], True),
    "clang20": ("clang++", "c++20", ["-O2", "-DNDEBUG"], False),
    "gcc20": ("g++", "c++20", ["-O3"], False),
    "gcc23": ("g++", "c++23", ["-O2", "-DNDEBUG"], True),
    "clang17": ("clang++", "c++17", ["-O0", "-DNDEBUG"], True),
    "clang23": ("clang++", "c++23", ["-O3"], False),
    "gcc20d": ("g++", "c++20", ["-O0"], True),
    "gcc17c": ("g++", "c++17", ["-O1", CAMP, "-I", os.path.join(HARNESS, "camp")], False),
    "clang17r": ("clang++", "c++17", ["-O3", "-DNDEBUG"], False),
}
QUICK = ["gcc17", "clang20", "clang23"]
QUICK_TWO = ["gcc17", "clang20"]    # where building takes long
THOROUGH = ["gcc17", "clang20", "gcc20", "gcc23", "clang17", "clang23"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]


class CheckError(Exception):
    """The check itself cannot give an answer."""


class Unsupported(Exception):
    """A program needs something that a stand-in of the harness lacks: not run, and no violation."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.msg = msg
        self.replay = replay


def sh(cmd, timeout=None, **kw):
    """Runs a command in a process group of its own; on timeout ends the group. Returns (rc, out, err)."""
    kw.setdefault("stdin", subprocess.DEVNULL)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return "timeout", o, e


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="shiva-%s-" % prop.lower())
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_count = 0
        self.samples = []
        self.labels = {}
        self.rule = ""
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = set()
        self._engine = None
        self.replaying = None
        self._cfg = {}
        self.env = {}

    # ---- scratch -----------------------------------------------------------------------------------
    def path(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def cleanup(self):
        if self.scratch.startswith(tempfile.gettempdir()) and "shiva-" in self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- bookkeeping -------------------------------------------------------------------------------
    def count(self, n=1, label=None):
        self.evaluations += n
        if label:
            self.labels[label] = self.labels.get(label, 0) + n

    def rng_for(self, key):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, key))

    def nontriv(self, key):
        self.nontrivial.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, s, limit=25):
        if len(self.samples) < limit:
            self.samples.append(s)

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- configuring -------------------------------------------------------------------------------
    def config_dir(self, bounds):
        """Directory with shiva/ShivaConfig.hpp, generated by the project's own CMake."""
        key = bool(bounds)
        if key in self._cfg:
            return self._cfg[key]
        b = self.path("cfg_%s" % ("on" if key else "off"), "x")
        b = os.path.dirname(b)
        rc, o, e = sh(["cmake", "-S", REPO, "-B", b, "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc",
                       "-DSHIVA_ENABLE_BOUNDS_CHECK=%s" % ("ON" if key else "OFF")], timeout=300)
        if rc != 0:
            rc, o, e = sh(["cmake", "-S", REPO, "-B", b, "-DSHIVA_ENABLE_BOUNDS_CHECK=%s" % ("ON" if key else "OFF")], timeout=300)
        if rc != 0:
            raise Violation("the project cannot be configured by CMake", {"kind": "configure", "stdout": o[-4000:], "stderr": e[-4000:]})
        inc = os.path.join(b, "include")
        if not os.path.exists(os.path.join(inc, "shiva", "ShivaConfig.hpp")):
            raise Violation("CMake did not generate shiva/ShivaConfig.hpp", {"kind": "configure", "stdout": o[-4000:]})
        self._cfg[key] = inc
        return inc

    def includes(self, bounds):
        return ["-I", self.config_dir(bounds), "-I", os.path.join(REPO, "include")]

    # ---- compiling ---------------------------------------------------------------------------------
    def toolchain_ok(self, compiler, std, flags):
        src = self.write("probe/probe.cpp", "#include <vector>\nint main(){ std::vector<int> v(3); return (int)v.size() - 3; }\n")
        rc, o, e = sh([compiler, "-std=" + std] + flags + [src, "-o", self.path("probe", "probe_" + compiler)], timeout=300)
        return rc == 0

    def compile_obj(self, src, obj, compiler, std, flags, bounds, extra=()):
        cmd = [compiler, "-std=" + std] + list(flags) + ["-w", "-I", HARNESS, "-I", self.scratch] + list(extra) + \
            (self.includes(bounds) if bounds is not None else []) + ["-c", src, "-o", obj]
        for attempt in range(2):
            rc, o, e = sh(cmd, timeout=700)
            if rc == 0:
                return
            if rc == 1 and attempt == 0 and " error: " in e:
                break
        if rc == 1 and "error" in e and self.toolchain_ok(compiler, std, list(flags)):
            errs = [l for l in e.splitlines() if "error" in l][:12]
            if CAMP in flags and any("camp" in l for l in errs):
                raise Unsupported("; ".join(errs[:3]))
            raise Violation("supported use of the library does not compile (%s -std=%s): %s" % (compiler, std, errs[0] if errs else ""),
                            {"kind": "compile", "cmd": cmd, "errors": errs, "stderr": e[:6000]})
        raise CheckError("compiler failed (%s): %s\n%s" % (rc, " ".join(cmd), e[-3000:]))

    def compiles(self, text, compiler, std, bounds, flags=()):
        """Whether a program is accepted (syntax and semantics only). Returns (accepted, messages)."""
        h = hashlib.sha1((text + compiler + std + str(bounds) + str(flags)).encode()).hexdigest()[:16]
        src = self.write("try/%s.cpp" % h, text)
        cmd = [compiler, "-std=" + std, "-w", "-fsyntax-only"] + list(flags) + ["-I", HARNESS, "-I", self.scratch] + self.includes(bounds) + [src]
        rc, o, e = sh(cmd, timeout=300)
        if rc == 0:
            return True, ""
        if rc == 1 and "error" in e and "internal compiler error" not in e:
            return False, e
        raise CheckError("compiler failed (%s): %s\n%s" % (rc, " ".join(cmd), e[-3000:]))

    def pool(self, thunks, workers=None):
        """Runs thunks in parallel; re-raises the first Violation, else the first error."""
        res = [None] * len(thunks)
        errs = []
        with cf.ThreadPoolExecutor(max_workers=workers or NCPU) as ex:
            fut = {ex.submit(t): k for k, t in enumerate(thunks)}
            for f in cf.as_completed(fut):
                try:
                    res[fut[f]] = f.result()
                except Exception as x:  # noqa: collected and re-raised below
                    errs.append((fut[f], x))
        errs.sort(key=lambda t: t[0])
        for _, x in errs:
            if isinstance(x, Violation):
                raise x
        if errs:
            raise errs[0][1]
        return res

    def engine(self, san=False):
        obj = self.path("engine%s.o" % ("_san" if san else ""))
        if not os.path.exists(obj):
            cmd = ["g++", "-std=c++17", "-O1", "-w", "-I", HARNESS, "-c", os.path.join(HARNESS, "engine_rc.cpp"), "-o", obj + ".tmp"]
            rc, o, e = sh(cmd, timeout=600)
            if rc != 0:
                raise CheckError("engine does not compile: " + e[-3000:])
            os.rename(obj + ".tmp", obj)
        return obj

    def build(self, name, sources, configs, extra_flags=(), gen=None):
        """Compiles harness sources for each configuration and links each with the engine.
        sources: list of (path, tag). Returns {config: binary}."""
        bounds = sorted({CONFIGS[c][3] for c in configs})
        thunks = [self.engine] + [lambda b=b: self.config_dir(b) for b in bounds]
        self.pool(thunks)
        sources = [(s if isinstance(s, tuple) else (s, ())) for s in sources]
        sources = [(s if os.path.isabs(s) else os.path.join(HARNESS, s), f) for s, f in sources]
        jobs, objs = [], {}
        for c in configs:
            comp, std, flags, b = CONFIGS[c]
            for k, (s, f) in enumerate(sources):
                obj = self.path("%s_%s_%d.o" % (name, c, k))
                objs.setdefault(c, []).append(obj)
                jobs.append(lambda s=s, f=f, obj=obj, comp=comp, std=std, flags=flags, b=b: self.compile_obj(
                    s, obj, comp, std, list(flags) + list(extra_flags) + list(f), b))
        self.pool(jobs)
        bins = {}
        for c in configs:
            comp = CONFIGS[c][0]
            out = self.path("%s_%s.bin" % (name, c))
            cmd = [comp] + [f for f in extra_flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")] + objs[c] + [self.engine(), "-lrapidcheck", "-o", out]
            rc, o, e = sh(cmd, timeout=300)
            if rc != 0:
                if "multiple definition" in e or "undefined reference" in e or "undefined symbol" in e or "duplicate symbol" in e:
                    raise Violation("a program that uses the library does not link", {"kind": "link", "stderr": e[:6000]})
                raise CheckError("link failed: " + e[-3000:])
            bins[c] = out
        return bins

    # ---- running -----------------------------------------------------------------------------------
    def run_env(self):
        env = dict(os.environ)
        env.pop("RC_PARAMS", None)
        env["ASAN_OPTIONS"] = "detect_container_overflow=0:abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
        env["TMPDIR"] = self.scratch
        env.update(self.env)
        return env

    def replay_case(self, binary, prop, case_text, timeout=120):
        """Returns (failed, message)."""
        f = self.path("replay_case_%s.txt" % hashlib.sha1((prop + case_text).encode()).hexdigest()[:12])
        with open(f, "w") as h:
            h.write(case_text)
        rc, o, e = sh([binary, "--replay", prop, f], timeout=timeout, env=self.run_env())
        if rc == 0:
            return False, ""
        if rc == 1:
            m = re.search(r"^FAIL .*", o, re.M)
            return True, m.group(0) if m else o[-500:]
        if rc == 3:
            raise CheckError("replay: " + e[-1000:])
        return True, "the process ended with %s: %s" % (rc, (e or o)[-1500:])

    def run_bins(self, name, bins, cases, thorough_cases=None, nshards=None, timeout=None):
        """Runs each binary in shards in parallel; collects coverage; raises Violation on a reproduced failure."""
        rp = self.replaying
        if rp and rp.get("kind") == "case":
            if rp["harness"] == name and rp["config"] in bins:
                self.evaluations += 1
                failed, msg = self.replay_case(bins[rp["config"]], rp["prop"], rp["case"])
                if failed:
                    raise Violation("%s [%s] %s" % (rp["pretty"], rp["config"], msg), {k: rp[k] for k in (
                        "kind", "config", "harness", "prop", "case", "pretty", "msg") if k in rp})
            return
        n = cases if self.quick else (thorough_cases or cases * 20)
        timeout = timeout or (800 if self.quick else 3 * 3600)
        nshards = nshards or max(1, NCPU // len(bins))
        jobs = []
        for ci, (c, b) in enumerate(sorted(bins.items())):
            for s in range(nshards):
                jobs.append((c, b, ci, s))
        out = []

        def one(c, b, ci, s):
            rep = self.path("rep_%s_%s_%d.json" % (name, c, s))
            cur = self.path("cur_%s_%s_%d.txt" % (name, c, s))
            rc, o, e = sh([b, "--seed", str(self.seed * 1000003 + ci), "--cases", str(n), "--shard", str(s), "--nshards", str(nshards),
                           "--out", rep, "--cur", cur], timeout=timeout, env=self.run_env())
            return c, b, rc, o, e, rep, cur

        res = self.pool([lambda j=j: one(*j) for j in jobs])
        evals = 0
        shrink = 0
        props = 0
        failures = []
        for c, b, rc, o, e, rep, cur in res:
            if os.path.exists(rep):
                with open(rep) as f:
                    j = json.load(f)
                evals += j["evaluations"]
                shrink += j["shrink_evaluations"]
                props += j["props"]
                for k, v in j["labels"].items():
                    self.labels[k] = self.labels.get(k, 0) + v
                for s in j["samples"][:4]:
                    self.sample("%s: %s" % (c, s))
                self.nontrivial.update(j["hashes"])
                for fl in j["failures"]:
                    failures.append((c, b, fl))
            else:
                if rc in (0, 1, 3):
                    raise CheckError("engine gave no report (rc %s): %s" % (rc, e[-2000:]))
                with open(cur, "rb") as f:
                    text = f.read().split(b"\0")[0].decode(errors="replace")
                if not text:
                    raise CheckError("process ended with %s before any case: %s" % (rc, e[-2000:]))
                if rc == "timeout":
                    raise CheckError("run exceeded %ss: %s" % (timeout, text[:300]))
                pn = text.split(" i=[")[0]
                failures.append((c, b, {"prop": pn, "case": text, "pretty": text, "msg": "the process ended with %s: %s" % (rc, e[-1200:]), "crash": True}))
        self.evaluations += evals
        self.extra["instances"] = self.extra.get("instances", 0) + props
        if shrink:
            self.extra["shrink_evaluations"] = self.extra.get("shrink_evaluations", 0) + shrink
        for c, b, fl in failures:
            if fl.get("crash"):
                fl = self.shrink_crash(b, fl)
            again = [self.replay_case(b, fl["prop"], fl["case"]) for _ in range(3)]
            hits = [m for f, m in again if f]
            if not hits:
                self.extra.setdefault("unreproduced", []).append(fl["pretty"])
                self.log("not reproduced in 3 replays:", fl["pretty"], fl["msg"])
                continue
            raise Violation("%s [%s] %s" % (fl["pretty"], c, fl["msg"] if not fl.get("crash") else hits[0]),
                            {"kind": "case", "config": c, "harness": name, "prop": fl["prop"], "case": fl["case"],
                             "pretty": fl["pretty"], "msg": fl["msg"], "reproduced": "%d/3" % len(hits)})

    def shrink_crash(self, binary, fl):
        """Greedy reduction of a case that ends the process."""
        m = re.match(r"(.*) i=\[(.*?)\] r=\[(.*?)\] t=\[(.*?)\]", fl["case"])
        if not m:
            return fl
        name = m.group(1)
        I, R, T = m.group(2).split(), m.group(3).split(), m.group(4).split()

        def text(I, R, T):
            return "%s i=[%s ] r=[%s ] t=[%s ]" % (name, " ".join(I), " ".join(R), " ".join(T))

        def bad(I, R, T):
            try:
                return self.replay_case(binary, name, text(I, R, T))[0]
            except CheckError:
                return False
        if not bad(I, R, T):
            return fl
        budget = time.time() + 20
        k = len(T)
        while k > 0 and time.time() < budget:
            j = 0
            while j + k <= len(T) and time.time() < budget:
                t2 = T[:j] + T[j + k:]
                if bad(I, R, t2):
                    T = t2
                else:
                    j += k
            k //= 2
        fl = dict(fl)
        fl["case"] = text(I, R, T)
        fl["pretty"] = fl["case"]
        return fl

    def libraries(self, name, src, parts, configs):
        """One shared library per configuration and part. Returns [(configuration, path)]."""
        self.pool([lambda b=b: self.config_dir(b) for b in sorted({CONFIGS[c][3] for c in configs})])
        jobs, out, lacking = [], [], {}
        for p in parts:
            for c in configs:
                comp, std, flags, b = CONFIGS[c]
                obj = self.path("%s_%s_%s.o" % (name, c, p))
                so = obj[:-2] + ".so"
                fl = list(flags) + ["-fPIC", "-fvisibility=hidden", "-DVH_PART=%s" % p] + (["-fno-gnu-unique"] if comp == "g++" else [])

                def one(c=c, obj=obj, so=so, comp=comp, std=std, fl=fl, b=b):
                    try:
                        self.compile_obj(os.path.join(HARNESS, src), obj, comp, std, fl, b)
                    except Unsupported as x:
                        lacking[c] = str(x)
                        return
                    rc, o, e = sh([comp, "-shared", "-Wl,-Bsymbolic", obj, "-o", so], timeout=300)
                    if rc != 0:
                        raise CheckError("link failed: " + e[-3000:])
                jobs.append(one)
                out.append((c, so))
        self.pool(jobs + [self.engine])
        for c, m in lacking.items():
            self.log("not run, the stand-in for CAMP lacks something: %s: %s" % (c, m))
        return [(c, so) for c, so in out if c not in lacking]

    # ---- standard flow -----------------------------------------------------------------------------
    def pbt(self, name, sources, cases, thorough_cases=None, configs=None, extra_flags=()):
        cfgs = configs or (QUICK if self.quick else THOROUGH)
        if self.replaying and self.replaying.get("kind") == "case":
            if self.replaying["harness"] != name:
                return {}
            cfgs = [c for c in cfgs if c == self.replaying["config"]]
        bins = self.build(name, sources, cfgs, extra_flags)
        self.log("built", ", ".join(sorted(bins)))
        self.run_bins(name, bins, cases, thorough_cases)
        self.extra.setdefault("configurations", [])
        for c in cfgs:
            comp, std, flags, b = CONFIGS[c]
            d = "%s -std=%s %s bounds check %s" % (comp, std, " ".join(flags), "on" if b else "off")
            if d not in self.extra["configurations"]:
                self.extra["configurations"].append(d)
        return bins


# ---- verdicts --------------------------------------------------------------------------------------------
def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=\"(.*?)\" (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def write_evidence(ck, violations):
    os.makedirs(EVID, exist_ok=True)
    cov = {"evaluations": ck.evaluations, "distinct_nontrivial": len(ck.nontrivial), "rule": ck.rule, "samples": ck.samples}
    if ck.labels:
        cov["labels"] = ck.labels
    cov.update(ck.extra)
    ev = {"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": "exploration", "coverage": cov,
          "assumptions": ck.assumptions, "wall_s": round(time.time() - ck.t0, 2), "violations": violations}
    tmp = os.path.join(EVID, ".%s.tmp" % ck.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, "%s.json" % ck.prop))


def save_replay(prop, replay, gen_files):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    replay = dict(replay)
    replay["property"] = prop
    replay["generated"] = gen_files
    h = hashlib.sha1(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(replay, f, indent=1)
    return p


# ---- Hypothesis workers ------------------------------------------------------------------------------------
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
HYP = os.path.join(VERIF, "hyp")


def hyp(ck, module, cases, thorough_cases, workers=None, timeout=None):
    """Runs the cases of a Hypothesis module in parallel processes; each gives up its privileges and works in a folder of its own."""
    os.chmod(ck.scratch, 0o755)
    prop = ck.prop
    n = cases if ck.quick else thorough_cases
    workers = workers or NCPU
    timeout = timeout or (700 if ck.quick else 4 * 3600)

    def start(tag, args, case=None):
        work = ck.path("work_%s" % tag, "x")
        work = os.path.dirname(work)
        rep = ck.path("rep_%s.json" % tag)
        cmd = [PY, "-B", os.path.join(HYP, "engine.py"), module, prop, "--out", rep, "--work", work, "--repo", REPO, "--tier", ck.tier] + args
        if case is not None:
            cmd += ["--replay", ck.write("case_%s.json" % tag, json.dumps(case))]
        env = dict(os.environ, PYTHONHASHSEED="0")
        rc, o, e = sh(cmd, timeout=timeout, env=env)
        if rc != 0 or not os.path.exists(rep) or not os.path.getsize(rep):
            raise CheckError("worker %s ended with %s: %s" % (tag, rc, (o + e)[-3000:]))
        shutil.rmtree(work, ignore_errors=True)
        with open(rep) as f:
            return json.load(f)

    def confirm(case, msg):
        again = [start("replay%d" % k, [], case) for k in range(3)]
        hits = [a["msg"] for a in again if a["failed"]]
        if not hits:
            ck.extra.setdefault("unreproduced", []).append(msg)
            return
        raise Violation(hits[0], {"kind": "hypothesis", "module": module, "case": case, "reproduced": "%d/3" % len(hits)})

    rp = ck.replaying
    if rp:
        if rp.get("kind") == "hypothesis" and rp["module"] == module:
            ck.evaluations += 1
            r = start("replay", [], rp["case"])
            if r["failed"]:
                raise Violation(r["msg"], {"kind": "hypothesis", "module": module, "case": rp["case"]})
        return
    res = ck.pool([lambda w=w: start("w%d" % w, ["--seed", str(ck.seed * 1000 + w), "--cases", str(n)]) for w in range(workers)], workers)
    for w, r in enumerate(res):
        ck.evaluations += r["evaluations"]
        if r["shrink"]:
            ck.extra["shrink_evaluations"] = ck.extra.get("shrink_evaluations", 0) + r["shrink"]
        for k, v in r["labels"].items():
            ck.labels[k] = ck.labels.get(k, 0) + v
        ck.nontrivial.update(r["hashes"])
        ck.known.update(r["known"])
        for s in r["samples"][:3]:
            ck.sample(s)
    for r in sorted((r for r in res if r["failing"] is not None), key=lambda r: len(json.dumps(r["failing"]))):
        confirm(r["failing"], r["msg"])
