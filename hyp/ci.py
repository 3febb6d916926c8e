"""The scripts of the continuous integration, with recording stand-ins for docker, make, ctest and the configuration script (C36)."""
import os
import re
import shutil
import signal
import subprocess

from hypothesis import strategies as st

from engine import Violation

INNER, OUTER = "ci_build_and_test_in_container.sh", "ci_build_and_test.sh"
RECORD = """#!/bin/sh
n=0
while ! mkdir "$VH_RECORD/$n" 2> /dev/null; do n=$((n+1)); done
echo %(name)s > "$VH_RECORD/$n/name"
pwd -P > "$VH_RECORD/$n/cwd"
for a in "$@"; do printf '%%s\\0' "$a" >> "$VH_RECORD/$n/args"; done
env -0 > "$VH_RECORD/$n/env"
%(act)s
"""
MAKE = """kind=make
for a in "$@"; do case "$a" in -C) shift_=1;; shiva_coverage) kind=coverage;; esac; done
case "$VH_FAIL" in $kind:*) exit "${VH_FAIL#*:}";; esac
if [ $kind = coverage ] && [ "$VH_FAIL" != copy ]; then echo covered > shiva_coverage.info.cleaned; fi
exit 0"""
SIMPLE = """case "$VH_FAIL" in %s:*) exit "${VH_FAIL#*:}";; esac
exit 0"""
CONFIG = """#!/usr/bin/env python3
import os, sys
n = 0
while True:
    d = os.path.join(os.environ["VH_RECORD"], str(n))
    try:
        os.mkdir(d)
        break
    except FileExistsError:
        n += 1
open(d + "/name", "w").write("config\\n")
open(d + "/cwd", "w").write(os.getcwd() + "\\n")
open(d + "/args", "w").write("".join(a + "\\0" for a in sys.argv[1:]))
f = os.environ.get("VH_FAIL", "")
if f.startswith("config:"):
    sys.exit(int(f[7:]))
for k, a in enumerate(sys.argv):
    if a in ("-bp", "--buildpath"):
        os.makedirs(sys.argv[k + 1], exist_ok=True)
"""
CHECKS = ["testUncrustifyCheck", "testDoxygenCheck", "testCppCheck", "testClangTidy"]
UNITS = ["testCArray", "blt_gtest_smoke", "testParentElement", "testLinearTransform", "testSpacing"]
ONLY = {"--test-code-style": {"testUncrustifyCheck"}, "--test-doxygen": {"testDoxygenCheck"}, "--code-checks": {"testCppCheck", "testClangTidy"}}


def prepare(ctx):
    ctx.sh = {}
    for n in (INNER, OUTER):
        with open(os.path.join(ctx.repo, "scripts", n)) as f:
            ctx.sh[n] = f.read()


@st.composite
def strategy(draw):
    inner = draw(st.sampled_from([True, True, False]))
    values = {
        "HOST_CONFIG": draw(st.sampled_from(["hostconfigs/environment.cmake", "hostconfigs/a/b.cmake", "/opt/x.cmake", "hostconfigs/environment.cmake", "", None])),
        "CMAKE_BUILD_TYPE": draw(st.sampled_from(["Debug", "Release", "RelWithDebInfo", "Release", "", None])),
        "NPROC": draw(st.sampled_from(["1", "4", "64", None, ""] if not inner else ["1", "4", "64"])),
        "CMAKE_C_COMPILER": draw(st.sampled_from(["gcc", "/usr/bin/clang", None])),
        "CMAKE_CXX_COMPILER": draw(st.sampled_from(["g++", "/usr/bin/clang++", "/opt/rh/gcc-toolset-13/root/bin/g++", None])),
        "ENABLE_CUDA": draw(st.sampled_from(["ON", "OFF", "", None])),
        "CMAKE_CUDA_ARCHITECTURES": draw(st.sampled_from(["86", "", None])),
    }
    mode = draw(st.sampled_from([[], ["--test-code-style"], ["--test-doxygen"], ["--code-checks"], ["--build-exe"], ["--build-exe", "--disable-unit-tests"],
                                 ["--code-coverage"], ["--build-exe", "--code-coverage"], ["--code-coverage", "--code-coverage", "--build-exe"], ["--build-exe", "--code-coverage", "--disable-unit-tests"], ["--disable-unit-tests"]]))
    return {
        "inner": inner, "env": values, "args": draw(st.permutations(mode)),
        "fail": draw(st.sampled_from(["", "", "config", "make", "coverage", "copy", "ctest", "cp"])),
        "status": draw(st.sampled_from([1, 2, 8, 77, 127, 128, 130, 137, 139, 255])),
        "cwd": draw(st.sampled_from(["t/Shiva", "elsewhere", "t", "t/Shiva/scripts"])), "call": draw(st.sampled_from(["abs", "rel"])),
        "there": draw(st.booleans()),
        "docker": {"repository": draw(st.sampled_from(["geosx/ubuntu:22.04-123", "geosx/ubi:8.10", "image"])),
                   "run": draw(st.sampled_from([None, "", "--cpus=1 --memory=64g --runtime=nvidia --gpus all", "--cpus=2", "--name x --privileged"])),
                   "workspace": draw(st.sampled_from(["ws", "a/b-c.1"])), "status": draw(st.sampled_from([0, 0, 1, 2, 125, 137]))},
    }


def strategy_c36(ctx):
    return strategy()


def bash(script, argv, cwd, env):
    p = subprocess.Popen(["bash", script] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Violation("%s %s: does not end" % (os.path.basename(script), " ".join(argv)))
    return p.returncode, out.decode(errors="replace")


def records(rec):
    res = []
    for n in sorted(os.listdir(rec), key=int):
        d = os.path.join(rec, n)

        def read(name, d=d):
            try:
                with open(os.path.join(d, name)) as f:
                    return f.read()
            except FileNotFoundError:
                return ""
        env = dict(x.split("=", 1) for x in read("env").split("\0") if "=" in x)
        res.append((read("name").strip(), read("args").split("\0")[:-1], read("cwd").strip(), env))
    return res


def selected(args):
    """The tests that a call of ctest runs."""
    names = set(CHECKS + UNITS)
    k = 0
    while k < len(args):
        a = args[k]
        for o in ("-R", "--tests-regex", "-E", "--exclude-regex"):
            if a == o or a.startswith(o + "=") or (len(o) == 2 and a.startswith(o)):
                rx = args[k + 1] if a == o else a[len(o):].lstrip("=")
                k += a == o
                keep = {n for n in names if re.search(rx, n)}
                names = keep if o in ("-R", "--tests-regex") else names - keep
                break
        k += 1
    return names


def run_c36(case, ctx):
    top = ctx.fresh()
    try:
        return inner(case, ctx, top) if case["inner"] else outer(case, ctx, top)
    finally:
        ctx.drop(top)


def setup(case, ctx, top):
    root = os.path.join(top, "t", "Shiva")
    os.makedirs(os.path.join(root, "scripts"))
    os.makedirs(os.path.join(top, "elsewhere"))
    for n, t in ctx.sh.items():
        with open(os.path.join(root, "scripts", n), "w") as f:
            f.write(t.replace("/tmp/", os.path.join(top, "t") + "/"))       # the scripts name folders below /tmp
        os.chmod(os.path.join(root, "scripts", n), 0o755)
    with open(os.path.join(root, "scripts", "config-build.py"), "w") as f:
        f.write(CONFIG)
    os.chmod(os.path.join(root, "scripts", "config-build.py"), 0o755)
    binp, rec = os.path.join(top, "bin"), os.path.join(top, "record")
    os.makedirs(binp)
    os.makedirs(rec)
    for name, act in (("make", MAKE), ("ctest", SIMPLE % "ctest"), ("docker", "exit %d" % case["docker"]["status"]), ("cmake", "exit 1")):
        with open(os.path.join(binp, name), "w") as f:
            f.write(RECORD % {"name": name, "act": act})
        os.chmod(os.path.join(binp, name), 0o755)
    if case["fail"] == "cp":
        with open(os.path.join(binp, "cp"), "w") as f:
            f.write("#!/bin/sh\nexit %d\n" % case["status"])
        os.chmod(os.path.join(binp, "cp"), 0o755)
    env = {k: v for k, v in case["env"].items() if v is not None}
    fail = case["fail"]
    env.update(PATH=binp + ":/usr/bin:/bin", VH_RECORD=rec, HOME=top, TMPDIR=os.path.join(top, "t"), LC_ALL="C.UTF-8",
               VH_FAIL=fail if fail in ("", "copy", "cp") else "%s:%d" % (fail, case["status"]))
    return root, rec, env


def inner(case, ctx, top):
    root, rec, env = setup(case, ctx, top)
    if case["there"]:
        with open(os.path.join(root, "shiva_coverage.info.cleaned"), "w") as f:
            f.write("of another run\n")
    cwd = os.path.join(top, case["cwd"])
    script = os.path.join(root, "scripts", INNER)
    rc, out = bash(script if case["call"] == "abs" else os.path.relpath(script, cwd), list(case["args"]), cwd, env)
    calls = records(rec)
    v = case["env"]
    what = "%s %s (HOST_CONFIG=%r, CMAKE_BUILD_TYPE=%r, failing: %s)" % (INNER, " ".join(case["args"]), v["HOST_CONFIG"], v["CMAKE_BUILD_TYPE"], case["fail"] or "nothing")
    names = [c[0] for c in calls]
    if not v["HOST_CONFIG"] or not v["CMAKE_BUILD_TYPE"]:
        if rc == 0 or calls:
            raise Violation("%s: exits with %d after %s" % (what, rc, names))
        return ["refused"], False
    args = set(case["args"])
    cover = "--code-coverage" in args
    if names[:1] != ["config"] or names.count("config") != 1:
        raise Violation("%s: does not configure first, and once: %s" % (what, names))
    cargs = list(calls[0][1])
    if os.path.realpath(calls[0][2]) != os.path.realpath(root):
        raise Violation("%s: configures in %s" % (what, calls[0][2]))
    opt, rest, k = {}, [], 0
    while k < len(cargs):
        o = {"-hc": "hc", "--hostconfig": "hc", "-bt": "bt", "--buildtype": "bt", "-bp": "bp", "--buildpath": "bp", "-ip": "ip", "--installpath": "ip"}.get(cargs[k])
        if o and k + 1 < len(cargs):
            opt[o] = cargs[k + 1]
            k += 2
        else:
            rest.append(cargs[k])
            k += 1
    if opt.get("hc") not in (v["HOST_CONFIG"], os.path.join(root, v["HOST_CONFIG"])) or opt.get("bt") != v["CMAKE_BUILD_TYPE"] or not opt.get("bp") or not opt.get("ip"):
        raise Violation("%s: configures with %r" % (what, cargs))
    got = [re.match(r"-DENABLE_COVERAGE(:BOOL)?=(.*)$", x) for x in rest]
    if len(rest) != 1 or not got[0] or got[0].group(2) != ("ON" if cover else "OFF"):
        raise Violation("%s: configures with %r instead of coverage %s" % (what, rest, "ON" if cover else "OFF"))
    bp = os.path.realpath(os.path.join(root, opt["bp"]))
    # what was done, in order
    done = ["config"]
    for name, a, c, _ in calls[1:]:
        where = c
        for k, x in enumerate(a):
            if x in ("-C", "--directory", "--test-dir") and k + 1 < len(a):
                where = os.path.join(c, a[k + 1])
        if os.path.realpath(where) != bp:
            raise Violation("%s: runs %s in %s instead of the build folder" % (what, name, where))
        if name == "make":
            t = [x for x in a if not x.startswith("-") and "=" not in x and not x.isdigit()]
            if t not in ([], ["all"], ["shiva_coverage"]):
                raise Violation("%s: makes %r" % (what, t))
            if t != ["shiva_coverage"]:
                text = " ".join(a)
                m = re.search(r"(?:^| )(?:-j ?|--jobs[= ])(\d*)", text)
                if m and m.group(1) != v["NPROC"]:
                    raise Violation("%s: builds with %r although NPROC is %s" % (what, a, v["NPROC"]))
            kind = "coverage" if t == ["shiva_coverage"] else "make"
            if not (kind == "make" and done[-1] == "make"):
                done.append(kind)
        elif name == "ctest":
            done.append(("ctest", tuple(sorted(selected(a)))))
        else:
            raise Violation("%s: runs %s %r" % (what, name, a))
    single = [x for x in ONLY if x in args]
    want = ["config"]
    if single:
        want.append(("ctest", tuple(sorted(ONLY[single[0]]))))
    else:
        if cover:
            want += ["make", "coverage", "copy"]
        if "--build-exe" in args:
            want.append("make")
            if "--disable-unit-tests" not in args:
                want.append(("ctest", tuple(sorted(UNITS))))
    # the second of two builds may be left out
    fails = False
    upto = []
    for w in want:
        kind = w[0] if isinstance(w, tuple) else w
        upto.append(w)
        if kind == case["fail"] or (kind == "copy" and case["fail"] == "cp"):
            fails = True
            break
    seen = [w for w in upto if w != "copy"]

    def merged(s):
        r, built = [], False
        for w in s:
            if w == "make" and built:
                continue
            built = built or w == "make"
            r.append(w)
        return r
    if merged(done) != merged(seen):
        raise Violation("%s: runs %s instead of %s" % (what, done, seen))
    if fails and rc == 0:
        raise Violation("%s: exits with success" % what)
    if not fails and rc != 0:
        raise Violation("%s: exits with %d although every step succeeded: %s" % (what, rc, out[-300:]))
    if "copy" in upto and not fails:
        try:
            with open(os.path.join(root, "shiva_coverage.info.cleaned")) as f:
                ok = f.read() == "covered\n"
        except FileNotFoundError:
            ok = False
        if not ok:
            raise Violation("%s: does not leave the result of the coverage in the source tree" % what)
    return ["a step fails" if fails else "every step succeeds"] + (["coverage"] if cover else []), len(want) > 1


def outer(case, ctx, top):
    root, rec, env = setup(case, ctx, top)
    d = case["docker"]
    ws = os.path.join(top, d["workspace"])
    os.makedirs(ws)
    env["GITHUB_WORKSPACE"] = ws
    env["DOCKER_REPOSITORY"] = d["repository"]
    if d["run"] is not None:
        env["DOCKER_RUN_ARGS"] = d["run"]
    env["BUILD_AND_TEST_ARGS"] = " ".join(case["args"])
    cwd = os.path.join(top, case["cwd"])
    script = os.path.join(root, "scripts", OUTER)
    rc, out = bash(script if case["call"] == "abs" else os.path.relpath(script, cwd), [], cwd, env)
    what = "%s (%s)" % (OUTER, ", ".join("%s=%s" % kv for kv in sorted(env.items()) if kv[0] not in ("PATH", "HOME", "TMPDIR", "LC_ALL", "VH_RECORD", "VH_FAIL")))
    calls = [c for c in records(rec) if c[0] == "docker" and c[1][:1] == ["run"]]
    if len(calls) != 1:
        raise Violation("%s: runs %d containers" % (what, len(calls)))
    _, a, _, denv = calls[0]
    a = a[1:]
    extra = (d["run"] or "").split()
    for k in range(len(a) - len(extra) + 1):
        if extra and a[k:k + len(extra)] == extra:
            del a[k:k + len(extra)]
            extra = []
            break
    if extra:
        raise Violation("%s: the container does not get the options %r: %r" % (what, extra, a))
    cenv, vol, k = {}, [], 0
    while k < len(a) and a[k].startswith("-"):
        o, _, val = a[k].partition("=")
        if o in ("-e", "--env", "-v", "--volume", "-w", "--workdir", "--cap-add", "--name", "-u", "--user") and not val:
            k += 1
            val = a[k]
        if o in ("-e", "--env"):
            n, eq, x = val.partition("=")
            if eq:
                cenv[n] = x
            elif n in denv:
                cenv[n] = denv[n]
        elif o in ("-v", "--volume"):
            vol.append(val.split(":"))
        k += 1
    image, command = (a[k], a[k + 1:]) if k < len(a) else (None, [])
    if image != d["repository"]:
        raise Violation("%s: runs the image %r" % (what, image))
    v = case["env"]
    expect = {"HOST_CONFIG": v["HOST_CONFIG"], "CMAKE_BUILD_TYPE": v["CMAKE_BUILD_TYPE"], "CMAKE_C_COMPILER": v["CMAKE_C_COMPILER"], "CC": v["CMAKE_C_COMPILER"],
              "CMAKE_CXX_COMPILER": v["CMAKE_CXX_COMPILER"], "CXX": v["CMAKE_CXX_COMPILER"], "ENABLE_CUDA": v["ENABLE_CUDA"], "CMAKE_CUDA_ARCHITECTURES": v["CMAKE_CUDA_ARCHITECTURES"]}
    for n, x in expect.items():
        if cenv.get(n, "") != (x or ""):
            raise Violation("%s: %s is %r in the container" % (what, n, cenv.get(n)))
    np = cenv.get("NPROC", "")
    if v["NPROC"] is None and np == "":
        ctx.violation("%s: NPROC, which is not set outside, is empty in the container (%s)" % (OUTER, what))
    elif (v["NPROC"] and np != v["NPROC"]) or not re.match(r"[1-9]\d*$", np):
        raise Violation("%s: NPROC is %r in the container" % (what, np))
    src = [x for x in vol if os.path.realpath(x[0]) == os.path.realpath(ws)]
    if len(src) != 1 or len(src[0]) < 2 or (len(src[0]) > 2 and "ro" in src[0][2].split(",")):
        raise Violation("%s: the sources are not in the container: %r" % (what, vol))
    if not command or os.path.normpath(command[0]) != os.path.join(src[0][1], "scripts", INNER) or command[1:] != list(case["args"]):
        raise Violation("%s: runs %r in the container" % (what, command))
    if rc != d["status"]:
        raise Violation("%s: exits with %d although the container exits with %d" % (what, rc, d["status"]))
    return ["container"], len(case["args"]) > 0 or bool(d["run"])
