"""Configurations of the project, its installed package and consumers (C29)."""
import os
import re
import shutil
import subprocess

from hypothesis import strategies as st

from engine import Violation, difference, snapshot

ON = ["ON", "1", "TRUE", "YES", "Y", "on", "True"]
OFF = ["OFF", "0", "FALSE", "NO", "N", "off", "False", "", "IGNORE"]
OPT = {"BOUNDS_CHECK": "SHIVA_ENABLE_BOUNDS_CHECK", "CAMP": "SHIVA_ENABLE_CAMP", "CUDA": "SHIVA_ENABLE_CUDA", "HIP": "SHIVA_ENABLE_HIP"}
MACROS = ["SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP", "SHIVA_ENABLE_CAMP", "SHIVA_ENABLE_BOUNDS_CHECK"]
HEADERS = ["shiva/ShivaConfig.hpp", "shiva/common/ShivaMacros.hpp", "shiva/common/CArray.hpp", "shiva/functions/bases/LagrangeBasis.hpp",
           "shiva/functions/quadrature/Quadrature.hpp", "shiva/geometry/mapping/Scaling.hpp", "shiva/geometry/shapes/NCube.hpp",
           "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp", "shiva/common/MultiIndex.hpp", "shiva/Shiva.hpp"]


def copy_source(ctx):
    shutil.rmtree(ctx.src, ignore_errors=True)
    os.makedirs(ctx.src)
    for n in os.listdir(ctx.repo):
        if n in (".git", "_build") or n.startswith("build"):
            continue
        p = os.path.join(ctx.repo, n)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(ctx.src, n), symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        else:
            shutil.copy(p, ctx.src)
    # the build system that BLT brings, reduced to what the project calls; the submodule is empty here
    blt = os.path.join(ctx.src, "cmake", "blt")
    os.makedirs(blt, exist_ok=True)
    if not os.path.exists(os.path.join(blt, "SetupBLT.cmake")):
        with open(os.path.join(blt, "SetupBLT.cmake"), "w") as f:
            f.write("set( BLT_LOADED TRUE )\nmacro( blt_add_code_checks )\nendmacro()\nmacro( blt_add_code_coverage_target )\nendmacro()\n")
        ctx.blt = True
    ctx.before = snapshot(ctx.src)


def prepare(ctx):
    ctx.src = os.path.join(ctx.work, "source tree")
    ctx.blt = False
    copy_source(ctx)
    b = os.path.join(ctx.work, "probe")
    r = call(["cmake", "-S", ctx.src, "-B", b])
    if r[0] != 0:
        ctx.probe = "the project cannot be configured: " + (r[2] + r[1])[-800:]
        return
    ctx.probe = None
    c = open(os.path.join(b, "CMakeCache.txt")).read()
    ctx.version = re.search(r"^CMAKE_PROJECT_VERSION:STATIC=(.*)$", c, re.M).group(1).split(".")


def call(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env) if env else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout, p.stderr


@st.composite
def options(draw, quiet):
    o = {}
    for k in OPT:
        p = draw(st.integers(0, 5))
        if k in ("CUDA", "HIP"):
            if p >= (4 if quiet else 3):
                o["-D" + (OPT[k] if draw(st.integers(0, 3)) else "ENABLE_" + k)] = draw(st.sampled_from(ON if draw(st.booleans()) else OFF))
        elif p >= 2:
            o["-D" + OPT[k]] = draw(st.sampled_from(ON if draw(st.integers(0, 2)) else OFF))
    for k in ("SHIVA_BUILD_OBJ_LIBS", "SHIVA_ENABLE_UNIT_TESTS"):
        if draw(st.integers(0, 5)) == 0:
            o["-D" + k] = draw(st.sampled_from(["ON", "OFF"]))
    if draw(st.integers(0, 5)) == 0:
        o["-DCMAKE_CUDA_COMPILER_VERSION"] = draw(st.sampled_from(["12.4", "11.8.89", "13"]))
    return o


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["configure", "configure", "configure", "install", "install", "subproject"]))
    quiet = kind != "configure"
    return {
        "kind": kind, "opts": [draw(options(quiet)) for _ in range(draw(st.integers(1, 3)) if kind == "configure" else 1)],
        "build": draw(st.sampled_from(["build", "b/c/d", "build dir"])),
        "gen": draw(st.sampled_from(["Unix Makefiles", "Ninja"])), "type": draw(st.sampled_from(["", "Debug", "Release"])),
        "std": draw(st.sampled_from(["", "", "14", "17", "20", "23"])), "cxx": draw(st.sampled_from(["g++", "clang++"])),
        "blt": draw(st.integers(0, 4)) == 0,
        "dirs": draw(st.sampled_from([[], [], ["-DCMAKE_INSTALL_INCLUDEDIR=inc/lude"], ["-DCMAKE_INSTALL_LIBDIR=lib64"], ["-DCMAKE_INSTALL_LIBDIR=my/lib", "-DCMAKE_INSTALL_INCLUDEDIR=headers"]])),
        "prefix": draw(st.sampled_from(["configure", "install", "moved"])),
        "ask": draw(st.integers(0, 9)), "headers": draw(st.lists(st.sampled_from(HEADERS), min_size=1, max_size=3, unique=True)),
        "how": draw(st.sampled_from(["-D", "-D", "typed", "file", "environment"])), "cuda": draw(st.sampled_from(["ON", "OFF", ""])),
        "by": draw(st.sampled_from(["target", "target", "variable"])), "root": draw(st.sampled_from(["prefix", "dir"])),
    }


def strategy_c29(ctx):
    return strategy()


def is_on(v):
    return v.upper() in ("ON", "1", "TRUE", "YES", "Y")


def macros(ctx, header, what):
    rc, o, e = call(["g++", "-dM", "-E", "-x", "c++", header])
    if rc != 0:
        raise Violation("%s: the generated header is not accepted: %s" % (what, e[:400]))
    res = {}
    for l in o.split("\n"):
        m = re.match(r"#define (SHIVA_\w+)(?: (.*))?$", l)
        if m:
            res[m.group(1)] = (m.group(2) or "").strip()
    return res


def expected(ctx, cache):
    val = {k: is_on(cache.get(OPT[k], "OFF")) for k in OPT}
    for k in ("CUDA", "HIP"):
        val[k] = val[k] or is_on(cache.get("ENABLE_" + k, "OFF"))
    m = {"SHIVA_VERSION_MAJOR": ctx.version[0], "SHIVA_VERSION_MINOR": ctx.version[1], "SHIVA_VERSION_PATCHLEVEL": ctx.version[2],
         "SHIVA_CUDA_MAJOR": "0", "SHIVA_CUDA_MINOR": "0"}
    for k in OPT:
        if val[k]:
            m[OPT[k]] = ""
    v = cache.get("CMAKE_CUDA_COMPILER_VERSION")
    if v and val["CUDA"]:
        p = v.split(".")
        m["SHIVA_CUDA_MAJOR"] = p[0]
        m["SHIVA_CUDA_MINOR"] = p[1] if len(p) > 1 else "0"
    return m, val["CUDA"] and val["HIP"]


def compare(ctx, header, want, what):
    if not os.path.exists(header):
        raise Violation("%s: there is no %s" % (what, os.path.basename(header)))
    got = macros(ctx, header, what)
    for k in sorted(set(want) | set(got)):
        if k not in want and k not in MACROS and not k.startswith(("SHIVA_VERSION", "SHIVA_CUDA")):
            continue
        if got.get(k) != want.get(k):
            raise Violation("%s: the configuration header has %s %s instead of %s" % (
                what, k, "undefined" if k not in got else "defined as '%s'" % got[k], "undefined" if k not in want else "defined as '%s'" % want[k]))


PROGRAM = """
#include <cstdio>
#define STR1( x ) #x
#define STR( x ) STR1( x )
int main()
{
#if !defined( SHIVA_ENABLE_CUDA ) && !defined( SHIVA_ENABLE_HIP ) && !defined( SHIVA_ENABLE_CAMP )
#if defined( WITH_ARRAY )
  shiva::CArrayNd< double, 2, 3 > a{ 1.0, 2.0, 3.0, 4.0, 5.0, 6.0 };
  std::printf( "array %d %g\\n", int( a.size() ), a( 1, 2 ) );
#endif
#endif
  std::printf( "version %s.%s.%s\\n", STR( SHIVA_VERSION_MAJOR ), STR( SHIVA_VERSION_MINOR ), STR( SHIVA_VERSION_PATCHLEVEL ) );
#ifdef SHIVA_ENABLE_CUDA
  std::printf( "SHIVA_ENABLE_CUDA\\n" );
#endif
#ifdef SHIVA_ENABLE_HIP
  std::printf( "SHIVA_ENABLE_HIP\\n" );
#endif
#ifdef SHIVA_ENABLE_CAMP
  std::printf( "SHIVA_ENABLE_CAMP\\n" );
#endif
#ifdef SHIVA_ENABLE_BOUNDS_CHECK
  std::printf( "SHIVA_ENABLE_BOUNDS_CHECK\\n" );
#endif
  return 0;
}
"""


def consumer(ctx, case, top, want, cm, extra, what, prefix=None):
    """Builds and runs a project that uses the package, and compares what it sees."""
    c = os.path.join(top, "consumer")
    os.makedirs(c)
    plain = not any(k in want for k in ("SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP", "SHIVA_ENABLE_CAMP"))
    hs = case["headers"] if plain else ["shiva/ShivaConfig.hpp"]
    arr = plain and any("CArray" in h or "ParentElement" in h for h in hs)
    if plain and "shiva/ShivaConfig.hpp" not in hs:
        hs = hs + ["shiva/ShivaConfig.hpp"]
    with open(os.path.join(c, "main.cpp"), "w") as f:
        f.write("".join("#include \"%s\"\n" % h for h in hs) + ("#define WITH_ARRAY\n" if arr else "") + PROGRAM)
    with open(os.path.join(c, "CMakeLists.txt"), "w") as f:
        f.write(cm)
    b = os.path.join(top, "consumer build")
    cmd = ["cmake", "-S", c, "-B", b, "-G", case["gen"], "-DCMAKE_CXX_COMPILER=" + case["cxx"]] + extra + (["-DCMAKE_CXX_STANDARD=" + case["std"]] if case["std"] else [])
    rc, o, e = call(cmd)
    if rc != 0:
        return rc, (e + o)
    rc, o, e = call(["cmake", "--build", b])
    if rc != 0:
        raise Violation("%s: a consumer (headers %s) does not build: %s" % (what, hs, (o + e)[-900:]))
    rc, o, e = call([os.path.join(b, "consumer")])
    exp = (["array 6 6"] if arr else []) + ["version " + ".".join(ctx.version)] + [m for m in MACROS if m in want]
    if rc != 0 or o.split("\n")[:-1] != exp:
        raise Violation("%s: a consumer (headers %s) sees %s instead of %s (status %d)" % (what, hs, o.split("\n"), exp, rc))
    return 0, ""


def run_c29(case, ctx):
    if ctx.probe:
        raise Violation(ctx.probe)
    top = ctx.fresh()
    try:
        return one(case, ctx, top)
    finally:
        ctx.drop(top)


def unmodified(ctx, what):
    now = snapshot(ctx.src)
    d = difference(ctx.before, now)
    if d:
        copy_source(ctx)
        raise Violation("%s: writes to the source tree: %s" % (what, d))


def one(case, ctx, top):
    b = os.path.join(top, case["build"])
    prefix = os.path.join(top, "prefix dir")
    cache = {}
    labels = [case["kind"]]
    blt = case["blt"] and ctx.blt
    if case["kind"] == "subproject":
        o = case["opts"][0]
        want, reject = expected(ctx, {k[2:]: v for k, v in o.items()})
        what = "subproject with %s" % " ".join("%s=%s" % kv for kv in sorted(o.items()))
        cm = ("cmake_minimum_required( VERSION 3.23.1 )\nproject( Consumer VERSION 7.8.9 LANGUAGES CXX )\nadd_subdirectory( \"%s\" shiva_build )\n"
              "add_executable( consumer main.cpp )\ntarget_link_libraries( consumer PRIVATE Shiva::shiva )\n" % ctx.src)
        rc, msg = consumer(ctx, case, top, want, cm, ["%s=%s" % kv for kv in sorted(o.items())], what)
        if (rc != 0) != reject:
            raise Violation("%s: %s: %s" % (what, "is accepted although both devices are on" if reject else "cannot be configured", msg[-700:]))
        unmodified(ctx, what)
        return labels + (["rejected"] if reject else []), bool(o)
    rejected = False
    for k, o in enumerate(case["opts"]):
        trial = dict(cache)
        how, env, given = case["how"], None, ["%s=%s" % kv for kv in sorted(o.items())]
        if how == "environment" and k == 0 and os.path.exists(os.path.join(ctx.src, "hostconfigs", "environment.cmake")):
            # the host configuration that takes compilers and device from the environment; options on the command line come after it
            env = {"CC": shutil.which("gcc"), "CXX": shutil.which(case["cxx"]), "ENABLE_CUDA": case["cuda"]}
            trial["ENABLE_CUDA"] = case["cuda"]
            given = ["-C", os.path.join(ctx.src, "hostconfigs", "environment.cmake")] + given
        elif how == "typed":
            given = ["%s:%s=%s" % (n, "STRING" if n.endswith("VERSION") else "BOOL", v) for n, v in sorted(o.items())]
        elif how == "file" and k == 0:
            with open(os.path.join(top, "options.cmake"), "w") as f:
                f.write("".join("set( %s \"%s\" CACHE %s \"\" )\n" % (n[2:], v, "STRING" if n.endswith("VERSION") else "BOOL") for n, v in sorted(o.items())))
            given = ["-C", os.path.join(top, "options.cmake")]
        trial.update({x[2:]: v for x, v in o.items()})
        want, reject = expected(ctx, trial)
        cmd = ["cmake", "-S", ctx.src, "-B", b] + (["-G", case["gen"]] if k == 0 else []) + given
        if k == 0:
            cmd += ["-DCMAKE_BUILD_TYPE=" + case["type"]] + case["dirs"] + (["-DSHIVA_ENABLE_BLT=OFF"] if env else ["-DSHIVA_ENABLE_BLT=ON"] if blt and not any("UNIT_TESTS" in x for x in o) and not is_on(o.get("-DSHIVA_ENABLE_CAMP", "OFF")) else [])
            if case["prefix"] == "configure":
                cmd += ["-DCMAKE_INSTALL_PREFIX=" + prefix]
        elif "-DSHIVA_ENABLE_CAMP" in o or "-DSHIVA_ENABLE_UNIT_TESTS" in o:
            cmd += ["-DSHIVA_ENABLE_BLT=OFF"]
        what = "configuration " + " ".join(cmd[5:])
        rc, out, err = call(cmd, env=env)
        if env and os.path.exists(os.path.join(b, "CMakeCache.txt")):
            # whatever else the host configuration chooses
            for m in re.finditer(r"^(SHIVA_ENABLE_BOUNDS_CHECK|SHIVA_ENABLE_CAMP|SHIVA_ENABLE_HIP|ENABLE_HIP):\w+=(.*)$", open(os.path.join(b, "CMakeCache.txt")).read(), re.M):
                trial.setdefault(m.group(1), m.group(2))
            want, reject = expected(ctx, trial)
        cache = trial
        if (rc != 0) != reject:
            raise Violation("%s (%s): %s: %s" % (what, cache, "is accepted although both devices are on" if reject else "fails", (err + out)[-700:]))
        unmodified(ctx, what)
        if reject:
            rejected = True
            continue
        compare(ctx, os.path.join(b, "include", "shiva", "ShivaConfig.hpp"), want, "%s (%s)" % (what, cache))
        if env:
            labels.append("host configuration of the environment")
            m = re.search(r"^CMAKE_CXX_COMPILER:\w+=(.*)$", open(os.path.join(b, "CMakeCache.txt")).read(), re.M)
            if not m or m.group(1) != env["CXX"]:
                raise Violation("%s: the compiler is %s and not that of the environment, %s" % (what, m and m.group(1), env["CXX"]))
        elif how != "-D" and k == 0:
            labels.append("options %s" % ("with types" if how == "typed" else "in a file") if how in ("typed", "file") else "options")
    if rejected:
        labels.append("rejected")
    if len(case["opts"]) > 1:
        labels.append("configured again")
    nontriv = bool(cache)
    if case["kind"] != "install" or reject:
        return labels, nontriv
    # installation
    if case["prefix"] == "configure":
        rc, out, err = call(["cmake", "--install", b])
    else:
        rc, out, err = call(["cmake", "--install", b, "--prefix", prefix])
    if rc != 0:
        raise Violation("%s: installation fails: %s" % (what, (err + out)[-500:]))
    unmodified(ctx, what + ", installation")
    if case["prefix"] == "moved":
        shutil.move(prefix, os.path.join(top, "moved", "prefix")) if os.makedirs(os.path.join(top, "moved")) is None else None
        prefix = os.path.join(top, "moved", "prefix")
    inc = "include"
    for d in case["dirs"]:
        if "INCLUDEDIR" in d:
            inc = d.split("=")[1]
    for d, ds, fs in os.walk(os.path.join(ctx.src, "include")):
        for f in fs:
            if not f.endswith(".hpp"):
                continue
            p = os.path.join(d, f)
            q = os.path.join(prefix, inc, os.path.relpath(p, os.path.join(ctx.src, "include")))
            if not os.path.exists(q) or open(p, "rb").read() != open(q, "rb").read():
                raise Violation("%s: the installed package does not hold %s" % (what, os.path.relpath(q, prefix)))
    compare(ctx, os.path.join(prefix, inc, "shiva", "ShivaConfig.hpp"), want, what + ", installed")
    V = ctx.version
    asks = [("", True), (".".join(V), True), (V[0] + "." + V[1], True), (".".join(V) + " EXACT", True), ("%s.%d" % (V[0], int(V[1]) + 1), False),
            ("%d.0" % (int(V[0]) + 1), False), ("%s.%s.%d" % (V[0], V[1], int(V[2]) + 1), False), ("", True), (V[0] + ".0", True), (V[0], True)]
    ask, accepted = asks[case["ask"]]
    use = "target_link_libraries( consumer PRIVATE Shiva::Shiva )" if case["by"] == "target" else \
        "target_include_directories( consumer PRIVATE \"${Shiva_INCLUDE_DIRS}\" )\nset_target_properties( consumer PROPERTIES CXX_STANDARD %s )" % (case["std"] if case["std"] not in ("", "14") else "17")
    cm = ("cmake_minimum_required( VERSION 3.23.1 )\nproject( Consumer LANGUAGES CXX )\nfind_package( Shiva %s REQUIRED CONFIG )\n"
          "if( NOT Shiva_VERSION VERSION_EQUAL \"%s\" )\n  message( FATAL_ERROR \"version ${Shiva_VERSION}\" )\nendif()\n"
          "add_executable( consumer main.cpp )\n%s\n" % (ask, ".".join(V), use))
    lib = "lib"
    for d in case["dirs"]:
        if "LIBDIR" in d:
            lib = d.split("=")[1]
    find = ["-DCMAKE_PREFIX_PATH=" + prefix] if case["root"] == "prefix" and lib == "lib" else ["-DShiva_DIR=" + os.path.join(prefix, lib, "cmake", "Shiva")]
    rc, msg = consumer(ctx, case, top, want, cm, find, what)
    if (rc == 0) != accepted:
        raise Violation("%s: find_package( Shiva %s ) %s: %s" % (what, ask, "fails" if accepted else "succeeds", msg[-900:]))
    return labels + ["consumer" if accepted else "version not accepted"], True
