"""The build configuration script with recording stand-ins for cmake and dot (C32)."""
import os
import shutil
import stat

from hypothesis import strategies as st

from engine import Violation, difference, snapshot

STUB = """#!/bin/sh
d="$VH_RECORD"
n=0
while [ -e "$d/%(name)s.$n" ]; do n=$((n+1)); done
mkdir "$d/%(name)s.$n"
pwd -P > "$d/%(name)s.$n/cwd"
for a in "$@"; do printf '%%s\\0' "$a" >> "$d/%(name)s.$n/args"; done
ls -A . > "$d/%(name)s.$n/there"
[ -d "$VH_INSTALL" ] && ls -A "$VH_INSTALL" > "$d/%(name)s.$n/install"
%(act)s
"""
PATHS = ["bld", "b/c/d", "bld with space", "../up/bld", "x/../bld2", "bld/", "a.b-c", "b/c", "deep/1/2/3", "quo'te", "dol$HOME", "semi;colon"]
IPATHS = ["inst", "i/j", "inst here", "../up/inst", "bld/install", "b/i", "inst/", "qu\"ote", "b/c/i", "a&b", "dol$HOME/i", "p%PATH%q"]
UNKNOWN = ["-DFOO=bar", "-DSHIVA_ENABLE_BOUNDS_CHECK=ON", "-DA:STRING=x", "-Wno-dev", "--trace", "-UOLD", "--log-level=VERBOSE", "-DEMPTY=", "--fresh",
           "-DPATHS=a;b;c", "-DCMAKE_CXX_FLAGS=-O2 -g", "-DQ=\"quoted\"", "-DS=it's", "-D", "LATER=1", "-DG=$HOME", "-DT=a*b", "-Werror=dev", "-DX=1", "-DX=2",
           "--debug-output", "extra", "-DP=(x)", "-DN=a\\b", "-DH=#c", "-DB=`ls`", "-DU=\u00e9"]


def prepare(ctx):
    with open(os.path.join(ctx.repo, "scripts", "config-build.py")) as f:
        ctx.text = f.read()
    ctx.modules = {}
    for n in os.listdir(os.path.join(ctx.repo, "scripts")):      # modules that it may import
        if n.endswith(".py") and n[:-3].isidentifier():
            with open(os.path.join(ctx.repo, "scripts", n)) as f:
                ctx.modules[n] = f.read()
    ctx.tools = os.path.join(ctx.work, "tools")
    os.makedirs(ctx.tools)


@st.composite
def strategy(draw):
    tree = st.lists(st.sampled_from(["f.txt", "d/g.txt", "CMakeCache.txt", "d/e/h"]), max_size=3)
    kind = draw(st.sampled_from(["none", "default", "given", "given"]))
    return {
        "src": draw(st.sampled_from(["shiva", "shiva", "dir with space/shiva", "a/b/shi-va.1"])),
        "call": draw(st.sampled_from(["abs", "rel", "dots"])),
        "cwd": draw(st.sampled_from(["work", "shiva", "work/sub", "work dir"])),
        "hclink": draw(st.sampled_from([False, False, False, True])),
        "hc": draw(st.sampled_from(["host.cmake", "my-host-1.cmake", "noext", "two.dots.cmake", "host with space.cmake", ".cmake", "a.cmake.txt", "x.cmake.cmake", "dol$HOME.cmake", "a;b.cmake"])),
        "hcform": draw(st.sampled_from(["abs", "rel", "dots"])),
        "hctext": draw(st.sampled_from(["", "set(A 1)\n", "# cmake executable path: /no/such/cmake\n", "# cmake executable path: \n", "junk\n" * 50])),
        "hcthere": draw(st.sampled_from([True] * 6 + [False])),
        "bp": draw(st.one_of(st.none(), st.sampled_from(PATHS))), "ip": draw(st.one_of(st.none(), st.sampled_from(IPATHS))),
        "bpabs": draw(st.booleans()), "ipabs": draw(st.booleans()),
        "bt": draw(st.one_of(st.none(), st.sampled_from(["Release", "Debug", "RelWithDebInfo", "MinSizeRel"]))),
        "bad": draw(st.sampled_from([None] * 12 + ["-bt", "nohc"])),
        "e": draw(st.booleans()) and draw(st.booleans()), "x": draw(st.booleans()) and draw(st.booleans()), "n": draw(st.booleans()), "ecc": draw(st.booleans()),
        "gvz": draw(st.sampled_from([False, False, False, True])),
        "long": draw(st.booleans()),
        "unknown": draw(st.lists(st.sampled_from(UNKNOWN), max_size=5)),
        "order": draw(st.integers(0, 10 ** 6)),
        "bthere": draw(st.one_of(st.none(), st.none(), tree, tree, tree, st.sampled_from([None, [], "file", "link", "dangling"]))), "ithere": draw(st.one_of(st.none(), tree, tree, tree, st.sampled_from([None, [], "file", "link", "dangling"]))),
        "other": draw(tree), "bdefault_there": draw(st.booleans()),
        "cmake": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 77, "signal", "missing"])), "dot": draw(st.sampled_from([0, 0, 1])),
    }


def strategy_c32(ctx):
    return strategy()


def put(base, files, text="old\n"):
    for f in files:
        p = os.path.join(base, f)
        if os.path.isdir(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(text)


def run_c32(case, ctx):
    top = ctx.fresh()
    try:
        return one(case, ctx, top)
    finally:
        ctx.drop(top)


def one(case, ctx, top):
    box = os.path.join(top, "box")
    src = os.path.join(box, case["src"])
    put(src, ["CMakeLists.txt", "include/x.hpp"])
    os.makedirs(os.path.join(src, "scripts"))
    script = os.path.join(src, "scripts", "config-build.py")
    with open(script, "w") as f:
        f.write(ctx.text)
    for n, t in ctx.modules.items():
        with open(os.path.join(src, "scripts", n), "w") as f:
            f.write(t)
    ctx.codes[script] = compile(ctx.text, "config-build.py", "exec")
    cwd = src if case["cwd"] == "shiva" else os.path.join(box, case["cwd"])
    os.makedirs(cwd, exist_ok=True)
    hcdir = os.path.join(box, "hostconfigs", "site")
    os.makedirs(hcdir)
    hc = os.path.join(hcdir, case["hc"])
    if case["hcthere"]:
        if case["hclink"]:
            os.symlink("../real.cmake", hc)
        with open(hc, "w") as f:
            f.write(case["hctext"])
    elif case["hclink"]:
        os.symlink("../nowhere.cmake", hc)
    bt = case["bt"] or "Debug"
    plat = case["hc"][:-6] if case["hc"].endswith(".cmake") else case["hc"]
    bp = os.path.normpath(os.path.join(cwd, case["bp"] if case["bp"] else "build-%s-%s" % (plat, bt.lower())))
    ip = os.path.normpath(os.path.join(cwd, case["ip"] if case["ip"] else "install-%s-%s" % (plat, bt.lower())))
    if bp == ip or bp.startswith(ip + os.sep):
        return ["not used: build folder in the install folder"], False
    # what is there before
    put(os.path.join(cwd, "neighbour"), case["other"], "neighbour\n")
    put(cwd, ["bystander.txt", "CMakeCache.txt"], "bystander\n")
    if case["bdefault_there"]:
        for x in ("build-%s-%s" % (plat, b) for b in ("release", "debug", "relwithdebinfo")):
            if os.path.normpath(os.path.join(cwd, x)) not in (bp, ip):
                put(os.path.join(cwd, x), ["kept.txt"], "kept\n")
    for d, there in ((bp, case["bthere"]), (ip, case["ithere"])):
        if there == "file":
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if not os.path.exists(d):
                with open(d, "w") as f:
                    f.write("a file\n")
        elif there in ("link", "dangling"):
            # what stands there is a link to a folder elsewhere, or to nothing
            q = os.path.dirname(d)
            while not os.path.lexists(q):
                q = os.path.dirname(q)
            if os.path.isdir(q) and not os.path.lexists(d):
                os.makedirs(os.path.dirname(d), exist_ok=True)
                to = os.path.join(box, "linked %d" % (d == ip))
                if there == "link":
                    put(to, ["f.txt", "CMakeCache.txt", "d/g.txt"], "linked\n")
                os.symlink(to, d)
        elif there is not None:
            p = d
            while not os.path.exists(p):
                p = os.path.dirname(p)
            if os.path.isdir(p):
                os.makedirs(d, exist_ok=True)
                put(d, there)
    blocked = False
    for d in (bp, ip):
        q = d
        while not os.path.exists(q):
            q = os.path.dirname(q)
        if not os.path.isdir(q):
            blocked = True
    links = any(os.path.islink(q) for q in (bp, ip))
    if ip.startswith(bp + os.sep):      # what is in the build folder goes with it
        if os.path.isdir(bp):
            blocked = False
    # stand-ins
    rec, binp = os.path.join(top, "record"), os.path.join(top, "bin")
    os.makedirs(rec)
    os.makedirs(binp)
    for name, code in (("cmake", case["cmake"]), ("dot", case["dot"])):
        if code == "missing":
            continue
        p = os.path.join(binp, name)
        with open(p, "w") as f:
            f.write(STUB % {"name": name, "act": "kill -9 $$" if code == "signal" else "exit %d" % code})
        os.chmod(p, 0o755)
    for t in ("ls", "mkdir"):
        os.symlink(shutil.which(t), os.path.join(binp, t))
    env = {"PATH": binp, "VH_RECORD": rec, "VH_INSTALL": ip, "HOME": top, "LC_ALL": "C.UTF-8"}

    def form(p, f):
        return p if f == "abs" else ("./" if f == "dots" else "") + os.path.relpath(p, cwd)
    opts = []
    L = case["long"]
    if case["bad"] != "nohc":
        opts.append([("--hostconfig" if L else "-hc"), form(hc, case["hcform"])])
    if case["bp"]:
        opts.append([("--buildpath" if L else "-bp"), os.path.join(cwd, case["bp"]) if case["bpabs"] else case["bp"]])
    if case["ip"]:
        opts.append([("--installpath" if L else "-ip"), os.path.join(cwd, case["ip"]) if case["ipabs"] else case["ip"]])
    if case["bad"] == "-bt":
        opts.append([("--buildtype" if L else "-bt"), "Fast"])
    elif case["bt"]:
        opts.append([("--buildtype" if L else "-bt"), bt])
    for k, s, l in (("e", "-e", "--eclipse"), ("x", "-x", "--xcode"), ("n", "-n", "--ninja"), ("ecc", "-ecc", "--exportcompilercommands"), ("gvz", "-gvz", "--graphviz")):
        if case[k]:
            opts.append([l if L else s])
    # options of the script in a drawn order, the others between them in theirs
    o, argv = case["order"], []
    pool = list(opts)
    unk = list(case["unknown"])
    while pool or unk:
        if unk and (not pool or o % 2):
            argv.append(unk.pop(0))
            o //= 2
        else:
            argv += pool.pop(o % len(pool))
            o //= 3
    before = snapshot(box)
    rc, out, err = ctx.script(script, argv, cwd, env, argv0=form(script, case["call"]))
    after = snapshot(box)
    calls = sorted(x for x in os.listdir(rec) if x.startswith("cmake."))
    what = "config-build.py %s (in %s)" % (" ".join(map(repr, argv)), os.path.relpath(cwd, box))
    if rc < 0:
        raise Violation("%s: ended by signal %d" % (what, -rc))
    rb, ri = os.path.relpath(bp, box), os.path.relpath(ip, box)

    def outside(s):
        up = set()
        for r in (rb, ri):
            q = os.path.dirname(r)
            while q:
                up.add(q)
                q = os.path.dirname(q)
        return {k: v for k, v in s.items() if not any(k == r or k.startswith(r + os.sep) for r in (rb, ri)) and not (k in up and k not in before)}
    refused = case["bad"] or not case["hcthere"]
    hcrel = os.path.relpath(hc, box)
    if refused:
        if rc == 0 or calls:
            raise Violation("%s: exits with %d and calls cmake %d times without a valid %s" % (what, rc, len(calls), "build type" if case["bad"] == "-bt" else "host configuration"))
        d = difference(before, after)
        if d:
            raise Violation("%s: refuses its arguments, but changes files: %s" % (what, d))
        return ["refused"], True
    d = difference(outside(before), outside(after))
    if d:
        raise Violation("%s: changes other files: %s" % (what, d))
    if links and rc != 0:
        return ["a link stands at a place, which is refused"], True
    if blocked:
        if rc == 0:
            raise Violation("%s: exits with success although a folder could not be made" % what)
        return ["folder cannot be made"], True
    if case["cmake"] == "missing":
        if rc == 0:
            raise Violation("%s: exits with success although there is no cmake" % what)
    else:
        if len(calls) != 1:
            raise Violation("%s: calls cmake %d times: %s" % (what, len(calls), err[-500:]))
        r = os.path.join(rec, calls[0])
        got_cwd = open(os.path.join(r, "cwd")).read().rstrip("\n")
        if got_cwd != os.path.realpath(bp):
            raise Violation("%s: calls cmake in %s instead of %s" % (what, got_cwd, bp))
        with open(os.path.join(r, "args"), "rb") as f:
            args = f.read().decode().split("\0")[:-1]
        if not args or os.path.realpath(os.path.join(bp, args[-1])) != os.path.realpath(src) and not any(
                os.path.realpath(os.path.join(bp, x)) == os.path.realpath(src) for x in args):
            raise Violation("%s: does not give the source tree to cmake: %r" % (what, args))
        rest = list(args)
        for k in range(len(rest) - 1, -1, -1):
            if os.path.realpath(os.path.join(bp, rest[k])) == os.path.realpath(src) and not rest[k].startswith("-"):
                del rest[k]
                break

        def take(*seq):
            """Removes a run of arguments, if it is there."""
            for k in range(len(rest) - len(seq) + 1):
                if tuple(rest[k:k + len(seq)]) == seq:
                    del rest[k:k + len(seq)]
                    return True
            return False

        def need(alts, why):
            if not any(take(*a) for a in alts):
                raise Violation("%s: cmake is not given %s: %r" % (what, why, args))
        # the further options, in order, as one run
        need([tuple(case["unknown"])] if case["unknown"] else [()], "the further options %r in order" % case["unknown"])
        hcs = {hc, os.path.relpath(hc, bp)}
        need([("-C", x) for x in hcs] + [("-C" + x,) for x in hcs], "the host configuration " + hc)
        need([("-DCMAKE_BUILD_TYPE=" + bt,), ("-DCMAKE_BUILD_TYPE:STRING=" + bt,)], "the build type " + bt)
        need([("-DCMAKE_INSTALL_PREFIX=" + ip,), ("-DCMAKE_INSTALL_PREFIX:PATH=" + ip,)], "the install folder " + ip)
        if case["ecc"]:
            need([("-DCMAKE_EXPORT_COMPILE_COMMANDS=" + v,) for v in ("on", "ON", "1", "TRUE", "true")], "the request for a compilation database")
        for k, g in (("e", "Eclipse CDT4 - Unix Makefiles"), ("x", "Xcode"), ("n", "Ninja")):
            if case[k]:
                need([("-G", g), ("-G" + g,)], "the generator " + g)
        if case["gvz"]:
            hit = [x for x in rest if x.startswith("--graphviz=")]
            if len(hit) != 1:
                raise Violation("%s: cmake is not asked for the graph: %r" % (what, args))
            rest.remove(hit[0])
        if rest:
            raise Violation("%s: cmake is given %r, which was not asked for: %r" % (what, rest, args))
        there = [x for x in open(os.path.join(r, "there")).read().split("\n") if x]
        old = [x.split("/")[0] for x in (case["bthere"] if isinstance(case["bthere"], list) else [])] + ["CMakeCache.txt"]
        if any(x in there for x in old):
            raise Violation("%s: the build folder is not new: %s" % (what, there))
        if not os.path.exists(os.path.join(r, "install")) or open(os.path.join(r, "install")).read().strip():
            raise Violation("%s: there is no new install folder when cmake is called" % what)
        if case["cmake"] == 0 and (not case["gvz"] or case["dot"] == 0):
            if rc != 0:
                raise Violation("%s: exits with %d although cmake succeeded: %s" % (what, rc, err[-500:]))
        elif case["cmake"] != 0 and rc == 0:
            raise Violation("%s: exits with success although cmake failed" % what)
    # the folders are new
    for r, name in ((rb, "build"), (ri, "install")):
        if r not in after or after[r][0] != "dir":
            raise Violation("%s: there is no %s folder %s" % (what, name, r))
        stay = [k for k in after if k.startswith(r + os.sep) and k in before and before[k][0] == "file" and after[k] == before[k]]
        if stay:
            raise Violation("%s: the %s folder still has %s" % (what, name, stay[:3]))
    labels = ["cmake %s" % ("ok" if case["cmake"] == 0 else "missing" if case["cmake"] == "missing" else "fails")]
    if isinstance(case["bthere"], list) or isinstance(case["ithere"], list):
        labels.append("folders there before")
    if any(any(c in " '\"$;*`&(#\\" for c in x) for x in argv):
        labels.append("special characters")
    return labels, len(argv) > 2
