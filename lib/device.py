"""Device code without a device: a translation unit in the CUDA or HIP language is compiled by clang for the host and for the
device; the device's intermediate code is made into a library for this machine, whose kernels the model of a device in
harness/dev runs."""
import os
import re

import core

DEV = os.path.join(core.HARNESS, "dev")
CLANG = "clang++"


def params(text):
    """splits a parameter list at its outer commas"""
    out, depth, cur, quote = [], 0, "", False
    for c in text:
        if c == '"':
            quote = not quote
        if not quote:
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            elif c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def closing(text, at):
    """position of the parenthesis that closes the one at the given position"""
    depth, quote = 0, False
    for k in range(at, len(text)):
        c = text[k]
        if c == '"':
            quote = not quote
        if quote:
            continue
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0:
                return k
    raise core.CheckError("unbalanced parentheses in device code: " + text[at:at + 200])


def first_type(p):
    """the type at the start of a parameter"""
    if p[0] == "%":
        m = re.match(r'%"[^"]*"|%[-\w.$]+', p)
        return m.group(0)
    if p[0] in "[{<":
        depth = 0
        quote = False
        for k, c in enumerate(p):
            if c == '"':
                quote = not quote
            if not quote:
                depth += c in "[{<("
                depth -= c in "]}>)"
                if depth == 0:
                    return p[:k + 1]
    return re.match(r"[\w]+", p).group(0)


def host_code(ll):
    """the device's intermediate code, for this machine, with a function vhk_K that runs kernel K with an array of pointers to
    its arguments, and a table vhs_K of their sizes"""
    names = re.findall(r'!\{ptr (@(?:"[^"]+"|[-\w.$]+)), !"kernel", i32 1\}', ll)
    ll = re.sub(r"^target datalayout = .*$", 'target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"', ll, flags=re.M)
    ll = re.sub(r"^target triple = .*$", 'target triple = "x86_64-pc-linux-gnu"', ll, flags=re.M)
    ll = re.sub(r'"(target-cpu|target-features|tune-cpu|amdgpu-[-\w]+|uniform-work-group-size)"="[^"]*"', "", ll)
    ll = re.sub(r"^!nvvm\.annotations = .*$", "", ll, flags=re.M)
    ll = re.sub(r"@vprintf\b", "@vdev_vprintf", ll)
    out, seen = [], set()
    for line in ll.split("\n"):
        if line.startswith("define") and " amdgpu_kernel " in line:
            names.append(re.search(r'@(?:"[^"]+"|[-\w.$]+)(?=\()', line).group(0))
            line = line.replace(" amdgpu_kernel ", " ").replace("define protected ", "define ")
        if 'c"' not in line:
            line = re.sub(r",? ?\baddrspace\(\d+\)", lambda m: "," if False else "", line)
            line = line.replace(" externally_initialized", "")
            line = line.replace("addrspacecast", "bitcast")
            line = re.sub(r"(@llvm\.[\w.]+?)((?:\.p\d+)+)(?=[.(\b ])", lambda m: m.group(1) + ".p0" * m.group(2).count(".p"), line)
            line = line.replace("@llvm.amdgcn.", "@vdev_amdgcn_")
        else:
            line = re.sub(r" addrspace\(\d+\)", "", line)
            line = line.replace(" externally_initialized", "")
        if line.startswith("declare"):
            line = line.replace("declare hidden ", "declare ").replace("declare protected ", "declare ")
            n = re.search(r'@(?:"[^"]+"|[-\w.$]+)(?=\()', line).group(0)
            if n in seen:
                continue
            seen.add(n)
        out.append(line)
    text = "\n".join(out)
    extra = []
    for n in names:
        m = re.search(r"^define .*?" + re.escape(n) + r"\(", text, re.M)
        if not m:
            continue
        a = m.end() - 1
        b = closing(text, a)
        ps = params(text[a + 1:b])
        plain = n[1:].strip('"')
        body, call, sizes = "", [], []
        for k, p in enumerate(ps):
            body += "  %%q%d = getelementptr ptr, ptr %%a, i64 %d\n  %%p%d = load ptr, ptr %%q%d\n" % (k, k, k, k)
            h = re.search(r"\bby(?:val|ref)\(", p)
            al = re.search(r"\balign (\d+)", p)
            if h:
                t = p[h.end():closing(p, h.end() - 1)]
                call.append("ptr byval(%s) align %s %%p%d" % (t, al.group(1) if al else "8", k) if "byval" in p else "ptr %%p%d" % k)
            else:
                t = first_type(p)
                body += "  %%v%d = load %s, ptr %%p%d, align 1\n" % (k, t, k)
                call.append("%s %%v%d" % (t, k))
            sizes.append("i64 ptrtoint (ptr getelementptr (%s, ptr null, i32 1) to i64)" % t)
        extra.append('define void @"vhk_%s"(ptr %%a) {\n%s  call void %s(%s)\n  ret void\n}\n' % (plain, body, n, ", ".join(call)))
        extra.append('@"vhs_%s" = constant [%d x i64] [%s]\n' % (plain, len(sizes) + 1, ", ".join(sizes + ["i64 -1"])))
    return text + "\n" + "\n".join(extra), len(names)


def config_dir(ck, lang, bounds):
    """the generated configuration header of a build for this device language"""
    key = "cfg_%s_%s" % (lang, "on" if bounds else "off")
    inc = ck.path(key, "include", "shiva", "ShivaConfig.hpp")
    if os.path.exists(inc):
        return os.path.dirname(os.path.dirname(inc))
    b = os.path.dirname(ck.path(key + "_b", "x"))
    # the project's own CMake, which is asked not to look for a device compiler
    rc, o, e = core.sh(["cmake", "-S", core.REPO, "-B", b, "-DCMAKE_CXX_COMPILER=g++", "-DSHIVA_ENABLE_%s=ON" % lang.upper(), "-DSHIVA_BUILD_TESTS=OFF",
                        "-DSHIVA_ENABLE_BOUNDS_CHECK=%s" % ("ON" if bounds else "OFF")], timeout=300)
    gen = os.path.join(b, "include", "shiva", "ShivaConfig.hpp")
    if rc != 0 or not os.path.exists(gen):
        text = open(os.path.join(ck.config_dir(bounds), "shiva", "ShivaConfig.hpp")).read()
        text = re.sub(r"/\* #undef SHIVA_ENABLE_%s \*/" % lang.upper(), "#define SHIVA_ENABLE_%s" % lang.upper(), text)
    else:
        text = open(gen).read()
    if not re.search(r"^#define SHIVA_ENABLE_%s\b" % lang.upper(), text, re.M):
        text += "\n#define SHIVA_ENABLE_%s\n" % lang.upper()
    with open(inc, "w") as f:
        f.write(text)
    return os.path.dirname(os.path.dirname(inc))


class Unsupported(Exception):
    """the code uses a part of the device runtime that the model does not have"""


def compiler_ok(ck, lang):
    src = ck.write("probe/dev_%s.cpp" % lang, "__global__ void k( int * p ) { *p = 1; }\nint main() { k <<< 1, 1 >>> ( nullptr ); }\n")
    for side in ("host", "device"):
        rc, o, e = core.sh(command(ck, lang, "c++17", side, ["-O1"], src, ck.path("probe", "dev_%s_%s.out" % (lang, side)), []), timeout=300)
        if rc != 0:
            raise core.CheckError("clang does not compile device code (%s, %s): %s" % (lang, side, e[-2000:]))


def command(ck, lang, std, side, flags, src, out, inc, binary=None):
    c = [CLANG, "-x", "cuda" if lang == "cuda" else "hip", "-std=" + std] + flags + ["-w", "-ferror-limit=40"]
    if lang == "cuda":
        c += ["-nocudainc", "-nocudalib", "-Xclang", "-target-sdk-version=12.3", "-Xclang", "-fcuda-allow-variadic-functions"]
        arch = ["--cuda-gpu-arch=sm_70"]
    else:
        c += ["-nogpuinc", "-nogpulib", "-DVDEV_HIP", "-fno-builtin-printf", "-Xclang", "-fcuda-allow-variadic-functions"]
        arch = ["--offload-arch=gfx900"]
    c += ["-I", DEV, "-I", os.path.join(DEV, lang), "-include", "fake_device.h", "-I", core.HARNESS, "-I", ck.scratch] + inc
    if side == "host":
        c += ["--cuda-host-only", "-c"] + (["-Xclang", "-fcuda-include-gpubinary", "-Xclang", binary] if binary else [])
    else:
        c += ["--cuda-device-only"] + arch + ["-S", "-emit-llvm"]
    return c + [src, "-o", out]


def accepts(ck, name, text, lang, std, bounds):
    """whether both sides accept a source text. Returns messages of errors."""
    src = ck.write(name + ".cpp", text)
    inc = ["-I", config_dir(ck, lang, bounds), "-I", os.path.join(core.REPO, "include")]
    for side in ("host", "device"):
        cmd = [x for x in command(ck, lang, std, side, [], src, os.devnull, inc) if x not in ("-c", "-S", "-emit-llvm")] + ["-fsyntax-only"]
        rc, o, e = core.sh(cmd, timeout=300)
        if rc == 0:
            continue
        if rc != 1 or "error" not in e:
            raise core.CheckError("device build: %s\n%s" % (" ".join(cmd), e[-3000:]))
        compiler_ok(ck, lang)
        missing = missing_names(lang, e)
        if missing:
            raise Unsupported(missing)
        return "\n".join([l for l in e.splitlines() if "error" in l][:12])
    return ""


def missing_names(lang, e):
    """names of the device's runtime that the model lacks"""
    found = re.findall(r"(?:undeclared identifier|no member named|file not found|unknown type name)[^'\n]*'((?:%s|__)\w+)" % lang, e)
    found += re.findall(r"error: '((?:cuda|hip|thrust|cub|nv)[\w/.]*)' file not found", e)
    return ", ".join(sorted(set(found)))


def build(ck, name, src, lang, std, flags, bounds, engine, extra=()):
    """one program from one source file; its kernels are in a library next to it"""
    inc = ["-I", config_dir(ck, lang, bounds), "-I", os.path.join(core.REPO, "include")] + list(extra)
    ll, obj, so, rt = (ck.path(name + x) for x in (".ll", ".o", ".so", "_rt.o"))
    exports = ck.write(name + ".map", "{ global: vhk_*; vhs_*; local: *; };\n")
    binary = ck.write(name + ".path", so + "\0")

    def run(cmd, what):
        rc, o, e = core.sh(cmd, timeout=700)
        if rc == 0:
            return
        if rc == 1 and "error" in e and what in ("host", "device"):
            compiler_ok(ck, lang)
            errs = [l for l in e.splitlines() if "error" in l][:12]
            missing = missing_names(lang, e)
            if missing:
                raise Unsupported(missing)
            raise core.Violation("supported use of the library does not compile as %s code (%s side, -std=%s): %s" % (lang, what, std, errs[0] if errs else ""),
                                 {"kind": "compile", "cmd": cmd, "errors": errs, "stderr": e[:6000]})
        raise core.CheckError("device build (%s): %s\n%s" % (what, " ".join(cmd), e[-3000:]))

    def device():
        run(command(ck, lang, std, "device", flags, src, ll, inc), "device")
        text, n = host_code(open(ll).read())
        with open(ll, "w") as f:
            f.write(text)
        run([CLANG, "-x", "ir", "-w", "-O1", "-fPIC", "-c", ll, "-o", so + ".o"], "translate")
        run([CLANG, "-shared", "-Wl,-Bsymbolic", "-Wl,--version-script=" + exports, so + ".o", "-o", so, "-lm"], "library")

    def host():
        run(command(ck, lang, std, "host", flags, src, obj, inc, binary), "host")

    def runtime():
        run(["g++", "-std=c++17", "-O1", "-w", "-c", os.path.join(DEV, "vdev_rt.cpp"), "-o", rt] + (["-DVDEV_HIP"] if lang == "hip" else []), "runtime")

    jobs = [device, host, runtime] + ([ck.engine] if engine else [])
    ck.pool(jobs)
    out = ck.path(name + ".bin")
    run([CLANG, "-rdynamic", obj, rt] + ([ck.engine(), "-lrapidcheck"] if engine else []) + ["-ldl", "-o", out], "link")
    return out
