"""Trees of headers for the aggregation script (C27, C28)."""
import os
import re
import shutil
import subprocess

from hypothesis import strategies as st

from engine import Violation, difference, snapshot

NAMES = ["x.hpp", "y.hpp", "z.hpp", "w.hpp", "Aa.h", "b-1.hpp", "c_d.hpp", "e.f.hpp", "n m.hpp", "X.hpp", "MyShivaConfig.hpp"]
DIRS = ["", "a", "b", "a/b", "a/b/c", "d.e", "a/a", "f g"]
LINES = [
    "", "", "  ", "\tint %s_tab = 1;", "int %s_plain = 1;", "// a comment %s", "/* a block %s */ int %s_block;", "    int %s_indented = 2;",
    "#include <sysa.h>", "#include <sysb.h>", "#include   <sysc.h>  // %s", "// #include \"%s_not_a_header.hpp\"", "  // #pragma once %s",
    "#pragma message_%s", "char const * %s_s = \"#include\";", "char const * %s_t = \"a // b\";", "#if 1", "int %s_u; // \u00e9\u4e2d", "int %s_trailing;   ",
    "#define %s_LONG a \\\n  b\nint %s_cont = %s_LONG;", "int %s_a; int %s_b;", "//%s", "// ===== %s =====", "# define %s_SP 1\nint %s_sp = %s_SP;", "\f",
    # close to the marks that the script makes itself
    "// == Start of %s ==", "// == End of %s ==", "// ===== End %s =====", "  // ===== End of %s =====", "int %s_e; // ===== End of %s =====", "int %s_f; // ===== Start of %s =====",
    "// [aggregate] %s", "  // [aggregated] int %s_g;",
]


def prepare(ctx):
    ctx.tool = os.path.join(ctx.work, "aggregateOrSplit.py")
    for f in os.listdir(os.path.join(ctx.repo, "scripts")):      # with the modules that it may import
        if f.endswith(".py"):
            shutil.copyfile(os.path.join(ctx.repo, "scripts", f), os.path.join(ctx.work, f))
    sysd = os.path.join(ctx.work, "sys")
    os.makedirs(sysd)
    for k in "abc":
        with open(os.path.join(sysd, "sys%s.h" % k), "w") as f:
            f.write("#ifndef SYS_%s\n#define SYS_%s\nint sys_%s;\n#endif\n" % (k, k, k))
    ctx.sys = sysd


@st.composite
def tree(draw, split):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 5, 6, 8]))
    paths = []
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    for _ in range(n):
        p = os.path.join(draw(st.sampled_from(DIRS)), draw(st.sampled_from(names)))
        k = 0
        while p in paths:
            k += 1
            p = os.path.join(os.path.dirname(p), "%d%s" % (k, os.path.basename(p)))
        paths.append(p)
    ipaths = draw(st.lists(st.sampled_from(["", "", "a", "b", "a/b", "f g", "nowhere"]), max_size=3))
    deflt = draw(st.sampled_from([False, False, False, True]))
    cyc = draw(st.sampled_from([False] * 7 + [True])) and not split
    style_tree = draw(st.sampled_from(["relative", "path", "mixed"]))
    files = []
    for i in range(n):
        pool = list(range(i))
        inc = []
        want = draw(st.lists(st.sampled_from(pool), max_size=4)) if pool else []
        if cyc and draw(st.booleans()):
            want.append(draw(st.integers(0, n - 1)))
        for j in want:
            inc.append({"to": j, "path": draw(st.sampled_from([0, 1, 2])) if style_tree != "relative" else 0,
                        "rel": style_tree == "relative" or (style_tree == "mixed" and draw(st.booleans())),
                        "form": draw(st.sampled_from(["#include \"%s\"", "#include \"%s\"", "#include   \"%s\"", "#include \"%s\" // why", "#include\t\"%s\"  ", "#include \"%s\" // [aggregated] before"])),
                        "dots": draw(st.sampled_from([False] * 5 + [True])),
                        "at": draw(st.integers(0, 5))})
        files.append({"path": paths[i], "guard": draw(st.sampled_from(["#pragma once", "#pragma once", "#pragma   once", "#pragma once // x", "#pragma once // [aggregated] x", "guard", "late"])),
                      "lines": draw(st.lists(st.integers(0, len(LINES) - 1), max_size=6)), "inc": inc,
                      "nl": draw(st.sampled_from([True, True, True, False]))})
    roots = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
    if draw(st.booleans()) and (n - 1) not in roots:
        roots.append(n - 1)
    case = {"files": files, "roots": roots, "rootform": [draw(st.sampled_from(["rel", "abs", "dots"])) for _ in roots],
            "cwd": draw(st.sampled_from(["tree", "tree", "tree/a", "other"])), "ipaths": None if deflt else ipaths,
            "ipform": draw(st.sampled_from(["abs", "rel"])), "out": draw(st.sampled_from(["out.hpp", "gen/out.hpp", "tree/out_all.hpp"])),
            "outform": draw(st.sampled_from(["abs", "rel"]))}
    if split:
        case["dest"] = draw(st.sampled_from(["restored", "res/t o/red", "tree/restored", "gen"]))
        case["destform"] = draw(st.sampled_from(["abs", "rel", "slash"]))
        case["there"] = draw(st.lists(st.sampled_from(["keep.txt", "a/keep.hpp", "x.hpp", "a/x.hpp", "old/x.hpp"]), max_size=3))
        case["stale"] = draw(st.sampled_from([0, 0, 1, 2]))
        case["cwd2"] = draw(st.sampled_from(["tree", "other", ".", "tree/a"]))
        case["moved"] = draw(st.sampled_from([False, False, True]))
    return case


def strategy_c27(ctx):
    return tree(False)


def strategy_c28(ctx):
    return tree(True)


def resolve(base, text, ipaths, exists):
    """The file an include in quotes refers to: next to the file that includes it, then in the include paths in order."""
    for d in [base] + ipaths:
        p = os.path.normpath(os.path.join(d, text))
        if exists(p):
            return p
    return None


class Model:
    """The tree of a case: contents, edges and closure, worked out without the script."""

    def __init__(self, case, top):
        self.top = top
        T = os.path.join(top, "tree")
        self.paths = [os.path.join(T, f["path"]) for f in case["files"]]
        self.cwd = os.path.join(top, case["cwd"])
        self.ipaths = [self.cwd] if case["ipaths"] is None else [os.path.normpath(os.path.join(T, p)) for p in case["ipaths"]]
        known = set(self.paths)
        self.edges, self.text, self.kept = [], [], []
        self.bypath = self.ambiguous = 0
        for i, f in enumerate(case["files"]):
            base = os.path.dirname(self.paths[i])
            tag = "h%d" % i
            body = []
            for k, l in enumerate(f["lines"]):
                t = LINES[l]
                t = t.replace("%s", "%s_%d" % (tag, k))
                body.append(("line", t + ("\n#endif" if t == "#if 1" else ""), None))
            E = []
            for q in f["inc"]:
                to = self.paths[q["to"]]
                cand = []
                if not q["rel"]:
                    cand = [os.path.relpath(to, p) for p in self.ipaths if not os.path.relpath(to, p).startswith("..")]
                    if cand:
                        cand = [cand[q["path"] % len(cand)]]
                spell = cand[0] if cand else os.path.relpath(to, base)
                if q["dots"]:
                    spell = "./" + spell
                target = resolve(base, spell, self.ipaths, known.__contains__)
                assert target is not None
                j = self.paths.index(target)
                E.append(j)
                self.bypath += int(os.path.normpath(os.path.join(base, spell)) != target)
                self.ambiguous += len({os.path.normpath(os.path.join(d, spell)) for d in [base] + self.ipaths} & known) > 1
                body.insert(min(q["at"], len(body)), ("inc", q["form"] % spell, j))
            self.edges.append(E)
            lines = []
            seen = []
            if f["guard"] == "guard":
                lines += [("k", "#ifndef G_%s" % tag), ("k", "#define G_%s" % tag)]
            elif f["guard"] == "late":
                lines += [("k", "// about %s" % tag), ("p", "#pragma once")]
            else:
                lines += [("p", f["guard"])]
            lines += [("k", "int %s_first;" % tag)]
            for kind, t, j in body:
                if kind == "inc":
                    lines.append(("i", t))
                    lines.append(("k", "int %s_uses_%d_%d = M%d;" % (tag, j, len(seen), j)))
                    seen.append(j)
                else:
                    lines += [("k", x) for x in t.split("\n")]
            lines.append(("k", "#define M%d ( %d%s )" % (i, i, "".join(" + M%d" % j for j in seen))))
            lines.append(("k", "int %s_last = M%d;" % (tag, i)))
            if f["guard"] == "guard":
                lines.append(("k", "#endif"))
            self.kept.append(lines)
            self.text.append("\n".join(t for _, t in lines) + ("\n" if f["nl"] else ""))
        self.roots = case["roots"]
        # closure, and whether a cycle is in it
        self.closure = set()
        self.cyclic = False
        state = {}

        def visit(i):
            state[i] = 1
            self.closure.add(i)
            for j in self.edges[i]:
                if state.get(j) == 1:
                    self.cyclic = True
                elif j not in state:
                    visit(j)
            state[i] = 2
        for r in self.roots:
            if r not in state:
                visit(r)

    def put(self):
        T = os.path.join(self.top, "tree")
        for d in ("tree/a", "tree/b", "tree/a/b", "other", "gen"):
            os.makedirs(os.path.join(self.top, d), exist_ok=True)
        for p, t in zip(self.paths, self.text):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(t)


def spell(form, path, cwd):
    if form == "abs":
        return path
    if form == "slash":
        return path + "/"
    r = os.path.relpath(path, cwd)
    return ("./" + r) if form == "dots" else r


def aggregate(ctx, case, m, roots, out, ipaths, cwd):
    argv = ["aggregate"] + roots + [out]
    if ipaths is not None:
        argv += ["--include-paths"] + ipaths
    return ctx.script(ctx.tool, argv, cwd), argv


def sections(text):
    """[(path, [lines])] of an aggregated header, and the lines outside of them."""
    res, rest, cur = [], [], None
    lines = text.split("\n")
    for l in lines:
        a = re.match(r"// ===== Start of (.*) =====$", l)
        b = re.match(r"// ===== End of (.*) =====$", l)
        if a and cur is None:
            cur = (a.group(1), [])
        elif b and cur is not None and b.group(1) == cur[0]:
            res.append(cur)
            cur = None
        elif cur is not None:
            cur[1].append(l)
        else:
            rest.append(l)
    return res, rest, cur


def preprocess(ctx, text, flags, cwd):
    p = subprocess.run(["g++", "-E", "-P", "-x", "c++", "-w"] + flags + ["-"], input=text.encode(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def tokens(text):
    """Declarations (whatever their order) and pragmas of preprocessed text."""
    lines = text.split("\n")
    prag = [l.strip() for l in lines if l.lstrip().startswith("#")]
    rest = " ".join(l for l in lines if not l.lstrip().startswith("#"))
    return sorted(prag + [re.sub(r"\s+", " ", s).strip() for s in rest.split(";")])


def first(ctx, case):
    top = ctx.fresh()
    m = Model(case, top)
    m.put()
    out = os.path.join(top, case["out"])
    before = snapshot(top)
    roots = [spell(f, m.paths[r], m.cwd) for r, f in zip(case["roots"], case["rootform"])]
    ip = None if case["ipaths"] is None else [spell(case["ipform"], p, m.cwd) for p in m.ipaths]
    (rc, o, e), argv = aggregate(ctx, case, m, roots, spell(case["outform"], out, m.cwd), ip, m.cwd)
    return top, m, out, before, rc, o, e, argv


def run_c27(case, ctx):
    top, m, out, before, rc, o, e, argv = first(ctx, case)
    try:
        what = "aggregateOrSplit.py %s (in %s)" % (" ".join(argv), case["cwd"])
        after = snapshot(top)
        outrel = os.path.relpath(out, top)
        d = difference({k: v for k, v in before.items() if k != outrel}, {k: v for k, v in after.items() if k != outrel})
        if d:
            raise Violation("%s: modifies other files: %s" % (what, d))
        if m.cyclic:
            if rc == 0:
                raise Violation("%s: headers that include each other are not reported" % what)
            if rc < 0:
                raise Violation("%s: ended by signal %d on headers that include each other" % (what, -rc))
            return ["cyclic"], len(m.closure) > 1
        if rc != 0:
            raise Violation("%s: fails with %d: %s" % (what, rc, e[-600:]))
        if outrel not in after:
            raise Violation("%s: writes no output" % what)
        text = after[outrel][2].decode("utf-8")
        secs, rest, openend = sections(text)
        if openend is not None:
            raise Violation("%s: no end of header %s in the output" % (what, openend[0]))
        names = [s[0] for s in secs]
        want = sorted(m.paths[i] for i in m.closure)
        if sorted(os.path.normpath(n) for n in names) != want:
            raise Violation("%s: holds %s instead of %s" % (what, sorted(names), want))
        if any(l.strip() and not l.strip().startswith("//") for l in rest):
            raise Violation("%s: has lines outside of the headers: %s" % (what, [l for l in rest if l.strip()][:3]))
        pos = {m.paths.index(os.path.normpath(n)): k for k, n in enumerate(names)}
        for i in m.closure:
            for j in m.edges[i]:
                if pos[j] >= pos[i]:
                    raise Violation("%s: %s comes before %s, which it includes" % (what, m.paths[i], m.paths[j]))
        for n, ls in secs:
            i = m.paths.index(os.path.normpath(n))
            exp = m.kept[i]
            if ls and ls[-1] == "" and len(ls) == len(exp) + 1:
                ls = ls[:-1]
            if len(ls) != len(exp):
                raise Violation("%s: %s has %d lines instead of %d" % (what, n, len(ls), len(exp)))
            for got, (kind, t) in zip(ls, exp):
                if kind == "k":
                    if got != t:
                        raise Violation("%s: the line %r of %s became %r" % (what, t, n, got))
                elif not (got.startswith("//") and got.rstrip().endswith(t.rstrip())):
                    raise Violation("%s: the line %r of %s is not disabled but %r" % (what, t, n, got))
        # a program that includes it behaves as one that includes the headers
        fl = ["-I" + p for p in m.ipaths] + ["-isystem", ctx.sys]
        r1, a, x1 = preprocess(ctx, "".join("#include \"%s\"\n" % m.paths[r] for r in m.roots), fl, ctx.work)
        r2, b, x2 = preprocess(ctx, "#include \"%s\"\n" % out, ["-isystem", ctx.sys], ctx.work)
        if r1 != 0:
            raise RuntimeError("the model made headers that are not valid: " + x1)
        if r2 != 0:
            raise Violation("%s: a program that includes the output is not accepted: %s" % (what, x2[:500]))
        ta, tb = tokens(a), tokens(b)
        if ta != tb:
            raise Violation("%s: a program that includes the output differs: %s" % (what, sorted(set(ta) ^ set(tb))[:4]))
        shared = len(m.closure) >= 3 and any(sum(m.edges[i].count(j) > 0 for i in m.closure) > 1 for j in m.closure)
        labels = ["headers %d" % len(m.closure)] + (["shared header"] if shared else []) + (["several roots"] if len(set(m.roots)) > 1 else []) + (
            ["found by include path"] if m.bypath else []) + (["found in several places"] if m.ambiguous else [])
        return labels, any(m.edges[i] for i in m.closure)
    finally:
        ctx.drop(top)


def same(a, b):
    """Contents up to the newline at the end of the last line, which aggregation adds where it is missing."""
    return a == b or a + b"\n" == b


def run_c28(case, ctx):
    top, m, out, before, rc, o, e, argv = first(ctx, case)
    try:
        if m.cyclic or rc != 0:
            return ["not aggregated"], False
        if case["moved"]:
            shutil.move(os.path.join(top, "tree"), os.path.join(top, "moved tree"))
            os.makedirs(os.path.join(top, "tree/a"))
            if case["out"].startswith("tree"):
                shutil.copy(os.path.join(top, "moved tree/out_all.hpp"), out)
        dest = os.path.join(top, case["dest"])
        clo = sorted(m.closure)
        common = os.path.commonpath([os.path.dirname(m.paths[i]) for i in clo])
        rels = {i: os.path.relpath(m.paths[i], common) for i in clo}
        for t in case["there"]:
            p = os.path.join(dest, t)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("was here before\n" * 3)
        for k, i in enumerate(clo):      # left by a run before
            p = os.path.join(dest, rels[i])
            if case["stale"] and (k + case["stale"]) % 2 and not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write("// of a run before\n" * 400)
        cwd2 = os.path.join(top, case["cwd2"])
        before = snapshot(top)
        argv = ["split", spell("rel" if case["destform"] == "rel" else "abs", out, cwd2), spell(case["destform"], dest, cwd2)]
        rc, o, e = ctx.script(ctx.tool, argv, cwd2)
        what = "aggregateOrSplit.py %s (in %s) after aggregation of %s" % (" ".join(argv), case["cwd2"], [m.paths[r] for r in m.roots])
        if rc != 0:
            raise Violation("%s: fails with %d: %s" % (what, rc, e[-600:]))
        after = snapshot(top)
        exp = {os.path.normpath(os.path.join(case["dest"], rels[i])): i for i in clo}
        for p, i in exp.items():
            if p not in after or after[p][0] != "file":
                raise Violation("%s: does not write %s" % (what, p))
            if not same(m.text[i].encode("utf-8"), after[p][2]):
                raise Violation("%s: %s is %r instead of %r" % (what, p, after[p][2][:300], m.text[i][:300]))
        parents = set()
        for p in exp:
            q = os.path.dirname(p)
            while q:
                parents.add(q)
                q = os.path.dirname(q)
        d = difference({k: v for k, v in before.items() if k not in exp and not (k in parents and v[0] == "dir")},
                       {k: v for k, v in after.items() if k not in exp and not (k in parents and v[0] == "dir")})
        if d:
            raise Violation("%s: changes other files: %s" % (what, d))
        labels = ["headers %d" % len(clo)]
        # aggregated again, where every include can be resolved among the restored headers
        new = {i: os.path.join(dest, rels[i]) for i in clo}
        back = {os.path.normpath(v): k for k, v in new.items()}
        ips = [os.path.normpath(os.path.join(dest, os.path.relpath(p, common))) for p in m.ipaths]
        again = True
        for i in clo:
            targets = []
            for kind, t in m.kept[i]:
                if kind == "i":
                    s = re.match(r"#include\s+\"([^\"]+)\"", t).group(1)
                    targets.append(back.get(resolve(os.path.dirname(new[i]), s, ips, os.path.exists)))
            again = again and targets == m.edges_in_order(i)
        if again:
            out2 = os.path.join(top, "again.hpp")
            rc, o, e = ctx.script(ctx.tool, ["aggregate"] + [new[r] for r in m.roots] + [out2, "--include-paths"] + ips, top)
            if rc != 0:
                raise Violation("%s: aggregation of the restored headers fails with %d: %s" % (what, rc, e[-500:]))
            a, _, _ = sections(before[os.path.relpath(out, top)][2].decode("utf-8"))
            with open(out2, encoding="utf-8") as f:
                b, _, _ = sections(f.read())
            sa = [(m.paths.index(os.path.normpath(n)), ls) for n, ls in a]
            sb = [(back.get(os.path.normpath(n)), ls) for n, ls in b]
            if sa != sb:
                raise Violation("%s: aggregation of the restored headers gives %s instead of %s, or other contents" % (
                    what, [n for n, _ in b], [n for n, _ in a]))
            labels.append("aggregated again")
        if case["there"]:
            labels.append("files there before")
        if case["moved"]:
            labels.append("original headers elsewhere")
        return labels, len(clo) > 1
    finally:
        ctx.drop(top)


def edges_in_order(self, i):
    """Targets of the includes of a header, in the order of its lines."""
    known = set(self.paths)
    res = []
    for kind, t in self.kept[i]:
        if kind == "i":
            s = re.match(r"#include\s+\"([^\"]+)\"", t).group(1)
            res.append(self.paths.index(resolve(os.path.dirname(self.paths[i]), s, self.ipaths, known.__contains__)))
    return res


Model.edges_in_order = edges_in_order
