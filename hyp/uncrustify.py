"""Pairs of style configuration files (C33)."""
import importlib.util
import os
import sys

from hypothesis import strategies as st

from engine import Violation

NAMES = ["indent_columns", "sp_arith", "nl_if", "a", "b", "A", "sp_arith ", "x.y", "n-1", "indent", "sp_before_sparen", "code_width", "Only_One", "\u00e9", "sp arith"]
VALUES = ["", "1", "0", "true", "True", "force", "a b", "  4", "120", "ignore", "x=y", "==", "\"q\"", "-1", "1.0", "01", "+1", "add", "TRUE", "\"1\"", "None", "\u4e2d"]
COMMENTS = ["", "", "", " # why", "# a = b", " #", " # indent_columns = 7", "\t# x # y"]
OTHER = ["", "   ", "# comment", "  # sp_arith = force", "#a = 1", "\t", "#", "####", "# = #"]


def prepare(ctx):
    ctx.tool = os.path.join(ctx.repo, "scripts", "compare_uncrustify.py")
    sys.path.insert(0, os.path.dirname(ctx.tool))
    spec = importlib.util.spec_from_file_location("compare_uncrustify", ctx.tool)
    ctx.mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ctx.mod)


@st.composite
def line(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return ["", draw(st.sampled_from(OTHER))]
    if k == 1:     # a name without a value
        n = draw(st.sampled_from(NAMES[:9])).strip()
        return [n, draw(st.sampled_from(["", "  "])) + n + draw(st.sampled_from(["", " "])), ""]
    n, v = draw(st.one_of(st.sampled_from(NAMES), st.text("abcXYZ_09.", min_size=1, max_size=4))), draw(
        st.one_of(st.sampled_from(VALUES), st.sampled_from(VALUES), st.text("abc 01=.,:\"'!<>{}", max_size=6)))
    sp = draw(st.lists(st.sampled_from(["", " ", "  ", "\t", "          "]), min_size=3, max_size=3))
    return [n.strip(), sp[0] + n + sp[1] + "=" + sp[2] + v + draw(st.sampled_from(COMMENTS)), v.strip()]


@st.composite
def pair(draw):
    a = draw(st.lists(line(), max_size=12))
    mode = draw(st.sampled_from(["free", "mutated", "mutated", "mutated"]))
    b = draw(st.lists(line(), max_size=12 if mode == "free" else 3))
    if mode == "mutated":
        keep = []
        for x in a:
            k = draw(st.integers(0, 5))
            if k >= 3:
                keep.append(x)
            elif k >= 1:       # another value for the same name
                v = draw(st.sampled_from(VALUES))
                keep.append([x[0], x[0] + " = " + v, v.strip()] if x[0] else x)
        b = draw(st.permutations(keep + b))
    return {"a": a, "b": list(b), "nl": draw(st.booleans()), "names": draw(st.sampled_from([["one.cfg", "two.cfg"], ["sub dir/x", "y"], ["same", "same"]]))}


def strategy_c33(ctx):
    return pair()


def settings_of(lines):
    d = {}
    for l in lines:
        if l[0]:
            d[l[0]] = l[2]
    return d


def run_c33(case, ctx):
    top = ctx.fresh()
    try:
        files = []
        for n, k in zip(case["names"], "ab"):
            p = os.path.join(top, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write("\n".join(l[1] for l in case[k]) + ("\n" if case["nl"] else ""))
            files.append(p)
        A, B = settings_of(case["a"]), settings_of(case["b"])
        if case["names"][0] == case["names"][1]:
            A = B
        common = {k: v for k, v in A.items() if B.get(k) == v}
        differ = {k: (A[k], B[k]) for k in A if k in B and A[k] != B[k]}
        one = dict(differ)
        one.update({k: (A[k], None) for k in A if k not in B})
        one.update({k: (None, B[k]) for k in B if k not in A})
        rc, o, e = ctx.script(ctx.tool, case["names"], top)
        what = "compare_uncrustify.py of %r and %r" % (open(files[0]).read(), open(files[1]).read())
        if rc != 0:
            raise Violation("%s: fails with %d: %s" % (what, rc, e[-500:]))
        parts = o.split("\nDifferent Settings:\n")
        if len(parts) != 2 or not parts[0].startswith("Common Settings:\n"):
            raise Violation("%s: prints %r" % (what, o))
        gc = sorted(x for x in parts[0].split("\n")[1:] if x.strip())
        gd = sorted(x for x in parts[1].split("\n") if x.strip())
        ec = sorted("%s = %s" % (k, v) for k, v in common.items())
        ed = sorted("%s: %s != %s" % (k, v[0], v[1]) for k, v in differ.items())
        if [x.strip() for x in gc] != [x.strip() for x in ec]:
            raise Violation("%s: common settings %r instead of %r" % (what, gc, ec))
        if [x.strip() for x in gd] != [x.strip() for x in ed]:
            raise Violation("%s: different settings %r instead of %r" % (what, gd, ed))
        c, d = ctx.mod.compare_config_files(files[0], files[1])
        if dict(c) != common:
            raise Violation("%s: compare_config_files gives common settings %r instead of %r" % (what, c, common))
        if {k: tuple(v) for k, v in d.items()} != one:
            raise Violation("%s: compare_config_files gives different settings %r instead of %r" % (what, d, one))
        labels = [n for n, v in (("common", common), ("different", differ), ("in one file only", len(one) > len(differ)),
                                 ("repeated", len(A) < sum(bool(l[0]) for l in case["a"]))) if v]
        return labels, bool(differ or len(one) > len(differ))
    finally:
        ctx.drop(top)
