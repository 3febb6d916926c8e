"""One function per property."""
import math
import os
import re
import shutil

import core
import device
import gen07
import snippets

CHECKS = {}


def check(f):
    CHECKS[f.__name__.upper()] = f
    return f


def replay(ck, rep):
    ck.replaying = rep
    CHECKS[rep["property"]](ck)


def both(src):
    """A harness that is compiled once for each floating point type."""
    return [(src, ("-DVH_REAL=double",)), (src, ("-DVH_REAL=float",))]


def three(src):
    return both(src) + [(src, ("-DVH_REAL=long double",))]


def gen_nodes(ck):
    """Asymmetric, unsorted sets of distinct nodes: three user-defined spacings."""
    rows = []
    for s in range(3):
        # distinct nodes at least 0.2 apart
        cells = list(range(10))
        ck.rng.shuffle(cells)
        nodes = [-1.45 + 0.3 * k + ck.rng.uniform(0, 0.1) for k in cells]
        rows.append("{" + ",".join("%.17g" % v for v in nodes) + "}")
    ck.write("gen_nodes.hpp", "#pragma once\ninline constexpr int genNodeSets = 3;\ninline constexpr double genNodes[3][10] = {%s};\n" % ",\n".join(rows))


@check
def c01(ck):
    ck.rule = ("Each case draws, for one instantiation of the Lagrange basis (order, spacing, floating point type; spacings include "
               "generated asymmetric ones), a coordinate (inside, on or one ulp beside a support point, or outside the domain) and "
               "polynomial coefficients. Non-trivial: the coordinate is not a support point, or the order is above 1.")
    gen_nodes(ck)
    ck.pbt("c01", three("c01.cpp"), 10000, 200000)


@check
def c02(ck):
    ck.rule = ("Each case draws, for one instantiation of the Lagrange basis (order, spacing, floating point type), a coordinate (inside, on "
               "a support point, or outside the domain), a second coordinate and polynomial coefficients. Non-trivial: the order is above 1, so "
               "that the gradient depends on the coordinate.")
    gen_nodes(ck)
    ck.pbt("c02", three("c02.cpp"), 8000, 150000)


@check
def c03(ck):
    ck.rule = ("Each case draws, for one combination of one-dimensional bases (one to six directions, mixed orders and spacings), a coordinate and "
               "one way to call (product, parent element, interpolated shape; built-in array, std::array, array object) and checks every index "
               "combination. Non-trivial: two or more directions with different coordinates.")
    gen_nodes(ck)
    ck.pbt("c03", three("c03.cpp"), 3000, 40000, configs=core.QUICK_TWO if ck.quick else None)


@check
def c04(ck):
    ck.rule = ("Each case draws, for one parent element (one to five directions, mixed orders and spacings), a coordinate, nodal values (arbitrary, "
               "one node, or of a polynomial up to the order per direction) and the kind of object that holds them. Non-trivial: nodal values that "
               "are not all equal.")
    gen_nodes(ck)
    ck.pbt("c04", three("c04.cpp"), 3000, 40000, configs=core.QUICK_TWO if ck.quick else None)


@check
def c05(ck):
    ck.rule = ("Each case draws, for one spacing (rule, number of points, floating point type; alone or as the base of a basis), an index, whether it is "
               "given at run time, and a place at which the polynomial with these points as roots is compared with the Legendre polynomial that "
               "defines the rule. Non-trivial: more than two points.")
    ck.pbt("c05", three("c05.cpp"), 5000, 60000)


@check
def c06(ck):
    ck.rule = ("Each case draws a rule (or two or three for a tensor product), an index, whether indices are given at run time, and a polynomial up to "
               "the degree of exactness. Non-trivial: a degree that only the Gauss rule integrates exactly; for products, different rules.")
    ck.pbt("c06", three("c06.cpp"), 10000, 150000)


def gen_shapes(ck, n, limit, types=("double", "float", "int", "Pair", "long", "char"), fixed=()):
    """n array shapes: each rank occurs, extents differ, products up to limit."""
    out = [(types[k % len(types)], d) for k, d in enumerate(fixed)]
    seen = set(d for _, d in out)
    k = 0
    while len(out) < n:
        rank = 1 + (k % 8)
        k += 1
        d = []
        prod = 1
        for r in range(rank):
            m = max(1, min(5 if rank > 1 else 12, limit // prod))
            v = ck.rng.randint(1 if r % 3 == 1 else 2, m) if m >= 2 else 1
            d.append(v)
            prod *= v
        d = tuple(d)
        if d in seen:
            continue
        seen.add(d)
        out.append((types[k % len(types)], d))
    return out


def large_shapes(ck, n):
    """Shapes of more than 32767 elements, up to the last one an int can count; some extents and some strides are beyond 16 bits."""
    out = [("double", (3, 40000)), ("char", (2147483647,)), ("int", (100000, 2)), ("float", (2, 200, 200)), ("char", (46340, 46341)), ("Pair", (70001, 3))]
    types = {"char": 1, "short": 2, "int": 4, "float": 4, "double": 8, "Pair": 16}
    while len(out) < n:
        t = ck.rng.choice(list(types))
        rank = ck.rng.randint(1, 6)
        total = 2 ** ck.rng.uniform(15.1, 30.99 - math.log2(types[t]) if ck.rng.random() < 0.5 else 22)
        d = []
        for r in range(rank - 1):
            v = max(1, int(total ** ck.rng.uniform(0, 1)) if ck.rng.random() < 0.8 else 1)
            d.append(v)
            total /= v
        d.append(max(1, int(total)))
        ck.rng.shuffle(d)
        if math.prod(d) > 32767 and (t, tuple(d)) not in out:
            out.append((t, tuple(d)))
    return [(t, math.prod(d) * types[t] > 4 << 20, d) for t, d in out]


def shape_header(ck, parts, shapes, large=()):
    """gen_shapes.hpp: the shapes of part VH_PART."""
    s = "#pragma once\n"
    for p in range(parts):
        s += "#if VH_PART == %d\n#define VH_SHAPES %s\n#define VH_LARGE %s\n#endif\n" % (
            p, " ".join("SHAPE( %s, %s )" % (t, ", ".join(map(str, d))) for t, d in shapes[p::parts]),
            " ".join("LARGE( %s, %s, %s )" % (t, str(v).lower(), ", ".join(map(str, d))) for t, v, d in large[p::parts]))
    ck.write("gen_shapes.hpp", s)
    if large:
        ck.extra["large_shapes"] = ["%s[%s]" % (t, "][".join(map(str, d))) for t, _, d in large]
    ck.extra["shapes"] = ["%s[%s]" % (t, "][".join(map(str, d))) for t, d in shapes]


FIXED_SHAPES = [(2, 3), (5,), (2, 3, 4), (4, 3, 2), (1, 4), (3, 1, 2), (2, 3, 2, 3), (3, 2, 1, 2, 3), (2, 1, 3, 2, 1, 2), (1,), (3, 3), (2, 1, 2, 3, 1, 2, 2), (1, 2, 1, 2, 2, 1, 3, 2)]


@check
def c08(ck):
    ck.rule = ("Each case is a history of one to twelve accesses (form of access, indices, read or write, value) to an array of one of the shapes, "
               "compared with a flat vector after every step; half of the shapes are generated from the seed. Non-trivial: at least one write and "
               "two forms of access on an array of more than one element.")
    shapes = gen_shapes(ck, 20 if ck.quick else 44, 48, fixed=FIXED_SHAPES)
    parts = 4 if ck.quick else 8
    shape_header(ck, parts, shapes, large_shapes(ck, 10 if ck.quick else 24))
    ck.pbt("c08", [("c08.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 3000, 30000)


@check
def c09(ck):
    ck.rule = ("Run time: each case draws, for one array shape with bounds checks configured, a form of access, which indices are out of range and how "
               "(just outside, far outside, negative, at the ends of the type), and runs it in a child process whose end, messages and memory are "
               "checked; accesses in range run in the process itself. Compile time: programs with one index out of range must be rejected, the same "
               "programs with the index in range accepted. Non-trivial: at least one index out of range.")
    shapes = gen_shapes(ck, 16 if ck.quick else 40, 48, fixed=FIXED_SHAPES) + [("char", (40000,)), ("float", (3, 33000)), ("short", (70000, 2)), ("char", (300, 256)),
        ("char", (16777217,)), ("char", (3, 33554437))]
    parts = 2 if ck.quick else 8
    shape_header(ck, parts, shapes)
    ck.pbt("c09", [("c09.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 600, 3000,
           configs=["gcc17", "clang17"] if ck.quick else ["gcc17", "clang17", "gcc23", "gcc20d"])
    if ck.replaying and ck.replaying.get("kind") != "reject":
        return
    # compile time indices
    jobs = []
    for k in range(16 if ck.quick else 120):
        t, d = shapes[ck.rng.randrange(len(shapes))]
        idx = [ck.rng.randrange(v) for v in d]
        bad = list(idx)
        w = ck.rng.randrange(len(d))
        bad[w] = ck.rng.choice([d[w], -1, d[w] + ck.rng.randint(1, 9), -1 - ck.rng.randint(1, 9), 2147483647, -2147483648 + 1, d[w] * 2])
        form = k % 4
        decl = ["shiva::CArrayNd< %s, %s > a{};", "shiva::CArrayNd< %s, %s > const a{};", "%s b[%d]; shiva::CArrayViewNd< %s, %s > a( b );",
                "%s b[%d]{}; shiva::CArrayViewNd< %s const, %s > a( b );"][form]
        dims = ", ".join(map(str, d))
        n = 1
        for v in d:
            n *= v
        decl = decl % ((t, dims) if form < 2 else (t, n, t, dims))

        def prog(ix):
            return "#include \"shiva/common/CArray.hpp\"\nstruct Pair { int a; double b; };\nint main() { %s auto const & x = a.operator()< %s >(); (void) x; }\n" % (decl, ", ".join(map(str, ix)))
        jobs.append((prog(idx), prog(bad), CONFIG_PICK[k % len(CONFIG_PICK)]))
    reject_pairs(ck, "compile time index out of range", jobs)


CONFIG_PICK = [("g++", "c++17", True), ("clang++", "c++20", False), ("g++", "c++23", False), ("clang++", "c++17", True)]


def reject_pairs(ck, what, jobs):
    """Each job: (program that must compile, program that must be rejected, (compiler, standard, bounds))."""
    rp = ck.replaying
    if rp:
        jobs = [(rp["good"], rp["bad"], tuple(rp["config"]))]

    for b in {c[2] for _, _, c in jobs}:
        ck.config_dir(b)

    def one(good, bad, cfg):
        for text, want in ((good, True), (bad, False)):
            okc, err = ck.compiles(text, *cfg)
            if okc != want:
                raise core.Violation("%s: %s a program that must %s [%s -std=%s]: %s\n%s" % (
                    what, "accepted" if okc else "rejected", "compile" if want else "be rejected", cfg[0], cfg[1], text.strip(), err[:600]),
                    {"kind": "reject", "good": good, "bad": bad, "config": list(cfg)})
    ck.pool([lambda j=j: one(*j) for j in jobs])
    for g, b, c in jobs:
        ck.count(2, "programs compiled or rejected")
        ck.nontriv(b)
    for g, b, c in jobs[:3]:
        ck.sample("must be rejected [%s %s]: %s" % (c[0], c[1], b.splitlines()[-1]))


@check
def c10(ck):
    ck.rule = ("Each case is a history of one to ten operations (construct from a list, copy, assign, swap, pass by value, view, copy a view, slice, "
               "write) on three arrays and two buffers of one shape, with lasting views and guard elements, compared with flat vectors after every "
               "step; half of the shapes are generated from the seed. Compile time: programs that write through constant access must be rejected "
               "and their counterparts accepted. Non-trivial: two or more kinds of operation on more than one element.")
    shapes = gen_shapes(ck, 18 if ck.quick else 44, 48, fixed=FIXED_SHAPES)
    parts = 4 if ck.quick else 8
    shape_header(ck, parts, shapes)
    ck.pbt("c10", [("c10.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 3000, 30000)
    if ck.replaying and ck.replaying.get("kind") != "reject":
        return
    jobs = []
    head = "#include \"shiva/common/CArray.hpp\"\n#include <utility>\nstruct Pair { int a; double b; };\n"
    for k in range(24 if ck.quick else 144):
        t, d = shapes[ck.rng.randrange(len(shapes))]
        dims = ", ".join(map(str, d))
        n = 1
        for v in d:
            n *= v
        idx = [ck.rng.randrange(v) for v in d]
        call = "( %s )" % ", ".join(map(str, idx))
        br = "".join("[%d]" % v for v in idx)
        ct = ".operator()< %s >()" % ", ".join(map(str, idx))
        acc = [call, br, ct][ck.rng.randrange(3)]
        w = "%s = %s{};" % (acc, t)
        f = k % 6
        if f == 0:    # constant array
            g, b = "shiva::CArrayNd< %s, %s > x{}; x%s" % (t, dims, w), "shiva::CArrayNd< %s, %s > const x{}; x%s" % (t, dims, w)
        elif f == 1:  # view of constant data
            g, b = ("%s b[%d]{}; shiva::CArrayViewNd< %s, %s > x( b ); x%s" % (t, n, t, dims, w),
                    "%s b[%d]{}; shiva::CArrayViewNd< %s const, %s > x( b ); x%s" % (t, n, t, dims, w))
        elif f == 2:  # constant view
            g, b = ("%s b[%d]{}; shiva::CArrayViewNd< %s, %s > x( b ); x%s" % (t, n, t, dims, w),
                    "%s b[%d]{}; shiva::CArrayViewNd< %s, %s > const x( b ); x%s" % (t, n, t, dims, w))
        elif f == 3:  # view of a constant buffer
            g, b = ("%s b[%d]{}; shiva::CArrayViewNd< %s, %s > x( b ); (void) x;" % (t, n, t, dims),
                    "%s const b[%d]{}; shiva::CArrayViewNd< %s, %s > x( b ); (void) x;" % (t, n, t, dims))
        elif f == 4:  # slice of a constant array
            if len(d) < 2:
                d2 = (2, d[0])
                dims, idx = ", ".join(map(str, d2)), [1] + idx
            sub = "( %s )" % ", ".join(map(str, idx[1:]))
            g = "shiva::CArrayNd< %s, %s > x{}; auto s = x[%d]; s%s = %s{};" % (t, dims, idx[0], sub, t)
            b = "shiva::CArrayNd< %s, %s > const x{}; auto s = x[%d]; s%s = %s{};" % (t, dims, idx[0], sub, t)
        else:         # another number of indices
            g = "shiva::CArrayNd< %s, %s > x{}; auto & y = x%s; (void) y;" % (t, dims, call)
            b = "shiva::CArrayNd< %s, %s > x{}; auto & y = x( %s ); (void) y;" % (t, dims, ", ".join(map(str, idx + [0])))
        jobs.append((head + "int main() { %s }\n" % g, head + "int main() { %s }\n" % b, CONFIG_PICK[k % len(CONFIG_PICK)]))
    reject_pairs(ck, "constness and shape of access", jobs)


BASE_MAX = {"int": 2**31 - 1, "long": 2**63 - 1, "short": 2**15 - 1, "unsigned": 2**32 - 1, "unsigned char": 255, "signed char": 127,
            "std::size_t": 2**64 - 1, "std::int64_t": 2**63 - 1, "unsigned short": 65535}


def gen_ranges(ck, n, limit, zero=False, fixed=()):
    """n sets of ranges (base index type, ranges) with a product up to limit and within the base index type."""
    out = list(fixed)
    seen = set(out)
    types = sorted(BASE_MAX)
    k = 0
    while len(out) < n:
        t = types[k % len(types)]
        rank = 1 + ck.rng.randrange(9)
        k += 1
        top = min(limit, BASE_MAX[t] + 1)
        r = []
        prod = 1
        for d in range(rank):
            m = min(top // prod, BASE_MAX[t], 2**63 - 1)
            v = max(1, min(m, int(round(m ** (ck.rng.uniform(0.1, 1.0) / max(1, rank - d) * ck.rng.choice([1, 1, 1.5]))))))
            if ck.rng.random() < 0.12:
                v = 1
            r.append(v)
            prod *= v
        if zero and ck.rng.random() < 0.08:
            r[ck.rng.randrange(rank)] = 0
        ck.rng.shuffle(r)
        if (t, tuple(r)) in seen:
            continue
        seen.add((t, tuple(r)))
        out.append((t, tuple(r)))
    return out


def range_header(ck, parts, ranges):
    s = "#pragma once\n#include <cstddef>\n#include <cstdint>\n"
    for p in range(parts):
        s += "#if VH_PART == %d\n#define VH_RANGES %s\n#endif\n" % (
            p, " ".join("RANGE( %s, %s )" % (t, ", ".join(map(str, d))) for t, d in ranges[p::parts]))
    ck.write("gen_ranges.hpp", s)
    ck.extra["ranges"] = ["%s: %s" % (t, "x".join(map(str, d))) for t, d in ranges]


@check
def c11(ck):
    ck.rule = ("Each case draws, for one set of ranges (half of them generated from the seed; base index types of 8 to 64 bits, sizes up to the end of "
               "the type), a multi-index (anywhere, near the begin or end, at the ends of each range), and compares its linear index, that of its "
               "successor, the steps in each direction and, if the size allows it, the position in an array. Non-trivial: two or more indices, one "
               "of them not zero.")
    fixed = [("int", (2, 3, 4)), ("int", (5,)), ("long", (3, 2)), ("int", (1, 7)), ("int", (7, 1, 2)), ("std::int64_t", (100000, 100000)), ("long", (1000000, 3000, 2000)),
             ("std::size_t", (4294967, 1000, 1000)), ("int", (2, 1, 3, 2)), ("short", (181, 181)), ("unsigned char", (16, 16)), ("unsigned", (65536, 65535)),
             ("int", (46340, 46341)), ("int", (2147483647,)), ("long", (2, 2, 2, 2, 2, 2, 2, 2)), ("signed char", (4, 4, 8)),
             ("long", (3000000000, 2)), ("long", (7, 4294967297)), ("unsigned", (4294967295,)), ("std::size_t", (2147483648, 3, 4)), ("std::int64_t", (9223372036854775807,))]
    ranges = gen_ranges(ck, 40 if ck.quick else 120, 2**63, fixed=fixed)
    parts = 2 if ck.quick else 8
    range_header(ck, parts, ranges)
    ck.pbt("c11", [("c11.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 4000, 60000)


@check
def c12(ck):
    ck.rule = ("Each case draws, for one set of ranges (half of them generated from the seed), where the loop starts (zero, anywhere, at the last index "
               "of some or all ranges, behind the end; near the end where the range is large) and the kind of body (lambda, stateful, constant, move only, function, with a loop inside), and "
               "compares all visits with an odometer. Non-trivial: two or more indices and more than one visit.")
    fixed = [("int", (2, 2, 2)), ("int", (2, 3, 4)), ("int", (5,)), ("long", (3, 2)), ("int", (1, 7)), ("int", (7, 1, 2)), ("int", (1,)), ("int", (1, 1, 1)),
             ("short", (4, 3, 2)), ("unsigned", (3, 5)), ("unsigned char", (255,)), ("signed char", (127,)), ("std::size_t", (2, 3, 2, 3)), ("int", (2, 1, 3, 2, 2, 1)),
             ("int", (2, 1, 2, 2, 1, 2, 1, 3)), ("short", (1, 2, 1, 2, 1, 2, 1, 2, 1, 2)), ("int", (0,)), ("int", (3, 0, 2)), ("long", (3000000000, 2)), ("int", (2147483647,)), ("unsigned", (4294967295, 3)), ("std::size_t", (2, 5000000000)),
             ("short", (32767, 2)), ("std::int64_t", (9223372036854775807,)), ("int", (3, 2147483647, 2))]
    ranges = gen_ranges(ck, 40 if ck.quick else 120, 400, zero=True, fixed=fixed)
    parts = 2 if ck.quick else 8
    range_header(ck, parts, ranges)
    ck.pbt("c12", [("c12.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 600, 6000)


def seq_header(ck, parts, ones, nested, packs):
    items = ["ONE( %d )" % n for n in ones] + ["NESTED( %s )" % ", ".join(map(str, e)) for e in nested] + ["PACK( %s )" % ", ".join(map(str, e)) for e in packs]
    s = "#pragma once\n"
    for p in range(parts):
        s += "#if VH_PART == %d\n#define VH_SEQ %s\n#endif\n" % (p, " ".join(items[p::parts]))
    ck.write("gen_seq.hpp", s)
    ck.extra["sequences"] = items


def gen_ends(ck, n, limit, fixed):
    out = list(fixed)
    while len(out) < n:
        rank = ck.rng.randint(1, 6)
        e = []
        prod = 1
        for d in range(rank):
            v = ck.rng.randint(1, max(1, min(limit // prod, 7)))
            e.append(v)
            prod *= v
        ck.rng.shuffle(e)
        if tuple(e) not in out:
            out.append(tuple(e))
    return out


@check
def c13(ck):
    ck.rule = ("Each case draws, for one compile time loop (one index or nested; half of the ends and packs are generated from the seed), the kind of "
               "body (index as argument or template parameter, stateful, constant, move only, loops inside) and values that it accumulates in the "
               "order of its calls, and compares the calls with run time loops. Non-trivial: more than one call.")
    ones = [0, 1, 2, 3, 4, 5, 8, 16, 33] + ([129] if ck.quick else [64, 128, 129, 200]) + sorted(ck.rng.sample(range(6, 60), 3 if ck.quick else 15))
    nested = gen_ends(ck, 16 if ck.quick else 40, 72, [(3,), (2, 3), (3, 2), (1, 4), (4, 1, 2), (2, 3, 4), (2, 2, 2, 2), (1, 1, 1), (0, 3), (3, 0), (2, 1, 2, 3, 2), (2, 1, 1, 2, 3, 3, 2), (1, 2, 1, 2, 1, 1, 2, 1, 2)] + ([] if ck.quick else [(17, 16), (7, 7, 7), (2, 130)]))
    packs = [tuple(ck.rng.randint(-9, 99) if ck.rng.random() < 0.9 else ck.rng.choice([2147483647, -2147483647]) for _ in range(k)) for k in [1, 2, 3, 3, 4, 5, 7, 11]]
    parts = 4 if ck.quick else 8
    seq_header(ck, parts, ones, nested, packs)
    ck.pbt("c13", [("c13.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 1000, 10000)


@check
def c14(ck):
    ck.rule = ("Each case draws, for one length of the sequence, a kind of body and of further arguments (values, references, moved objects, none; "
               "indices as arguments or as template parameters; nested expansions) and values, and compares calls, arguments and results with a run "
               "time loop. Non-trivial: two or more indices.")
    ones = [0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 65] + ([] if ck.quick else [128, 130]) + sorted(ck.rng.sample([7, 9, 10, 11] + list(range(13, 20)) + list(range(21, 40)), 3 if ck.quick else 12))
    parts = 2 if ck.quick else 8
    seq_header(ck, parts, ones, [], [])
    ck.pbt("c14", [("c14.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 1500, 15000)


def domains(ck, n, parts, maxdim, extreme):
    """Generated domains of cubes and simplices."""
    items = []
    for k in range(n):
        shape = "CUBE" if k % 2 else "SIMPLEX"
        R = ck.rng.choice(["double", "float", "long double"])
        N = 1 + (k // 2) % maxdim[shape]
        style = ck.rng.randrange(5)
        if style == 0:
            lo, hi, dv = -1, 1, 1
        elif style == 1:
            lo = ck.rng.randint(-9, 9)
            hi, dv = lo + ck.rng.randint(1, 12), ck.rng.randint(1, 12)
        elif style == 2 and extreme and N <= 3:
            lo = -ck.rng.randint(10**9, 2147483647)
            hi, dv = ck.rng.randint(10**9, 2147483647), ck.rng.choice([1, 7, 1000, 2147483647])
        else:
            lo = ck.rng.randint(-1000, 1000)
            hi, dv = lo + ck.rng.randint(1, 3000), ck.rng.randint(1, 1000)
        if (hi - lo) / dv > 100 and N > 3:
            dv = max(dv, (hi - lo) // 20)
        if (hi - lo) / dv < 0.01 and N > 3:
            dv = max(1, (hi - lo) * 10)
        if N > 8 and not 0.5 < (hi - lo) / dv < 20:
            dv = max(1, (hi - lo) // ck.rng.randint(1, 12))   # powers of the length have to stay in range
        items.append("%s( %s, %d, %d, %d, %d )" % (shape, R, N, lo, hi, dv))
    if extreme:
        items += ["CUBE( double, 2, -2147483647, 2147483647, 3 )", "SIMPLEX( float, 2, -2147483647, 2147483647, 1 )", "CUBE( float, 1, -2147483647, 2147483646, 2147483647 )"]
    s = "#pragma once\n"
    for p in range(parts):
        s += "#if VH_PART == %d\n#define VH_DOMAINS %s\n#endif\n" % (p, " ".join(items[p::parts]))
    ck.write("gen_domains.hpp", s)
    ck.extra["domains"] = items


@check
def c15(ck):
    ck.rule = ("Each case draws, for one cube or simplex on a generated domain (every dimension that the integer types allow), a sub-dimension and a "
               "named count, and compares with the sub-shapes counted one by one (words over three letters, subsets of the vertices). Non-trivial: "
               "two or more dimensions and a sub-dimension above zero.")
    parts = 2 if ck.quick else 4
    domains(ck, 52 if ck.quick else 160, parts, {"CUBE": 12, "SIMPLEX": 11}, False)
    ck.pbt("c15", [("c15.cpp", ("-DVH_PART=%d" % p, "-DVH_COUNTS")) for p in range(parts)], 400, 2000)


@check
def c16(ck):
    ck.rule = ("Each case draws, for one cube or simplex on a generated domain (dimension up to 16, floating point type, minimum, maximum, divisor, the ends of "
               "int included), one of the measures, and compares it with exact arithmetic. Non-trivial: a divisor above one, a minimum that is not zero "
               "and two or more dimensions.")
    parts = 4 if ck.quick else 8
    domains(ck, 400 if ck.quick else 2400, parts, {"CUBE": 16, "SIMPLEX": 16}, True)
    ck.pbt("c15", [("c15.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 24, 24)


@check
def c17(ck):
    ck.rule = ("Each case draws an exponent and a base (small, random, or the largest one whose power fits the type, both signs), or arguments of a "
               "factorial and a binomial coefficient, for one number type. Non-trivial: exponent of two or more and a base other than zero and one; "
               "binomial coefficients strictly inside the triangle.")
    ck.pbt("c17", ["c17.cpp"], 10000, 200000)


@check
def c18(ck):
    ck.rule = ("Each case draws a matrix (arbitrary, badly scaled, near singular, permutation, triangular, rotated stretch, small integers), the kind of "
               "matrix object and a metamorphic relation (transposed, scaled, permuted, inverted twice). Non-trivial: four or more entries that are "
               "not zero and an inverse that is defined up to rounding.")
    ck.pbt("c18", ["c18.cpp"], 12000, 400000)


def gen_orders(ck, n, parts, fixed, top, limit):
    cells = list(fixed)
    types = [("double", "double"), ("float", "float"), ("long double", "double"), ("double", "float"), ("float", "double"), ("double", "long double")]
    k = 0
    while len(cells) < n:
        t = types[k % 6]
        k += 1
        o = tuple(ck.rng.randint(2, top) for _ in range(3))
        if o[0] * o[1] * o[2] <= limit and t + o not in cells:
            cells.append(t + o)
    s = "#pragma once\n"
    for p in range(parts):
        s += "#if VH_PART == %d\n#define VH_ORDERS %s\n#endif\n" % (p, " ".join("CELL( %s, %s, %d, %d, %d )" % c for c in cells[p::parts]))
    ck.write("gen_orders.hpp", s)
    ck.extra["cells"] = ["%s on %s, %dx%dx%d" % c for c in cells]


@check
def c19(ck):
    ck.rule = ("Each case is a history of one to seven operations (set data from nine kinds of sources, write an entry, copy, change a copy) on three "
               "transforms, half of them with numbers of vertices per direction generated from the seed, compared with a table per transform after "
               "every step. Non-trivial: data is set and something else happens, or the directions have different numbers of vertices.")
    gen_nodes(ck)
    parts = 4 if ck.quick else 8
    gen_orders(ck, 14 if ck.quick else 40, parts, [("long double", "long double", 2, 3, 2), ("double", "double", 2, 2, 2), ("double", "double", 2, 3, 4), ("float", "float", 4, 2, 3), ("double", "float", 3, 4, 2),
                                                  ("float", "double", 3, 3, 3), ("double", "double", 2, 2, 3), ("double", "double", 3, 2, 2)], 5, 60)
    ck.pbt("c19", [("c19.cpp", ("-DVH_PART=%d" % p,)) for p in range(parts)], 2000, 20000)


@check
def c20(ck):
    ck.rule = ("Each case draws, for one transform (one to three directions, mixed orders and spacings), vertices (arbitrary, a distorted box, a linear "
               "cell; sizes over eight decades), a coordinate or quadrature point, one form of the call, what the result held before, and a translation "
               "or linear map of the vertices. Non-trivial: a coordinate with different components and vertices that are not all zero.")
    gen_nodes(ck)
    ck.pbt("c20", [("c20.cpp", ("-DVH_PART=%d" % p, "-DVH_REAL=" + R)) for p in range(3) for R in ("double", "float", "long double")], 3000, 40000, configs=core.QUICK_TWO if ck.quick else None)


@check
def c21(ck):
    ck.rule = ("Each case draws, for one mapping (transforms with mixed orders and spacings, scaling, uniform scaling), its data, a coordinate, two forms of "
               "the call and what the results held before, and compares with the exact inverse of the Jacobian that the mapping returns. "
               "Non-trivial: the Jacobian is invertible beyond rounding.")
    gen_nodes(ck)
    ck.pbt("c20", [("c20.cpp", ("-DVH_PART=%d" % p, "-DVH_REAL=" + R, "-DVH_INVERSE")) for p in range(3) for R in ("double", "float", "long double")], 3000, 40000, configs=core.QUICK_TWO if ck.quick else None)


@check
def c22(ck):
    ck.rule = ("Each case is a history of one to eight operations (set all lengths, set one, copy, change a copy, reset) on three mappings of one type, "
               "with lengths over many decades, compared with three lengths per mapping after every step, in each form of the functions. Non-trivial: "
               "different lengths (or a uniform mapping) after at least one operation.")
    ck.pbt("c22", ["c22.cpp"], 10000, 200000)


@check
def c23(ck):
    ck.rule = ("Each case draws a cell (cube, box, distorted box, linear cell; sizes over six decades), a coordinate, a quadrature rule and powers of a "
               "monomial, and compares the mappings, the gradient of a linear field, and volume or integral with exact values. Non-trivial: a cell "
               "with edges of different lengths.")
    gen_nodes(ck)
    ck.pbt("c23", three("c23.cpp"), 2500, 40000)


@check
def c26(ck):
    ck.rule = ("Each case draws a message (plain, or with up to twelve arguments of different types, texts up to 280000 characters, per cent signs), a file, "
               "a line, and a condition or place of the assertion, runs it in a child process and checks how the process ends, what it writes, and "
               "how often condition and arguments are evaluated. Non-trivial: a false condition or a message with arguments.")
    ck.pbt("c26", ["c26.cpp"], 10000, 60000)


@check
def c31(ck):
    ck.rule = ("Each case is a history of one to ten operations (wrapper with lambda, constant function object, function, pointer, moved object, nested "
               "wrapper, without data, on constant data, on no data; release) on three buffers of one element type with guard elements, compared with "
               "plain vectors and counters after every step; or a comparison of two numbers near the tolerance. Non-trivial: two or more kinds of "
               "operation and a write of more than one element; a comparison of different numbers.")
    ck.pbt("c31", ["c31.cpp"], 40000, 400000)


@check
def c25(ck):
    ck.rule = ("Each case draws, for one group of calls (basis, quadrature rule, shape, mapping, product and interpolation, transform, inverse, array "
               "history, index range, sequence), arguments or a history, evaluates it in one library per configuration (compiler, language standard, "
               "optimisation, bounds checks) in one process, and compares every result with that of the first configuration. Non-trivial: more than a "
               "single element, order, step or dimension.")
    gen_nodes(ck)
    cfgs = ["gcc17", "clang20", "gcc20", "clang17", "gcc23", "clang23", "gcc17c"] if ck.quick else sorted(core.CONFIGS)
    libs = ck.libraries("c25", "c25.cpp", [0, 1, 2, 3], cfgs)
    ck.env["VH_LIBS"] = ";".join("%s=%s" % l for l in libs)
    bins = ck.build("c25_drv", ["c25_drv.cpp"], ["gcc20d"])
    bins = {"all": bins["gcc20d"]}
    ck.log("built", ", ".join(cfgs))
    ck.extra["configurations"] = ["%s -std=%s %s bounds check %s" % (a, b, " ".join(f), "on" if d else "off") for a, b, f, d in (core.CONFIGS[c] for c in cfgs)]
    ck.run_bins("c25", bins, 2500, 60000)


# ---- generated programs --------------------------------------------------------------------------------------------
def run_program(ck, name, text, cfg, flags=None, tries=1):
    """Compiles, links and runs one program. Returns (stage, returncode, output): stage is compile or run."""
    comp, std, fl, b = core.CONFIGS[cfg]
    src = ck.write("prog/%s.cpp" % name, text)
    exe = src[:-4] + ".bin"
    cmd = [comp, "-std=" + std] + list(flags if flags is not None else fl) + ["-w", "-I", core.HARNESS] + ck.includes(b) + [src, "-o", exe]
    rc, o, e = core.sh(cmd, timeout=700)
    if rc != 0:
        if rc == 1 and "error" in e and "internal compiler error" not in e and ck.toolchain_ok(comp, std, list(fl)):
            return "compile", 1, e
        raise core.CheckError("compiler failed (%s): %s\n%s" % (rc, " ".join(cmd), e[-3000:]))
    rc, o, e = core.sh([exe], timeout=100, env=ck.run_env())
    return "run", rc, o + e


@check
def c07(ck):
    ck.rule = ("Each case is a site of a generated program: a random use (array history, index arithmetic, compile time loops, powers, matrix inverse, "
               "points and weights, bases, products, elements, transforms, scalings, shapes, comparison) with random constants that is evaluated in a "
               "constant expression and, with the constants hidden from the compiler, at run time; where arguments can be template parameters, also in "
               "that form. Non-trivial: every site (its text is distinct).")
    cfgs = ["gcc17", "clang20", "gcc23", "clang17"] if ck.quick else sorted(set(core.CONFIGS) - {"gcc17c"})
    flags = {"gcc17": ["-O0"], "clang20": ["-O2"], "gcc23": ["-O1"], "clang17": ["-O0"]}
    tus, per = (4, 60) if ck.quick else (24, 100)
    rp = ck.replaying
    ck.pool([lambda b=b: ck.config_dir(b) for b in (True, False)])

    def judge(cfg, k, lines):
        fl = flags.get(cfg)
        stage, rc, out = run_program(ck, "c07_%s_%d" % (cfg, k), gen07.program(lines), cfg, fl)
        if stage == "run" and rc == 0:
            return
        # find the sites: from the messages, then each alone
        if stage == "compile":
            nums = sorted({int(m) - 2 for m in re.findall(r"c07_%s_%d\.cpp:(\d+):" % (cfg, k), out)})
            cand = [lines[n] for n in nums if 0 <= n < len(lines)]
        else:
            bad = [int(m) for m in re.findall(r"^BAD (\d+)", out, re.M)]
            cand = [l for l in lines if l[0] in bad]
        for l in cand + [l for l in lines if l not in cand]:
            st, r, o = run_program(ck, "c07_%s_%d_one" % (cfg, k), gen07.program([l]), cfg, fl)
            if st == "run" and r == 0:
                continue
            raise core.Violation("%s [%s]\n%s\n%s" % (
                "not accepted as a constant expression" if st == "compile" else "different results", cfg, l[1], "\n".join(
                    x for x in o.splitlines() if "error" in x or "BAD" in x)[:1500]),
                {"kind": "site", "config": cfg, "line": l[1], "number": l[0]})
        raise core.Violation("the program fails, none of its sites alone [%s]: %s" % (cfg, out[:1500]), {"kind": "site", "config": cfg, "lines": [l[1] for l in lines], "numbers": [l[0] for l in lines]})

    if rp:
        ls = [(rp["number"], rp["line"])] if "line" in rp else list(zip(rp["numbers"], rp["lines"]))
        return judge(rp["config"], 0, ls)
    jobs = []
    for c in cfgs:
        for k in range(tus):
            lines = []
            for n in range(per):
                f, l = gen07.site(ck.rng, n)
                ck.count(1, f)
                ck.nontriv(l)
                ck.sample("%s: %s" % (c, l[:400]))
                lines.append((n, l))
            jobs.append((c, k, lines))
    ck.pool([lambda j=j: judge(*j) for j in jobs])
    ck.extra["programs"] = len(jobs)
    ck.extra["configurations"] = cfgs


# ---- scripts and build system ----------------------------------------------------------------------------------------
@check
def c27(ck):
    ck.rule = ("Each case is a tree of up to eight headers (nested folders, equal names, shared and repeated includes, cycles, guards, kept lines of many "
               "kinds), a list of roots, include paths, a working folder and spellings of the paths; the output is compared line by line with the "
               "headers that a model of the include rules reaches, and after preprocessing with the original headers. Non-trivial: at least one header "
               "includes another. Further cases are programs that use lists of the library's own headers, compiled from them and from their aggregation.")
    core.hyp(ck, "headers", 400, 6000)
    aggregated_library(ck)


@check
def c28(ck):
    ck.rule = ("Each case is a tree of headers as for the aggregation, a place to split to, files that are there before, and whether the original headers "
               "were moved away; everything in the sandbox is compared before and after, and the restored headers are aggregated again. Non-trivial: "
               "two or more headers.")
    core.hyp(ck, "headers", 400, 8000)
    aggregated_library(ck)


@check
def c29(ck):
    ck.rule = ("Each case is a history of one to three configurations of one build tree with drawn options (spellings of on and off, aliases, generator, "
               "folders; given as -D with or without a type, in an initial cache file, or by the host configuration that reads the environment), or an installation with a consumer that asks for a drawn version, or a consumer that adds the source tree. Non-trivial: at "
               "least one option is given.")
    core.hyp(ck, "package", 32, 500)


@check
def c32(ck):
    ck.rule = ("Each case is a call of the script with drawn options in a drawn order, further options with special characters, folders and files that are "
               "there before, and results of stand-ins for cmake and dot that record their arguments. Non-trivial: more than one option.")
    core.hyp(ck, "config_build", 500, 8000)


@check
def c33(ck):
    ck.rule = ("Each case is a pair of configuration files with up to fifteen lines (settings, repeated settings, names without a value, comments, blank "
               "lines, arbitrary space), where the second is drawn freely or derived from the first. Non-trivial: a setting differs or is in one file only.")
    core.hyp(ck, "uncrustify", 1000, 20000)


# ---- whole programs ----------------------------------------------------------------------------------------------------
def program_configs(ck):
    """(compiler, standard, bounds check)"""
    stds = ["c++17", "c++20", "c++23"]
    return [(c, s, b) for c in ("g++", "clang++") for s in stds for b in (True, False)]


def tag_of(cfg):
    return "%s-%s-%s" % (cfg[0], cfg[1], "on" if cfg[2] else "off") + ("-camp" if len(cfg) > 3 else "")


def build_units(ck, name, units, cfg, opt="-O0"):
    """Compiles the units (texts) into one program and runs it. Returns (stage, status, output)."""
    comp, std, b = cfg
    objs = []
    for k, t in enumerate(units):
        src = ck.write("prog/%s_%d.cpp" % (name, k), t)
        obj = src[:-4] + ".o"
        cmd = [comp, "-std=" + std, opt, "-w"] + ck.includes(b) + ["-c", src, "-o", obj]
        rc, o, e = core.sh(cmd, timeout=600)
        if rc != 0:
            if rc == 1 and "error" in e and "internal compiler error" not in e and ck.toolchain_ok(comp, std, [opt]):
                return "compile", rc, e
            raise core.CheckError("compiler failed (%s): %s\n%s" % (rc, " ".join(cmd), e[-2000:]))
        objs.append(obj)
    exe = ck.path("prog", name + ".bin")
    rc, o, e = core.sh([comp] + objs + ["-o", exe], timeout=300)
    if rc != 0:
        if "multiple definition" in e or "undefined reference" in e or "undefined symbol" in e or "duplicate symbol" in e:
            return "link", rc, e
        raise core.CheckError("link failed: " + e[-2000:])
    rc, o, e = core.sh([exe], timeout=120, env=ck.run_env())
    for f in objs + [exe]:
        os.unlink(f)
    return "run", rc, o if rc == 0 else o + e


def near(a, b):
    """Outputs that agree line by line up to rounding in the last digits printed."""
    la, lb = a.split("\n"), b.split("\n")
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if x == y:
            continue
        try:
            u, v = float(x), float(y)
        except ValueError:
            return False
        if not (abs(u - v) <= 1e-4 * max(abs(u), abs(v)) + 1e-5):
            return False
    return True


def spec_units(spec):
    return [snippets.unit([tuple(h) for h in hs], sn, k) for k, (hs, sn) in enumerate(spec)] + [snippets.main_unit(len(spec))]


def spec_text(spec):
    return "; ".join("unit %d includes %s%s" % (k, ", ".join(h[0] for h in hs), " and has %d statements" % len(sn)) for k, (hs, sn) in enumerate(spec))


def judge_spec(ck, name, spec, cfgs):
    """Builds and runs a program in the configurations. Returns None or (config, message)."""
    first = None
    for cfg in cfgs:
        stage, rc, out = build_units(ck, "%s_%s" % (name, tag_of(cfg).replace("+", "p")), spec_units(spec), cfg)
        if stage != "run" or rc != 0:
            errs = [l for l in out.split("\n") if "error" in l or "multiple" in l or "undefined" in l]
            return cfg, "%s fails: %s" % ({"compile": "compilation", "link": "linking", "run": "the program (status %s)" % rc}[stage], " | ".join(errs[:4]) or out[-500:])
        if first is None:
            first = (cfg, out)
        elif not near(first[1], out):
            return cfg, "prints %r instead of %r (%s)" % (out[:300], first[1][:300], tag_of(first[0]))
    return None


def reduce_spec(ck, name, spec, cfgs):
    import time
    end = time.time() + 120
    best = spec
    changed = True
    while changed and time.time() < end:
        changed = False
        cand = []
        for k in range(len(best)):
            if len(best) > 1:
                cand.append(best[:k] + best[k + 1:])
            hs, sn = best[k]
            for m in range(len(sn)):
                cand.append(best[:k] + [(hs, sn[:m] + sn[m + 1:])] + best[k + 1:])
            for m in range(len(hs)):
                rest = hs[:m] + hs[m + 1:]
                g = snippets.given([h[0] for h in rest])
                if rest and g == snippets.given([h[0] for h in hs]) or not sn and rest:
                    cand.append(best[:k] + [(rest, sn)] + best[k + 1:])
        for c in cand:
            if time.time() > end:
                break
            if judge_spec(ck, name + "_min", c, cfgs):
                best, changed = c, True
                break
    return best


def public_headers():
    inc = os.path.join(core.REPO, "include")
    pub = []
    for d, _, fs in sorted(os.walk(inc)):
        pub += [os.path.relpath(os.path.join(d, f), inc) for f in sorted(fs) if f.endswith(".hpp") and f != "namespaceDocumentation.hpp"]
    return pub


@check
def c24(ck):
    ck.rule = ("Each case is a header compiled on its own, or a program of one to three units with a drawn list of headers (order, repeats, both spellings) "
               "and statements that use only these headers, or a program of uses of the library with drawn template arguments. It is compiled, linked and "
               "run, and its output compared, for each compiler, language standard and setting of the bounds checks. Non-trivial: a program with two or more headers.")
    import time
    ck.pool([lambda b=b: ck.config_dir(b) for b in (True, False)])
    cfgs = program_configs(ck)
    rp = ck.replaying
    if rp:
        ck.evaluations += 1
        if rp["kind"] == "alone":
            ok, msg = ck.compiles(rp["text"], *rp["config"])
            if not ok:
                raise core.Violation(rp["what"] + msg[:600], rp)
        elif rp["kind"] == "program":
            bad = judge_spec(ck, "replay", rp["spec"], [tuple(c) for c in rp["configs"]])
            if bad:
                raise core.Violation("%s [%s]: %s" % (spec_text(rp["spec"]), tag_of(bad[0]), bad[1]), rp)
        elif rp["kind"] == "sites":
            stage, rc, out = build_units(ck, "replay", [rp["text"]], tuple(rp["config"]))
            if stage != "run" or rc:
                raise core.Violation(rp["what"], rp)
        return
    # the public headers are those of the tree
    pub = public_headers()
    missing = [h for h in snippets.H.values() if h not in pub]
    if missing:
        raise core.Violation("public header %s is gone" % missing[0], {"kind": "alone", "text": "#include \"%s\"\n" % missing[0], "config": ["g++", "c++17", True], "what": "missing: "})

    def alone(h, cfg):
        twice = "#include <%s>\n#include \"%s\"\n" % (h, h)
        name = [k for k, v in snippets.H.items() if v == h]
        text = twice + snippets.PROLOGUE
        f = snippets.ALONE.get(name[0]) if name else None
        if f and len(cfg) < 4:
            import random
            text += "void use() { %s }\n" % f(random.Random("%s/%d" % (h, ck.seed)))
        ok, msg = ck.compiles(text, *cfg)
        if not ok:
            errs = [l for l in msg.split("\n") if "error" in l][:3]
            if len(cfg) > 3 and any("camp" in l for l in errs):
                ck.log("not run, the stand-in for CAMP lacks something:", " | ".join(errs))
                return
            what = "%s as the only header [%s] is not accepted: " % (h, tag_of(cfg))
            raise core.Violation(what + " | ".join(errs), {"kind": "alone", "text": text, "config": list(cfg), "what": what})

    jobs = []
    camp = [("g++", "c++17", True, core.CONFIGS["gcc17c"][2]), ("clang++", "c++20", False, core.CONFIGS["gcc17c"][2])]
    for h in pub:
        for cfg in cfgs + camp:
            jobs.append(lambda h=h, cfg=cfg: alone(h, cfg))
            ck.count(1, "one header")
    # programs: each runs in configurations of both compilers and several standards
    n = 36 if ck.quick else 400
    per = 4 if ck.quick else 12
    for k in range(n):
        spec = [snippets.draw_unit(ck.rng) for _ in range(ck.rng.choice([1, 2, 2, 3]))]
        cs = ck.rng.sample(cfgs, per)
        ck.count(per, "program of %d units" % len(spec))
        if any(len(hs) > 1 for hs, _ in spec):
            ck.nontriv(spec)
        ck.sample(spec_text(spec) + " [" + ", ".join(map(tag_of, cs)) + "]")

        def go(k=k, spec=spec, cs=cs):
            bad = judge_spec(ck, "p%d" % k, spec, cs)
            if not bad:
                return
            pair = [bad[0]] if "prints" not in bad[1] else [cs[0], bad[0]]
            small = reduce_spec(ck, "p%d" % k, spec, pair)
            bad = judge_spec(ck, "p%d_final" % k, small, pair) or bad
            raise core.Violation("%s [%s]: %s" % (spec_text(small), tag_of(bad[0]), bad[1]), {"kind": "program", "spec": small, "configs": [list(c) for c in pair]})
        jobs.append(go)
    # uses with drawn template arguments
    sites = 30 if ck.quick else 80
    for cfg in cfgs:
        for k in range(1 if ck.quick else 6):
            lines = []
            for m in range(sites):
                f, l = gen07.site(ck.rng, m)
                ck.count(1, "use of " + f)
                ck.nontriv(l)
                lines.append((m, re.sub(r"constexpr auto ct = (f\d+\( Known\{\} \))", r"auto ct = \1", l)))

            def use(k=k, cfg=cfg, lines=lines):
                inc = ["-I", core.HARNESS]
                text = gen07.program(lines)

                def run(ls, nm):
                    src = ck.write("prog/%s.cpp" % nm, gen07.program(ls))
                    cmd = [cfg[0], "-std=" + cfg[1], "-O0", "-w"] + inc + ck.includes(cfg[2]) + [src, "-o", src[:-4] + ".bin"]
                    rc, o, e = core.sh(cmd, timeout=700)
                    if rc != 0:
                        if rc == 1 and "error" in e and "internal compiler error" not in e and ck.toolchain_ok(cfg[0], cfg[1], ["-O0"]):
                            return False, e
                        raise core.CheckError("compiler failed (%s): %s\n%s" % (rc, " ".join(cmd), e[-2000:]))
                    rc, o, e = core.sh([src[:-4] + ".bin"], timeout=120, env=ck.run_env())
                    return rc == 0, o + e
                nm = "use_%s_%d" % (tag_of(cfg).replace("+", "p"), k)
                ok, out = run(lines, nm)
                if ok:
                    return
                for l in lines:
                    ok1, o1 = run([l], nm + "_one")
                    if not ok1:
                        break
                else:
                    l, o1 = None, out
                what = "use of the library [%s] fails: %s: %s" % (tag_of(cfg), l[1] if l else "", " | ".join([x for x in o1.split("\n") if "error" in x or "BAD" in x][:3]))
                raise core.Violation(what, {"kind": "sites", "text": gen07.program([l] if l else lines), "config": list(cfg), "what": what})
            jobs.append(use)
    # every supported template argument
    sup = snippets.supported()

    def sup_text(part):
        return snippets.unit([(h, True) for h in sorted(set().union(*[h for h, _ in part]))], [t for _, t in part], 0) + snippets.main_unit(1)

    def supported(cfg, part, nm):
        stage, rc, out = build_units(ck, nm, [sup_text(part)], cfg)
        if stage == "run" and not rc:
            return
        while len(part) > 1:
            for half in (part[:len(part) // 2], part[len(part) // 2:]):
                stage, rc, o = build_units(ck, nm, [sup_text(half)], cfg)
                if stage != "run" or rc:
                    part, out = half, o
                    break
            else:
                break
        what = "a supported use of the library [%s] fails: %s: %s" % (tag_of(cfg), part[0][1] if len(part) == 1 else "%d uses" % len(part),
                                                                   " | ".join([x for x in out.split("\n") if "error" in x][:3]) or out[-300:])
        raise core.Violation(what, {"kind": "sites", "text": sup_text(part), "config": list(cfg), "what": what})
    for cfg in (ck.rng.sample(cfgs, 4) if ck.quick else cfgs):
        for k in range(4):
            ck.count(len(sup[k::4]), "supported template argument")
            jobs.append(lambda cfg=cfg, k=k: supported(cfg, sup[k::4], "sup_%s_%d" % (tag_of(cfg).replace("+", "p"), k)))
    ck.pool(jobs)
    ck.extra["programs"] = n
    ck.extra["headers"] = len(pub)
    ck.extra["configurations"] = [tag_of(c) for c in cfgs]


def as_nobody(ck, cmd, cwd):
    rc, o, e = core.sh(cmd, timeout=120, cwd=cwd, **({"user": 65534, "group": 65534, "extra_groups": []} if os.getuid() == 0 else {}))
    return rc, o, e


def aggregated_library(ck):
    """The library's own headers, aggregated and split by the script: programs, and contents."""
    rp = ck.replaying
    if rp and rp.get("kind") != "aggregated":
        return
    ck.config_dir(True)
    os.chmod(ck.scratch, 0o755)
    top = os.path.dirname(ck.path("agg", "x"))
    shutil.copytree(os.path.join(core.REPO, "include"), os.path.join(top, "include"))
    shutil.copytree(ck.config_dir(True), os.path.join(top, "generated"))
    tool = os.path.join(top, "aggregateOrSplit.py")
    for f in os.listdir(os.path.join(core.REPO, "scripts")):      # with the modules that it may import
        if f.endswith(".py"):
            shutil.copy(os.path.join(core.REPO, "scripts", f), os.path.join(top, f))
    for d, ds, fs in os.walk(top):
        for f in [d] + [os.path.join(d, f) for f in fs]:
            if os.getuid() == 0:
                os.chown(f, 65534, 65534)
            os.chmod(f, 0o755 if os.path.isdir(f) else 0o644)

    def tree():
        res = {}
        for d, _, fs in os.walk(top):
            if "/out" in d[len(top):]:
                continue
            for f in fs:
                res[os.path.join(d, f)] = open(os.path.join(d, f), "rb").read()
        return res
    before = tree()
    n = 10 if ck.quick else 80
    cases = []
    for k in range(n):
        hs, sn = snippets.draw_unit(ck.rng, 4 if k else 25)
        cases.append((k, list(dict.fromkeys(h[0] for h in hs)), sn))
    if rp:
        cases = [(0, rp["headers"], rp["statements"])]

    def go(k, hs, sn):
        ck.count(1, "library headers")
        ck.nontriv(("library", hs, sn))
        o = os.path.join(top, "out%d" % k)
        os.makedirs(o)
        if os.getuid() == 0:
            os.chown(o, 65534, 65534)
        out = os.path.join(o, "all.hpp")
        cmd = ["python3", "-B", tool, "aggregate"] + [os.path.join(top, "include", snippets.H[h]) for h in hs] + [
            out, "--include-paths", os.path.join(top, "include"), os.path.join(top, "generated")]
        what = "aggregation of " + ", ".join(hs)
        rep = {"kind": "aggregated", "headers": hs, "statements": sn}
        rc, so, se = as_nobody(ck, cmd, o)
        if rc != 0:
            raise core.Violation("%s fails: %s" % (what, se[-500:]), rep)
        if ck.prop == "C28":
            rc, so, se = as_nobody(ck, ["python3", "-B", tool, "split", out, os.path.join(o, "split")], o)
            if rc != 0:
                raise core.Violation("split after %s fails: %s" % (what, se[-500:]), rep)
            got = {}
            for d, _, fs in os.walk(os.path.join(o, "split")):
                for f in fs:
                    got[os.path.join(d, f)] = open(os.path.join(d, f), "rb").read()
            import re as _re
            names = _re.findall(r"^// ===== Start of (.+) =====$", open(out).read(), _re.M)
            common = os.path.commonpath([os.path.dirname(x) for x in names]) if names else top
            want = {os.path.join(o, "split", os.path.relpath(x, common)): before[x] for x in names}
            if set(want) != set(got):
                raise core.Violation("split after %s writes %s instead of %s" % (what, sorted(got)[:5], sorted(want)[:5]), rep)
            for x in want:
                if got[x].rstrip(b"\n") != want[x].rstrip(b"\n"):
                    raise core.Violation("split after %s does not restore %s" % (what, os.path.basename(x)), rep)
            return
        cfg = ck.rng_for(k).choice(program_configs(ck)[::2])
        a = snippets.unit([(h, False) for h in hs], sn, 0) + snippets.main_unit(1)
        b = "#include \"%s\"\n" % out + snippets.PROLOGUE + a.split(snippets.PROLOGUE)[1]
        s1, r1, o1 = build_units(ck, "agg%d_a" % k, [a], cfg)
        s2, r2, o2 = build_units(ck, "agg%d_b" % k, [b], cfg)
        if (s1, r1) != ("run", 0):
            raise core.Violation("a program with %s [%s] fails: %s" % (", ".join(hs), tag_of(cfg), o1[-500:]), rep)
        if (s2, r2) != ("run", 0) or o1 != o2:
            raise core.Violation("%s: a program that includes it [%s] %s: %s" % (
                what, tag_of(cfg), "fails" if (s2, r2) != ("run", 0) else "prints other values", " | ".join([l for l in o2.split("\n") if "error" in l][:3]) or o2[:300]), rep)
    ck.pool([lambda c=c: go(*c) for c in cases])
    after = tree()
    if before != after:
        raise core.Violation("aggregation modifies the headers", {"kind": "aggregated", "headers": cases[0][1], "statements": cases[0][2]})


# ---- sanitizers ------------------------------------------------------------------------------------------------------------
FUZZ_SAN = {"address": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"], "memory": ["-fsanitize=memory", "-fno-sanitize-recover=all"]}


def fuzz_target(ck, kind):
    """The coverage guided target of C30, in a library so that the instrumented parts of the standard library stay apart from the fuzzer's."""
    san = FUZZ_SAN[kind]
    fl = ["-O1", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=fuzzer-no-link"] + san
    objs = [ck.path("fuzz_%s_%d.o" % (kind, k)) for k in range(5)]
    jobs = [lambda k=k: ck.compile_obj(os.path.join(core.HARNESS, "c25.cpp"), objs[k], "clang++", "c++20", fl + ["-DVH_PART=%d" % k, "-DvhEntries=vhEntries%d" % k], False) for k in range(4)]
    jobs.append(lambda: ck.compile_obj(os.path.join(core.HARNESS, "c30_drv.cpp"), objs[4], "clang++", "c++20", fl + ["-DVH_FUZZ"], False))

    def link():
        vm = ck.write("fuzz_%s.map" % kind, "{ global: LLVMFuzzer*; local: *; };\n")
        so, exe = ck.path("libfuzz_%s.so" % kind), ck.path("fuzz_%s" % kind)
        for cmd in (["clang++", "-shared", "-Wl,-Bsymbolic", "-Wl,--version-script=" + vm] + san + objs + ["-o", so],
                    ["clang++"] + san + ["-fsanitize=fuzzer", so, "-o", exe]):
            rc, o, e = core.sh(cmd, timeout=300)
            if rc != 0:
                raise core.CheckError("link failed: " + e[-3000:])
        return exe
    return jobs, link


def fuzz_env(ck):
    env = ck.run_env()
    env["ASAN_OPTIONS"] = "detect_leaks=1:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    return env


def fuzz_one(ck, exe, data, name="input"):
    f = ck.path("fuzz_in", name)
    with open(f, "wb") as h:
        h.write(data)
    rc, o, e = core.sh([exe, f], timeout=120, env=fuzz_env(ck))
    return rc, e


def fuzz_run(ck, kind, exe, workers, runs):
    def one(w):
        d = os.path.dirname(ck.path("corpus_%s_%d" % (kind, w), "x"))
        r = ck.rng_for("%s/%d" % (kind, w))
        for k in range(160):
            with open(os.path.join(d, "seed%03d" % k), "wb") as h:
                h.write(bytes([0, k % 128]) + bytes(r.randrange(256) for _ in range(r.choice([10, 40, 160, 300]))))
        pre = ck.path("crash_%s_%d" % (kind, w), "x")[:-1]
        rc, o, e = core.sh([exe, "-seed=%d" % (ck.seed * 1000 + w + 1), "-runs=%d" % runs, "-max_len=512", "-len_control=0", "-timeout=60", "-rss_limit_mb=4096",
                            "-print_final_stats=0", "-artifact_prefix=" + pre, d], timeout=800 if ck.quick else 5 * 3600, env=fuzz_env(ck))
        return w, rc, e, pre, d
    for w, rc, e, pre, d in ck.pool([lambda w=w: one(w) for w in range(workers)], workers):
        art = sorted(os.listdir(pre))
        m = re.search(r"COUNTS cases=(\d+) nontrivial=(\d+) entries=(\d+) of (\d+)", e)
        if rc != 0 and not art:
            raise core.CheckError("fuzzer ended with %s: %s" % (rc, e[-2000:]))
        if art:
            with open(os.path.join(pre, art[0]), "rb") as h:
                data = h.read()
            data = fuzz_reduce(ck, exe, data)
            hits = [x for x in (fuzz_one(ck, exe, data, "again") for _ in range(3)) if x[0] not in (0, "timeout")]
            if hits:
                raise core.Violation("%s sanitizer: %s" % (kind, report_of(hits[0][1])), {"kind": "fuzz", "target": kind, "hex": data.hex(), "reproduced": "%d/3" % len(hits)})
            ck.extra.setdefault("unreproduced", []).append(e[-500:])
            continue
        if not m:
            raise core.CheckError("the fuzzer reported no counts: " + e[-1500:])
        ck.count(int(m.group(1)), "fuzzed, %s sanitizer" % kind)
        ck.extra["fuzzed_nontrivial_%s" % kind] = ck.extra.get("fuzzed_nontrivial_%s" % kind, 0) + int(m.group(2))
        ck.extra["fuzz_targets_reached"] = "%s of %s groups of calls (in one worker)" % (m.group(3), m.group(4))
        x = b""
        for n in sorted(os.listdir(d)):
            if not n.startswith("seed"):
                with open(os.path.join(d, n), "rb") as h:
                    x = h.read()
                ck.nontriv((kind, x))
        ck.sample("%s: corpus input %s" % (kind, x.hex()[:120]))


def report_of(text):
    ls = [l for l in text.splitlines() if "ERROR:" in l or "WARNING: Mem" in l or "runtime error" in l or "SUMMARY" in l or re.match(r"\s+#\d+ .*shiva/", l)]
    return "\n".join(ls[:12])[:1800] or text[-800:]


def fuzz_reduce(ck, exe, data):
    """Greedy: a shorter prefix, zeroes instead of bytes."""
    import time
    end = time.time() + 40

    def bad(x):
        return time.time() < end and fuzz_one(ck, exe, x, "try")[0] not in (0, "timeout")
    n = len(data)
    while n > 8 and bad(data[:n // 2]):
        n //= 2
    data = bytearray(data[:n])
    for k in range(2, len(data)):
        if data[k]:
            t = bytes(data[:k]) + b"\0" + bytes(data[k + 1:])
            if bad(t):
                data = bytearray(t)
    return bytes(data)


@check
def c30(ck):
    ck.rule = ("Each case is a call or history on generated valid arguments, in four ways: the calls of C25 decoded from bytes by a coverage guided fuzzer, with "
               "address, undefined behaviour and memory sanitizers; the same calls and the histories of C08 to C14, C19, C20 and C31 generated by rapidcheck in "
               "programs with address and undefined behaviour sanitizers; and calls on objects between pages without access, constants in read-only pages. "
               "Non-trivial: by the rule of the property that the case is from; for the fuzzer, inputs that reached new code.")
    gen_nodes(ck)
    rp = ck.replaying
    if rp and rp.get("kind") == "fuzz":
        ck.config_dir(False)
        jobs, link = fuzz_target(ck, rp["target"])
        ck.pool(jobs)
        rc, e = fuzz_one(ck, link(), bytes.fromhex(rp["hex"]))
        if rc != 0:
            raise core.Violation("%s sanitizer: %s" % (rp["target"], report_of(e)), {k: rp[k] for k in ("kind", "target", "hex")})
        return
    ck.env["VH_CRASH_ONLY"] = "1"
    shapes = gen_shapes(ck, 12 if ck.quick else 44, 48, fixed=FIXED_SHAPES[:4] if ck.quick else FIXED_SHAPES)
    parts = 2 if ck.quick else 8
    shape_header(ck, parts, shapes)
    ck.pool([lambda b=b: ck.config_dir(b) for b in (True, False)] + [ck.engine])
    fuzz = {}
    if not rp:
        jobs = []
        for kind in FUZZ_SAN:
            j, fuzz[kind] = fuzz_target(ck, kind)
            jobs += j
        ck.pool(jobs)
        ck.log("built the fuzz targets")
        for kind in FUZZ_SAN:
            fuzz_run(ck, kind, fuzz[kind](), 8, 60000 if ck.quick else 6000000)
        ck.log("fuzzed")
    api = [("c25.cpp", ("-DVH_PART=%d" % p, "-DvhEntries=vhEntries%d" % p)) for p in range(4)] + ["c30_drv.cpp"]
    ck.pbt("c30_mem", ["c30_mem.cpp"], 20000, 400000, configs=["gcc20", "clang17r"] if ck.quick else ["gcc20", "clang17r", "gcc17", "clang17", "clang23"])
    ck.pbt("c30_api", api, 1000, 40000, configs=["gcc17"] if ck.quick else ["gcc17", "clang20", "gcc20d"], extra_flags=core.SAN)
    for n in ("c08", "c10"):
        ck.pbt(n, [("%s.cpp" % n, ("-DVH_PART=%d" % p,)) for p in range(parts)], 400, 10000, configs=["gcc20d"] if ck.quick else ["gcc17", "clang20"], extra_flags=core.SAN)
    ck.pbt("c31", ["c31.cpp"], 2000, 50000, configs=["clang20"] if ck.quick else ["gcc17", "clang20"], extra_flags=core.SAN)
    if ck.quick:
        return
    range_header(ck, 4, gen_ranges(ck, 40, 48))
    for n in ("c11", "c12"):
        ck.pbt(n, [("%s.cpp" % n, ("-DVH_PART=%d" % p,)) for p in range(4)], 400, 5000, configs=["gcc17", "clang20"], extra_flags=core.SAN)
    ck.pbt("c18", both("c18.cpp"), 2000, 20000, configs=["gcc17", "clang20"], extra_flags=core.SAN)


@check
def c35(ck):
    ck.rule = ("Each case is a history of up to seven calls (the calls of C25, kernels, and calls on one constant object), each alone or from inside the body of a "
               "loop, a sequence or a kernel, compared bit by bit with the same call in a process of its own; or the calls made by two to four threads at "
               "the same time, on their own or on one object, with the thread sanitizer. Non-trivial: two or more calls.")
    gen_nodes(ck)
    src = [("c25.cpp", ("-DVH_PART=%d" % p, "-DvhEntries=vhEntries%d" % p)) for p in range(4)] + ["c35_shared.cpp", "c35.cpp"]
    # names in a report take long: only for the replay
    ck.env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:symbolize=%d" % bool(ck.replaying)
    ck.pbt("c35", src, 40, 1500, configs=["gcc17", "clang20"] if ck.quick else core.THOROUGH)
    ck.pbt("c35t", src, 40, 1000, configs=["clang17"] if ck.quick else ["clang17", "gcc17", "clang20", "gcc20d"], extra_flags=["-fsanitize=thread", "-DVH_THREADS", "-g1"])


@check
def c36(ck):
    ck.rule = ("Each case is a run of the script inside the container with drawn options, environment and working folder, where one step may fail (with a drawn "
               "status, or without its result), or a run of the outer script with a drawn environment and status of the container; stand-ins record what is "
               "run, where and with which environment. Non-trivial: more is asked for than to configure.")
    core.hyp(ck, "ci", 500, 5000)


# ---- texts of the manifest ---------------------------------------------------------------------------------------------
_HYP = "property-based testing (Hypothesis): generated inputs and histories against %s, failures shrunk"
DEVICES = {   # name: (language, standard, flags, bounds check)
    "cuda17": ("cuda", "c++17", ["-O1"], True),
    "hip20": ("hip", "c++20", ["-O2"], False),
    "hip17": ("hip", "c++17", ["-O1"], True),
    "cuda20": ("cuda", "c++20", ["-O2"], False),
    "cuda23": ("cuda", "c++23", ["-O0"], True),
    "hip23": ("hip", "c++23", ["-O1"], False),
}


@check
def c34(ck):
    ck.rule = ("Each case is a history of up to ten calls of the kernel wrapper on three buffers (five element types; with and without data, captured state, "
               "kernels that fail by an assertion, an index out of range or a bad access, errors of the runtime), run as CUDA and as HIP code on the model of "
               "a device; non-trivial: two kinds of calls. Further cases are sites of generated programs (the kinds of C07) that are evaluated in a kernel and on "
               "the host; each is non-trivial.")
    names = ["cuda17", "hip20", "hip17"] if ck.quick else sorted(DEVICES)
    rp = ck.replaying
    unsupported = []

    def built(name, tag, src, engine):
        lang, std, flags, bounds = DEVICES[name]
        try:
            return device.build(ck, tag, src, lang, std, flags, bounds, engine)
        except device.Unsupported as x:
            unsupported.append("%s: %s" % (name, x))
            return None

    def judge(name, k, lines):
        tag = "c34_%s_%d" % (name, k)
        b = built(name, tag, ck.write("prog/%s.cpp" % tag, gen07.program(lines)), False)
        if b is None:
            return
        rc, o, e = core.sh([b], timeout=60, env=ck.run_env())
        if rc == 0:
            return
        bad = [int(m) for m in re.findall(r"^BAD (\d+)", o, re.M)]
        cand = [l for l in lines if l[0] in bad]
        if len(lines) > 1:
            for l in cand[:3] + [l for l in lines if l not in cand]:
                judge(name, k, [l])
        raise core.Violation("different results on host and device [%s]\n%s\n%s" % (name, lines[0][1] if len(lines) == 1 else "(only together)", (o + e)[-1500:]),
                             {"kind": "site", "config": name, "lines": [l[1] for l in lines], "numbers": [l[0] for l in lines]})

    def alone(h, name):
        lang, std, _, bounds = DEVICES[name]
        text = "#include <%s>\n#include \"%s\"\n" % (h, h)
        try:
            msg = device.accepts(ck, "alone/%s_%s" % (name, h.replace("/", "_")), text, lang, std, bounds)
        except device.Unsupported as x:
            unsupported.append("%s: %s" % (name, x))
            return
        if msg:
            raise core.Violation("%s is not accepted as %s code [%s]: %s" % (h, lang, name, msg), {"kind": "alone", "header": h, "config": name})

    if rp and rp.get("kind") == "alone":
        return alone(rp["header"], rp["config"])
    if rp and rp.get("kind") == "site":
        return judge(rp["config"], 0, list(zip(rp["numbers"], rp["lines"])))
    if rp and rp.get("kind") == "case":
        names = [rp["config"]]
    for lang, b in sorted({(DEVICES[n][0], DEVICES[n][3]) for n in names}):
        device.config_dir(ck, lang, b)
    ck.engine()
    res = ck.pool([lambda n=n: (n, built(n, "hist_" + n, os.path.join(core.HARNESS, "c34.cpp"), True)) for n in names])
    bins = {n: b for n, b in res if b}
    if bins:
        ck.run_bins("c34", bins, 400, 12000)
    if rp:
        return
    ck.log("histories done")
    pub = public_headers()
    ck.count(len(pub) * len(names), "one header")
    ck.pool([lambda h=h, n=n: alone(h, n) for h in pub for n in names])
    tus, per = (2, 60) if ck.quick else (12, 100)
    jobs = []
    for n in names:
        for k in range(tus):
            lines = []
            for m in range(per):
                f, l = gen07.device_site(ck.rng, m)
                ck.count(1, f)
                ck.nontriv(l)
                lines.append((m, l))
            ck.sample("%s: %s" % (n, lines[0][1][:400]))
            jobs.append((n, k, lines))
    ck.pool([lambda j=j: judge(*j) for j in jobs])
    ck.extra["configurations"] = ["%s (%s -std=%s %s bounds check %s)" % ((n,) + DEVICES[n][:2] + (" ".join(DEVICES[n][2]), "on" if DEVICES[n][3] else "off")) for n in names]
    if unsupported:
        ck.extra["not_run"] = unsupported
        ck.log("not run, the model of the device lacks:", "; ".join(unsupported))


TECH = {
    "C07": "property-based testing: generated programs, each site evaluated in a constant expression and at run time (metamorphic relation), reduced to one site",
    "C24": "property-based testing: generated programs (header sets, orders, translation units, standards, compilers) against the result of a reference program, reduced to a minimal program",
    "C25": "property-based testing (rapidcheck): differential between configurations (compiler, standard, optimisation, bounds checks) over generated calls and histories",
    "C27": _HYP % "a model of the include rules and the preprocessed original",
    "C28": _HYP % "the original tree (round trip, snapshot of the whole sandbox)",
    "C29": _HYP % "a model of the options, by building, installing and consuming the package",
    "C30": "coverage-guided fuzzing (libFuzzer with ASan, UBSan, MSan) and property-based testing (rapidcheck) of valid calls with sanitizers and guarded, read-only memory",
    "C32": _HYP % "a model of the command line, with recording stand-ins for cmake and dot",
    "C33": _HYP % "a reference comparison of the two settings",
    "C35": "property-based testing (rapidcheck): histories, nested and concurrent calls against the same call in a process of its own (metamorphic relation), ThreadSanitizer",
    "C36": _HYP % "a model of the steps, with recording stand-ins for docker, make and ctest",
    "C34": "property-based testing (rapidcheck histories, generated programs) of CUDA and HIP code on a model of a device with fault injection: differential between device and host, model of the data",
}
_N = "No violation in the generated cases, each reproducible from VERIF_SEED; %s. Never establishes absence."
NOTE = {
    "C07": _N % "assumes that hiding constants behind volatile gives run time evaluation",
    "C24": _N % "limited to g++ 13 and clang 18",
    "C25": _N % "limited to the listed configurations of g++ 13 and clang 18 on x86-64",
    "C27": _N % "domain as in DESIGN.md (files the script documents to support)",
    "C28": _N % "domain as in DESIGN.md",
    "C29": _N % "the project is configured from a copy with a stand-in for BLT",
    "C30": "No report of a sanitizer and no access fault in the generated cases; rapidcheck cases are reproducible from VERIF_SEED, a fuzzing failure from its saved input. Sanitizers see only what they instrument. Never establishes absence.",
    "C32": _N % "cmake and dot are stand-ins",
    "C33": _N % "domain as in DESIGN.md",
    "C36": _N % "docker, make, ctest and the configuration script are stand-ins",
    "C35": _N % "the schedules are those that the system makes; the thread sanitizer finds races between accesses that it has seen, in whatever order they ran",
    "C34": _N % "the device is a model: clang's device code for sm_70 and gfx900 is translated to this machine and run by a stand-in for the runtime, one thread, without the vendors' headers",
}
