"""mutate.py generate N SEED OUT.json: makes mutants of the sources, keeps those that compile and pass the tests.
mutate.py run OUT.json RESULT.json [-j N]: runs the checks that belong to the file of each survivor until one catches it.
A measurement of the checks; not a check itself."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
R = "/repo"; V = "/verif"

# checks in the order in which they are tried
FILES = {
    "CArray.hpp": "C08 C10 C09 C07 C25 C24 C34 C30 C03 C04", "CArrayHelper.hpp": "C08 C09 C10 C07 C25 C24 C34 C30", "IndexTypes.hpp": "C11 C12 C07 C25 C35 C24 C19 C34",
    "LinearIndex.hpp": "C11 C07 C24 C25 C12", "MathUtilities.hpp": "C17 C18 C07 C15 C16 C21 C25 C24 C34", "MultiIndex.hpp": "C11 C12 C07 C25 C24 C19",
    "NestedSequenceUtilities.hpp": "C13 C14 C07 C25 C24 C03 C34", "SequenceUtilities.hpp": "C13 C14 C07 C25 C24 C03 C34", "ShivaErrorHandling.hpp": "C26 C09 C34 C24 C25",
    "ShivaMacros.hpp": "C24 C26 C09 C34 C07 C25 C29", "pmpl.hpp": "C31 C34 C24 C25 C35", "types.hpp": "C24 C21 C25 C34 C29", "ParentElement.hpp": "C03 C04 C07 C25 C24 C34",
    "BasisProduct.hpp": "C03 C04 C07 C25 C24 C34", "LagrangeBasis.hpp": "C01 C02 C07 C25 C24 C03 C34", "Quadrature.hpp": "C06 C05 C07 C25 C24 C34", "Spacing.hpp": "C05 C01 C06 C07 C25 C24 C34",
    "LinearTransform.hpp": "C20 C19 C21 C23 C07 C25 C24 C34", "Scaling.hpp": "C22 C21 C23 C07 C25 C24 C34", "UniformScaling.hpp": "C22 C21 C23 C07 C25 C24 C34",
    "JacobianTransforms.hpp": "C21 C20 C22 C07 C25 C24 C34", "InterpolatedShape.hpp": "C03 C20 C07 C25 C24 C34", "NCube.hpp": "C15 C16 C07 C25 C24 C34", "NSimplex.hpp": "C15 C16 C07 C25 C24 C34",
    "Shiva.hpp": "C24 C27 C29 C25", "aggregateOrSplit.py": "C27 C28", "compare_uncrustify.py": "C33", "config-build.py": "C32", "CMakeLists.txt": "C29 C24", "ShivaConfig.hpp.in": "C29 C09 C24 C34",
}
OPS = [(r"<(?![<=\w:])(?= )", "<="), (r"<=", "<"), (r" > ", " >= "), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+=", "-="), (r"\*=", "+="), (r"\+\+", "--"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"),
       (r"\b2\b(?!\.)", "3"), (r"\b2\b(?!\.)", "1"), (r"\b3\b(?!\.)", "2"), (r"\b4\b(?!\.)", "5"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "2.5"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\ba\b", "b"), (r"\bb\b", "a"),
       (r"\bRANGES\b", "0 * RANGES"), (r" const &", " &"), (r" &&(?= \w+ [,)])", " &"), (r"std::forward< \w+ >\( (\w+) \)", r"\1"), (r"\(int\)|static_cast< \w+ >", ""), (r"defined\( ?(\w+) ?\)", r"!defined( \1 )"),
       (r"#ifdef ", "#ifndef "), (r"\bint\b", "short"), (r"\bREAL_TYPE\b", "float"), (r"\bRealType\b", "float"), (r"\binline\b ", ""), (r"\bconstexpr\b ", ""), (r"\bstatic\b ", ""), (r"202002L", "202302L"),
       (r"sizeof\.\.\.\(\w+\)", "1"), (r"if constexpr \( (.*) \)$", r"if constexpr ( !( \1 ) )"), (r"if \( (.*) \)$", r"if ( !( \1 ) )"), (r"if \( (.*) \)$", r"if ( false )"), (r"\bnot ", ""), (r"\bif (.*):$", r"if not (\1):"),
       (r"\band\b", "or"), (r"\bor\b", "and"), (r"'([\w-]+)'", r"'\1x'"), (r"\.strip\(\)", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bON\b", "OFF"), (r"\bOFF\b", "ON"), (r"\w+\.(\w+)\(", r"\1(")]


def sources():
    return [os.path.relpath(p, R) for p in glob.glob(R + "/include/**/*.hpp", recursive=True) + glob.glob(R + "/scripts/*.py")
            + [R + "/CMakeLists.txt"] + glob.glob(R + "/cmake/*.in") + glob.glob(R + "/include/**/*.in", recursive=True)]


def code_lines(path, text):
    doc = False
    for k, l in enumerate(text.split("\n")):
        s = l.strip()
        if path.endswith(".hpp"):
            if s.startswith("/*"):
                doc = True
            if doc:
                if "*/" in s:
                    doc = False
                continue
            if s.startswith("//") or s.startswith("///"):
                continue
        elif s.startswith("#") and not path.endswith(".in"):
            continue
        if path.endswith(".py"):
            q = s.count('"""')
            if q == 1:
                doc = not doc
                continue
            if doc or q:
                continue
        if s:
            yield k, l


def mutants(rng, n):
    out = []
    seen = set()
    src = sources()
    weight = [len(open(os.path.join(R, f)).read().split("\n")) for f in src]
    while len(out) < n:
        f = rng.choices(src, weight)[0]
        text = open(os.path.join(R, f)).read()
        k, l = rng.choice(list(code_lines(f, text)))
        if rng.random() < 0.12 and l.rstrip().endswith((";", ")")) and not l.strip().startswith(("#", "using", "template", "}")):
            new = re.match(r"\s*", l).group(0) + ("pass" if f.endswith(".py") else "")
        elif rng.random() < 0.1 and re.search(r"\d\.\d{8,}", l):
            m = rng.choice(list(re.finditer(r"\d\.\d{8,}", l)))
            p = m.start() + rng.randint(3, 13)
            if p >= m.end():
                continue
            new = l[:p] + str((int(l[p]) + rng.randint(1, 9)) % 10) + l[p + 1:] if l[p].isdigit() else l
        else:
            o, r = rng.choice(OPS)
            ms = list(re.finditer(o, l))
            if not ms:
                continue
            m = rng.choice(ms)
            new = l[:m.start()] + m.expand(r) + l[m.end():]
        if new == l or (f, k, new) in seen:
            continue
        seen.add((f, k, new))
        out.append({"file": f, "line": k, "old": l, "new": new})
    return out


def apply(m, repo):
    p = os.path.join(repo, m["file"])
    t = open(p).read().split("\n")
    assert t[m["line"]] == m["old"]
    t[m["line"]] = m["new"]
    open(p, "w").write("\n".join(t))


FLAGS = "-std=c++17 -g -Wpedantic -pedantic-errors -w".split()


def passes(m):
    """whether the mutant compiles with the tests and passes them"""
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp/mut")
    try:
        repo = d + "/repo"
        subprocess.run(["git", "clone", "-q", R, repo], check=True)
        apply(m, repo)
        if m["file"].endswith(".py"):
            return subprocess.run(["python3", "-m", "py_compile", os.path.join(repo, m["file"])], capture_output=True).returncode == 0
        if m["file"].endswith((".txt", ".in")):
            r = subprocess.run(["cmake", "-S", repo, "-B", d + "/b", "-DSHIVA_ENABLE_BLT=OFF", "-DSHIVA_ENABLE_CAMP=OFF", "-DSHIVA_ENABLE_BOUNDS_CHECK=ON"], capture_output=True)
            cfg = d + "/b/include"
            if r.returncode or not os.path.exists(cfg + "/shiva/ShivaConfig.hpp"):
                return False
        else:
            cfg = "/tmp/mut/cfg"
        stem = os.path.basename(m["file"])[:-4]
        tests = sorted(glob.glob(repo + "/tests/**/*.cpp", recursive=True), key=lambda t: (stem not in t, t))
        for t in tests:
            if subprocess.run(["g++"] + FLAGS + ["-I", repo + "/include", "-I", cfg, t, "-o", d + "/t", "-lgtest", "-lpthread"], capture_output=True).returncode:
                return False
            try:
                if subprocess.run([d + "/t"], capture_output=True, timeout=60).returncode:
                    return False
            except subprocess.TimeoutExpired:
                return False
        return True
    finally:
        shutil.rmtree(d)


def check(m):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp/mut")
    os.chmod(d, 0o755)
    os.chmod("/tmp/mut", 0o755)
    repo = d + "/repo"
    subprocess.run(["git", "clone", "-q", R, repo], check=True)
    apply(m, repo)
    res = {}
    for c in FILES.get(os.path.basename(m["file"]), "C24 C25").split():
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVID=repo + "/evid")
        try:
            p = subprocess.run(["python3", V + "/vrun.py", c], capture_output=True, text=True, env=env, timeout=1700, cwd=V)
            hit = p.returncode == 1 and ("VIOLATION property=%s " % c) in p.stdout
            res[c] = "caught" if hit else "quiet" if p.returncode == 0 else "rc%d %s" % (p.returncode, p.stderr[-300:])
        except subprocess.TimeoutExpired:
            res[c] = "timeout"
        if res[c] == "caught":
            break
    shutil.rmtree(d)
    m["result"] = res
    print("CAUGHT by %s" % c if res[c] == "caught" else "SURVIVES", "%s:%d" % (m["file"], m["line"] + 1), "|", m["old"].strip(), "->", m["new"].strip(), {k: v for k, v in res.items() if v not in ("quiet", "caught")}, flush=True)
    return m


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 2
    if "-j" in a:
        j = int(a[a.index("-j") + 1]); del a[a.index("-j"):a.index("-j") + 2]
    os.makedirs("/tmp/mut", exist_ok=True)
    if a[0] == "generate":
        ms = mutants(random.Random(int(a[2])), int(a[1]))
        keep, n = [], 0
        with ThreadPoolExecutor(j) as ex:
            for m, o in zip(ms, ex.map(passes, ms)):
                n += 1
                if o:
                    keep.append(m)
                    json.dump(keep, open(a[3], "w"), indent=1)
                print(n, "mutants,", len(keep), "pass the tests", flush=True)
    else:
        ms = json.load(open(a[1]))
        done = []
        with ThreadPoolExecutor(j) as ex:
            for m in ex.map(check, ms):
                done.append(m)
                json.dump(done, open(a[2], "w"), indent=1)
        print(sum("caught" in m["result"].values() for m in done), "of", len(done), "caught")
