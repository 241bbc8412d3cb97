#!/usr/bin/env python3
"""Development tool: which small edits of the code do the checks miss?
   mutate.py [--per FILE_MUTANTS] [--seed N] [--jobs J] [--files a,b] OUT
Works on copies of /repo under /tmp/wt/mut-*.  A mutant is replayed on cached behaviours; if every
recorded answer is the one of the unchanged code it is missed; if some differ TLC judges them.
Missed mutants that pass the stable tests are written to OUT (one JSON line each)."""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check                                                        # noqa: E402
from plan import PLAN                                               # noqa: E402

FILES = {
    "cpp/SgConserveInterp2D.h": "C01 C02 C03 C04", "cpp/SgConserveInterp2D.cpp": "C01 C02 C03 C04 C28",
    "cpp/SgNodeInterp2D.h": "C05 C06", "cpp/SgNodeInterp2D.cpp": "C05 C06 C28",
    "cpp/SgFindPointInCell.h": "C07 C08 C09 C05 C06", "cpp/SgFindPointInCell.cpp": "C07 C08 C09 C28",
    "cpp/SgFindOverlappingCells2D.h": "C10", "cpp/SgFindOverlappingCells2D.cpp": "C10 C28",
    "cpp/SgQuadIntersect.h": "C11 C01", "cpp/SgQuadIntersect.cpp": "C11 C28", "cpp/SgTriangulate.h": "C12 C01", "cpp/SgTriangulate.cpp": "C12 C28",
    "cpp/SgQuadLineIntersect.h": "C13 C15 C16", "cpp/SgQuadLineIntersect.cpp": "C13 C28", "cpp/SgQuadLineFlows.h": "C14 C15", "cpp/SgQuadLineFlows.cpp": "C14 C28",
    "cpp/SgFlowInterp2D.h": "C15 C16 C27", "cpp/SgFlowInterp2D.cpp": "C15 C16 C28", "cpp/SgLinearSolve.h": "C17", "cpp/SgLinearSolve.cpp": "C17 C28",
    "cpp/SgBoxIterator.h": "C18", "cpp/SgBoxIterator.cpp": "C18 C28", "cpp/SgSideIterator.h": "C19", "cpp/SgOctreePoints.h": "C20", "cpp/SgOctreePoints.cpp": "C20 C28",
    "utils/CmdLineArgParser.cpp": "C21", "utils/CmdLineArgParser.h": "C21", "utils/createGrids2D.cpp": "C22 C23 C24", "cpp/SgTripolarGrid.h": "C24",
    "cpp/SgTriangle.cpp": "C26 C28", "cpp/SgLine.cpp": "C26 C28", "cpp/SgTetrahedron.cpp": "C26 C28",
}
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-])<(?![<=])(?=\s)", "<="), (r"(?<![>\-])>(?![>=])(?=\s)", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "/"), (r"\+=", "-="), (r"\+=", "="), (r"-=", "+="), (r"\*=", "="),
       (r"\+\+", "--"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"std::max", "std::min"), (r"std::min", "std::max"), (r"\b0\.5\b", "0.25"), (r"\bsrc", "dst"), (r"\bdst", "src"), (r"\bi\b", "j"), (r"\bj\b", "i"),
       (r"cos\(", "sin("), (r"sin\(", "cos("), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"[\w>.-]*(?:clear|reset|resize)\([^;]*\);", ";"),
       (r"1\.e-(\d+)", "1.e-3"), (r"fabs\(", "("), (r"\s%\s[^;]*;", ";"), (r"NDIMS_2D_PHYS", "1"), (r"NodeDimProd", "CellDimProd"), (r"CellDims", "NodeDims"), (r"-1\b", "0"),
       (r"^\s+this->[^=;{]*=[^=][^;{]*;\s*$", "\n"), (r"^\s+[\w\[\]*>.+-]+\s*[+\-*]?=[^=][^;{]*;\s*$", "\n")]


def mutants(path, text, want, rnd):
    lines = text.split("\n")
    out = []
    inc = False
    for n, x in enumerate(lines):
        s = x.strip()
        if s.startswith("/*"):
            inc = True
        if not inc and s and not s.startswith(("//", "#", "*")):
            code = x.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if b == "" or m.group(0) == b:
                        continue
                    y = x[:m.start()] + b.strip("\n") + x[m.end():]
                    if y != x:
                        out.append((n, x, y))
        if "*/" in s:
            inc = False
    out = sorted(set(out))
    rnd.shuffle(out)
    return out[:want]


class Tree:
    """A copy of /repo with its own build of the driver and of the tests."""
    def __init__(self, k):
        self.d = "/tmp/wt/mut-%d" % k
        shutil.rmtree(self.d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", self.d])
        shutil.rmtree(self.d + "/_build", ignore_errors=True)
        self.o = self.d + "/_drv"
        os.makedirs(self.o)
        self.obj = {}
        self.deps = {}
        srcs = [H + "/harness/driver.cpp"] + sorted(glob.glob(self.d + "/cpp/*.cpp") + glob.glob(self.d + "/utils/*.cpp"))
        for s in srcs:
            self.cc(s)
        self.tests = None

    def cc(self, s):
        o = os.path.join(self.o, os.path.basename(s) + ".o")
        r = subprocess.run(["g++", "-O0", "-fsanitize=address", "-w", "-MMD", "-I", self.d + "/cpp", "-I", self.d + "/utils", "-c", s, "-o", o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        if r.returncode == 0:
            self.deps[s] = set(open(o[:-2] + ".d").read().replace("\\\n", " ").split()[1:])
            self.obj[s] = o
        return r.returncode == 0

    def build(self, path):
        full = os.path.join(self.d, path)
        for s in list(self.deps):
            if full in self.deps[s]:
                if not self.cc(s):
                    return False
        return subprocess.run(["g++", "-fsanitize=address"] + list(self.obj.values()) + ["-o", self.o + "/driver", "-llapack", "-lblas"],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

    def stable(self):
        """do the stable tests pass?"""
        b = self.d + "/_test.sh"
        if not os.path.exists(b):
            for n in ("build", "test"):
                t = open("/opt/vp/%s.sh" % n).read().replace("/repo", self.d).replace("/opt/vp/build.sh", self.d + "/_build.sh")
                open(self.d + "/_%s.sh" % n, "w").write(t.replace("-j8", "-j4"))
        subprocess.run(["bash", b, self.d + "/_out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=1200)
        got = set(json.load(open(self.d + "/_out.json"))["passed"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = set(base.get("stable") or base.get("passed") or base.get("tests"))
        return base <= got, sorted(base - got)


class Prop:
    """Cached behaviours and answers of the unchanged code."""
    def __init__(self, p, seed, exe, tlc, pool, frac):
        self.r = r = check.Runner.__new__(check.Runner)
        r.prop, r.tier, r.seed, r.plan = p, "quick", seed, dict(PLAN[p])
        r.work = os.path.join(H, "build", "mut-" + p)
        shutil.rmtree(r.work, ignore_errors=True)
        os.makedirs(r.work)
        r.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        r.ops, r.notes, r.n, r.lock, r.tlc, r.exe = {}, [], 0, threading.Lock(), tlc, exe
        r.plan["script_timeout"] = 5
        fs = []
        for g in r.plan["gen"]:
            if "bfs" in g:
                fs.append(pool.submit(r.generate, g, 0, 0))
            else:
                c = max(4, int(g["quick"] * frac))
                for f in range(1, c + 1, 40):
                    fs.append(pool.submit(r.generate, g, f, min(40, c + 1 - f)))
        self.scripts = [s for f in fs for s in f.result()]
        self.base = r.execute(self.scripts)

    def judge(self, exe):
        """None: the same answers; else (caught?, detail)"""
        r = self.r
        q = check.Runner.__new__(check.Runner)
        q.__dict__.update(r.__dict__)
        q.exe = exe
        with r.lock:
            r.n += 1
            q.n = r.n * 1000
        tr = []
        for i in range(0, len(self.scripts), 12):
            tr += q.execute(self.scripts[i:i + 12])
            if any("crash" in t[-1] for t in tr):
                break
        diff = [i for i in range(len(tr)) if tr[i] != self.base[i]]
        if not diff:
            return None
        crash = [i for i in diff if "crash" in tr[i][-1]]
        pick = crash[:2] + random.Random(1).sample(diff, min(24, len(diff)))
        rej = q.validate([tr[i] for i in pick])
        if rej is None and len(diff) > len(pick):
            rej = q.validate([tr[i] for i in diff])
        return (rej is not None, rej[2] if rej else "%d behaviours differ and are allowed" % len(diff))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--per", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--frac", type=float, default=1.0)
    ap.add_argument("--files")
    ap.add_argument("--from", dest="frm", type=int, default=0)
    a = ap.parse_args()
    files = a.files.split(",") if a.files else list(FILES)
    pool = cf.ThreadPoolExecutor(a.jobs)
    trees = list(pool.map(Tree, range(a.jobs)))
    assert trees[0].build("cpp/SgNdims.h")
    exe = H + "/build/mut-driver"
    shutil.copy(trees[0].o + "/driver", exe)
    b = check.Build(H + "/build/mut-cls", pool, False)
    shutil.rmtree(b.work, ignore_errors=True)
    os.makedirs(b.work)
    tlc = check.Tlc(b.work, b.java())
    props = {}
    for p in sorted({p for f in files for p in FILES[f].split()}):
        props[p] = Prop(p, a.seed, exe, tlc, pool, a.frac)
        print("cached", p, len(props[p].scripts), flush=True)
    rnd = random.Random(a.seed)
    todo = []
    for f in files:
        todo += [(f, m) for m in mutants(f, open("/repo/" + f).read(), a.per, rnd)]
    rnd.shuffle(todo)
    todo = todo[a.frm:]
    print(len(todo), "mutants", flush=True)
    free, lk = list(trees), threading.Lock()
    stat = dict(caught=0, nobuild=0, missed=0, tests=0, error=0)

    def one(job):
        f, (n, x, y) = job
        with lk:
            t = free.pop()
        p = os.path.join(t.d, f)
        text = open(p).read()
        try:
            ls = text.split("\n")
            ls[n] = y
            open(p, "w").write("\n".join(ls))
            if not t.build(f):
                res, det = "nobuild", ""
            else:
                res, det = "missed", []
                for q in FILES[f].split():
                    v = props[q].judge(t.o + "/driver")
                    if v and v[0]:
                        res, det = "caught", q + ": " + v[1]
                        break
                    if v:
                        det.append(q + ": " + v[1])
                if res == "missed":
                    ok, bad = t.stable()
                    if not ok:
                        res, det = "tests", bad
        except Exception as e:
            res, det = "error", repr(e)[:600]
        finally:
            open(p, "w").write(text)
            try:
                t.build(f)
            except Exception:
                pass
            with lk:
                free.append(t)
                stat[res] += 1
                if res in ("missed", "error", "tests"):
                    with open(a.out, "a") as o:
                        o.write(json.dumps(dict(res=res, file=f, line=n + 1, old=x.strip(), new=y.strip(), detail=det)) + "\n")
                print(stat, f, n + 1, res, flush=True)
    list(pool.map(one, todo))
    for t in trees:
        shutil.rmtree(t.d, ignore_errors=True)


if __name__ == "__main__":
    main()
