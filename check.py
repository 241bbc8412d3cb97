#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

1. model check the family specification (small constants, all behaviours),
2. generate behaviours from the specification with TLC,
3. replay them on the code built from /repo's working tree,
4. have TLC check that every recorded execution is allowed by the specification.

Exit 0: everything explored is allowed.  Exit 1 with a VIOLATION line: a recorded
execution that the specification does not allow, reproduced by a second run.
Anything else is an error of the check."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
NPROC = os.cpu_count() or 8
from plan import PLAN                                              # noqa: E402


class CheckError(Exception):
    pass


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                              timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: " + " ".join(cmd)[:300])


# ------------------------------------------------------------------ building
class Build:
    """The driver (and the class files for TLC), built from the current trees in a scratch folder."""

    def __init__(self, work, pool, python_so):
        self.work, self.pool, self.python_so = work, pool, python_so

    def java(self):
        d = os.path.join(self.work, "cls")
        os.makedirs(d)
        r = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d] + glob.glob(HERE + "/java/*.java"), 120)
        if r.returncode:
            raise CheckError("javac: " + r.stdout)
        return d

    def compile(self, srcs, flags, tag):
        futs, objs = [], []
        for i, s in enumerate(srcs):
            o = os.path.join(self.work, "%s-%d-%s.o" % (tag, i, os.path.basename(s)))
            objs.append(o)
            fl = list(flags)
            if s.endswith("driver.cpp"):
                fl = [f for f in fl if not f.startswith("-O")] + ["-O0"]
            futs.append(self.pool.submit(run, ["g++"] + fl + ["-I", REPO + "/cpp", "-I", REPO + "/utils", "-c", s, "-o", o], 300))
        for f in futs:
            r = f.result()
            if r.returncode:
                raise CheckError("compilation failed:\n" + r.stdout[-3000:])
        return objs

    def sources(self):
        return sorted(glob.glob(REPO + "/cpp/*.cpp") + glob.glob(REPO + "/utils/*.cpp"))

    def driver(self, name="driver", more=()):
        fl = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"] + list(more)
        objs = self.compile([HERE + "/harness/driver.cpp"] + self.sources(), fl, name)
        exe = os.path.join(self.work, name)
        r = run(["g++", "-fsanitize=address"] + objs + ["-o", exe, "-llapack", "-lblas"], 300)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stdout[-3000:])
        return exe

    def pylib(self):
        """The Python package as installed: py/*.py and the shared library beside it."""
        pk = os.path.join(self.work, "pkg", "sigrid")
        os.makedirs(pk)
        for f in glob.glob(REPO + "/py/*.py"):
            shutil.copy(f, pk)
        objs = self.compile(sorted(glob.glob(REPO + "/cpp/*.cpp")), ["-O1", "-fPIC", "-w"], "p")
        so = os.path.join(pk, "_sigrid.so")
        r = run(["g++", "-shared"] + objs + ["-o", so, "-llapack", "-lblas"], 300)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stdout[-3000:])
        return os.path.dirname(pk)


# ----------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, work, cls):
        self.work, self.cls, self.n, self.lock = work, cls, 0, threading.Lock()
        self.spec = os.path.join(work, "spec")
        shutil.copytree(HERE + "/spec", self.spec)

    def run(self, module, cfg, timeout, env=None, workers="1", heap="3g", extra=()):
        with self.lock:
            self.n += 1
            n = self.n
        tmp = os.path.join(self.work, "tlc%d" % n)
        os.makedirs(tmp)
        cf_ = os.path.join(tmp, module + ".cfg")
        with open(cf_, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC", "-Xss32m", "-Xmx" + heap, "-Djava.io.tmpdir=" + tmp,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides",
               "-cp", "%s:%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (self.cls, TLA, TLA),
               "tlc2.TLC", "-metadir", tmp, "-noGenerateSpecTE", "-nowarning", "-workers", workers,
               "-config", cf_] + list(extra) + [os.path.join(self.spec, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        r = run(cmd, timeout, env=e, cwd=self.spec)
        shutil.rmtree(tmp, ignore_errors=True)
        r.stdout = "".join(x + "\n" for x in r.stdout.splitlines() if not x.startswith(("Parsing file", "Semantic proc", "Linting of", "Computed ")))
        return r

    @staticmethod
    def states(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def cfg_lines(consts, *lines):
    return "\n".join(list(lines) + ["CONSTANT %s = %s" % kv for kv in consts.items()]) + "\n"


# ------------------------------------------------------------------- scripts
def enc(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return ",".join(enc(x) for x in v)
    return str(v)


def pct(s):
    return "".join(c if c.isalnum() or c in "_-." else "%%%02x" % ord(c) for c in s)


STR_KEYS = {("cmd.set", "name"), ("cmd.set", "v"), ("cmd.set", "h"), ("cmd.purpose", "text"), ("cmd.note", "text"), ("cmd.get", "name"), ("cmd.parse", "argv")}


def call_line(c):
    op = c["op"]
    f = []
    for k, v in c.items():
        if k == "op" or k.startswith("_"):
            continue
        if (op, k) in STR_KEYS:
            v = ",".join(pct(x) for x in v) if isinstance(v, list) else pct(v)
        else:
            v = enc(v)
        f.append("%s=%s" % (k, v))
    return op + " " + " ".join(f)


def digest(s):
    return hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()[:12]


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.t0 = time.time()
        self.work = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.builder = cf.ThreadPoolExecutor(4)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.ops = {}
        self.notes = []
        self.n = 0
        self.lock = threading.Lock()

    def budget(self):
        return 800 if self.tier == "quick" else 7200

    # -- the code
    def execute(self, scripts):
        """Run scripts on the code; returns the events of each."""
        with self.lock:
            self.n += 1
            n = self.n
        if self.plan.get("python"):
            return self.execute_py(scripts, n)
        if self.plan.get("twins"):
            return self.execute_twins(scripts)
        return self.run_driver(scripts, n, self.exe)

    def execute_twins(self, scripts):
        """Scripts that consist of several related ones, each in a process of its own."""
        parts, of = [], []
        for i, s in enumerate(scripts):
            for c in s:
                if c["op"] == "start":
                    parts.append([])
                    of.append(i)
                parts[-1].append(c)
        again = [k for k, p in enumerate(parts) if p[0]["twin"] == "again"]
        rest = [k for k, p in enumerate(parts) if p[0]["twin"] != "again"]
        out = [None] * len(parts)
        for ks, exe, fill in ((rest, self.exe, 0), (again, getattr(self, "exe2", None), 171)):
            if ks:
                with self.lock:
                    self.n += 1
                    n = self.n
                for k, ev in zip(ks, self.run_driver([parts[k] for k in ks], n, exe, fill)):
                    out[k] = ev
        res = [[] for _ in scripts]
        for k, ev in enumerate(out):
            for c, e in zip(parts[k], ev):
                ans = json.dumps({x: e[x] for x in sorted(e) if x not in c})
                t = {x: c[x] for x in ("op", "o", "nth", "twin", "id") if x in c}
                t["ans"] = ans if len(ans) < 160 else ans[:100] + " ... " + hashlib.sha1(ans.encode()).hexdigest()
                if c["op"] in ("find.next", "find.run"):   # what is answered without looking
                    t["quiet"] = "quiet" in c
                    t["brief"] = json.dumps({x: e[x] for x in ("ret", "steps") if x in e})
                if "crash" in e:
                    t["crash"] = e["crash"]
                res[of[k]].append(t)
        return res

    def run_driver(self, scripts, n, exe, fill=None):
        sp, rp = os.path.join(self.work, "s%d" % n), os.path.join(self.work, "r%d" % n)
        with open(sp, "w") as f:
            for s in scripts:
                for c in s:
                    f.write(call_line(c) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0" +
                   ("" if fill is None else ":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill), FILL=str(0xA5 if fill is None else fill),
                   SCRIPT_TIMEOUT=str(self.plan.get("script_timeout", 30)), OPENBLAS_NUM_THREADS="1")
        with open(os.path.join(self.work, "e%d" % n), "w") as ef:
            p = subprocess.run([exe, sp, rp], stdout=ef, stderr=ef, env=env, timeout=3600)
        if p.returncode:
            raise CheckError("driver exit %d: %s" % (p.returncode, open(os.path.join(self.work, "e%d" % n)).read()[-2000:]))
        err = open(os.path.join(self.work, "e%d" % n), errors="replace").read()
        res = self.merge(scripts, [json.loads(x) for x in self.json_lines(rp)], err)
        os.remove(sp)
        os.remove(rp)
        return res

    @staticmethod
    def json_lines(rp):
        # a process that died may leave a partial line, and the marker follows it
        for x in open(rp, errors="replace"):
            x = x.strip()
            if not x:
                continue
            try:
                json.loads(x)
                yield x
            except ValueError:
                k = x.rfind('{"end"')
                if k >= 0:
                    yield x[k:]

    def execute_py(self, scripts, n):
        sp, rp = os.path.join(self.work, "s%d" % n), os.path.join(self.work, "r%d" % n)
        with open(sp, "w") as f:
            json.dump(scripts, f)
        env = dict(os.environ, PYTHONPATH=self.pkg, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
        p = run(["/usr/bin/python3", HERE + "/harness/pydriver.py", sp, rp], 3600, env=env)
        if p.returncode:
            raise CheckError("pydriver exit %d: %s" % (p.returncode, p.stdout[-2000:]))
        return self.merge(scripts, [json.loads(x) for x in self.json_lines(rp)], p.stdout)

    def merge(self, scripts, res, err):
        out, i = [], 0
        for s in scripts:
            ev = []
            for c in s:
                if i >= len(res):
                    raise CheckError("driver results are incomplete")
                if "end" in res[i]:
                    why = res[i]["end"]
                    m = re.search(r"(AddressSanitizer: [^\n]*)", err)
                    if m and why.startswith("exit"):
                        why += " (" + m.group(1)[:160] + ")"
                    ev.append(dict(c, crash=why))
                    break
                e = dict(c)
                for k, v in res[i].items():
                    assert k not in e, k
                    e[k] = v
                ev.append(e)
                i += 1
            if i >= len(res) or "end" not in res[i]:
                raise CheckError("driver results are out of step")
            if res[i]["end"] != "exit 0" and ev and "crash" not in ev[-1]:
                ev[-1]["crash"] = res[i]["end"] + " at the end"
            i += 1
            for e in ev:
                for k in [k for k in e if k.startswith("_")]:
                    del e[k]
            out.append(ev)
        return out

    # -- TLC on a recorded execution
    def validate(self, traces):
        with self.lock:
            self.n += 1
            n = self.n
        tp = os.path.join(self.work, "t%d.ndjson" % n)
        with open(tp, "w") as f:
            for t in traces:
                for e in t:
                    f.write(json.dumps(e) + "\n")
        consts = dict(self.plan.get("trace_consts", {}))
        consts["Aspect"] = '{"%s"}' % self.prop
        r = self.tlc.run(self.plan["trace"], cfg_lines(consts, "INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE",
                                                       "POSTCONDITION TraceAccepted"), 3600, env={"TRACE": tp})
        st = Tlc.states(r.stdout)
        with self.lock:
            self.cov["states"] += st[0]
            self.cov["transitions"] += st[1]
        if re.search(r"ACCEPTED \d+", r.stdout) and "Error:" not in r.stdout:
            os.remove(tp)
            return None
        m = re.search(r"REJECTED line (\d+)", r.stdout)
        if not m or re.search(r"Error: (?!.*(POSTCONDITION|[Pp]ostcondition|TraceAccepted))", r.stdout):
            raise CheckError("TLC failed on a trace (%s):\n%s" % (tp, r.stdout[-3500:]))
        line = int(m.group(1))
        why = re.findall(r"FAILED [^\n\"]*", r.stdout)
        k = 0
        for i, t in enumerate(traces):
            if k + len(t) >= line:
                return i, line - k, why[-1] if why else "no action of the specification allows the event"
            k += len(t)
        raise CheckError("rejected line %d of %d" % (line, k))

    def chunk(self, scripts):
        """-> list of (script, event number, what) confirmed rejections"""
        traces = self.execute(scripts)
        with self.lock:
            for t in traces:
                for e in t:
                    self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
                    if "crash" in e:
                        self.ops["(crash)"] = self.ops.get("(crash)", 0) + 1
        rej = self.validate(traces)
        if rej is None:
            with self.lock:
                self.cov["traces_validated_against_impl"] += len(traces)
            return None
        with self.lock:
            self.cov["traces_validated_against_impl"] += rej[0]
        # only what happens again is reported
        s = scripts[rej[0]]
        for attempt in range(2):
            tr = self.execute([s])
            r2 = self.validate(tr)
            if r2 is not None:
                return s, tr[0], r2
        for attempt in range(2):
            tr = self.execute(scripts)
            r2 = self.validate(tr)
            if r2 is not None:
                return scripts[r2[0]], tr[r2[0]], r2
        self.notes.append("a rejection was not reproduced: " + str(rej))
        return None

    # -- specification side
    def model_check(self, m):
        consts = dict(m.get("consts", {}))
        if self.tier == "thorough":
            consts.update(m.get("thorough", {}))
        lines = ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"] if "spec" not in m else ["SPECIFICATION " + m["spec"], "CHECK_DEADLOCK FALSE"]
        lines += ["INVARIANT " + i for i in m.get("invariants", [])] + ["PROPERTY " + i for i in m.get("properties", [])] + m.get("lines", [])
        r = self.tlc.run(m["module"], cfg_lines(consts, *lines), self.budget(), workers=m.get("workers", "2"))
        if "Model checking completed. No error has been found" not in r.stdout:
            raise CheckError("model checking of %s failed:\n%s" % (m["module"], r.stdout[-3500:]))
        st = Tlc.states(r.stdout)
        with self.lock:
            self.cov["states"] += st[0]
            self.cov["transitions"] += st[1]
            self.cov.setdefault("models", []).append(dict(module=m["module"], distinct_states=st[0], transitions=st[1],
                                                          invariants=m.get("invariants", []), properties=m.get("properties", [])))

    def generate(self, g, first, count):
        consts = dict(g.get("consts", {}))
        if "bfs" not in g:
            consts.update(Seed=self.seed % 2000000000, Count=count, From=first)
        r = self.tlc.run(g["module"], cfg_lines(consts, "INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE", *g.get("lines", [])), self.budget(),
                         env=g.get("env"), workers="1")
        if "Model checking completed. No error has been found" not in r.stdout:
            raise CheckError("generation with %s failed:\n%s" % (g["module"], r.stdout[-3500:]))
        scripts = [json.loads(json.loads(x)[7:]) for x in r.stdout.splitlines() if x.startswith('"SCRIPT ')]
        if "bfs" not in g and len(scripts) != count:
            raise CheckError("generation with %s made %d scripts instead of %d" % (g["module"], len(scripts), count))
        if not scripts:
            raise CheckError("generation with %s made no script" % g["module"])
        return scripts

    def known(self):
        """known findings of this property: digest of the script -> text"""
        k = {}
        p = os.path.join(HERE, "known_findings.txt")
        for x in open(p) if os.path.exists(p) else []:
            m = re.match(r"finding: property=(\S+) script=(\S+) (.*)", x)
            if m and m.group(1) == self.prop:
                k[m.group(2)] = m.group(3).strip()
        return k

    def prepare(self):
        b = Build(self.work, self.pool, False)
        fj = self.builder.submit(b.java)
        if self.plan.get("python"):
            fd = self.builder.submit(b.pylib)
        else:
            fd = self.builder.submit(b.driver, "driver", self.plan.get("flags", ()))
            if self.plan.get("flags2"):
                self.fd2 = self.builder.submit(b.driver, "driver2", self.plan["flags2"])
        self.tlc = Tlc(self.work, fj.result())
        return fd

    def ready(self, fd):
        if self.plan.get("python"):
            self.pkg = fd.result()
        else:
            self.exe = fd.result()
            if self.plan.get("flags2"):
                self.exe2 = self.fd2.result()

    def main(self):
        fd = self.prepare()
        scale = self.plan.get("chunk", 10)
        gens, mcs = [], []
        for g in self.plan["gen"]:
            if "bfs" in g:
                gens.append(self.pool.submit(self.generate, g, 0, 0))
                continue
            cnt = g[self.tier]
            per = max(g.get("per", 40), -(-cnt // 64))
            for f in range(1, cnt + 1, per):
                gens.append(self.pool.submit(self.generate, g, f, min(per, cnt + 1 - f)))
        for m in self.plan.get("mc", []):
            mcs.append(self.pool.submit(self.model_check, m))
        self.ready(fd)
        scripts, seen = [], set()
        for g in gens:
            for s in g.result():
                d = digest(s[1:])
                if d not in seen:
                    seen.add(d)
                    scripts.append(s)
        self.cov["scripts"] = len(scripts)
        # deal them out so that expensive ones are spread
        size = lambda s: sum(len(json.dumps(c)) for c in s)
        scripts.sort(key=size, reverse=True)
        nb = max(1, min(len(scripts), max(NPROC if len(scripts) >= 2 * NPROC else 1, -(-len(scripts) // scale))))
        chunks = [scripts[i::nb] for i in range(nb)]
        fut = [self.pool.submit(self.chunk, c) for c in chunks]
        bad = []
        try:
            for f in cf.as_completed(fut):
                r = f.result()
                if r is not None:
                    bad.append(r)
                    if self.tier == "quick" or len(bad) > 4:
                        for g in fut:
                            g.cancel()
                        break
            for g in fut:
                if not g.cancelled():
                    r = g.result()
                    if r is not None and all(r is not x for x in bad):
                        bad.append(r)
            for m in mcs:
                m.result()
        except cf.CancelledError:
            pass
        return self.report(bad, scripts)

    def report(self, bad, scripts):
        known = self.known()
        rc, nv = 0, 0
        os.makedirs(HERE + "/replays", exist_ok=True)
        for s, tr, rej in sorted(bad, key=lambda x: len(json.dumps(x[0]))):
            d = digest(s[1:])
            if d in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[d]))
                continue
            path = os.path.join(HERE, "replays", "%s-%s.json" % (self.prop, d))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, why=rej[2], event=rej[1], script=s, trace=tr), f, indent=0)
            ev = json.dumps(tr[min(rej[1], len(tr)) - 1])
            print("rejected: %s\n  event %d: %s" % (rej[2], rej[1], ev[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc, nv = 1, nv + 1
        self.cov["events"] = sum(self.ops.values())
        self.cov["calls"] = dict(sorted(self.ops.items()))
        for s in scripts[-1:] + scripts[len(scripts) // 2:len(scripts) // 2 + 1]:
            t = json.dumps(s)
            self.cov["samples"].append(s if len(t) < 3000 else t[:3000] + " ...")
        if self.notes:
            self.cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.plan.get("assumptions", []), wall_s=round(time.time() - self.t0, 1), violations=nv)
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(HERE + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d behaviours replayed and validated, %d events, %d states, %d violations, %.1f s"
              % (self.prop, self.cov["traces_validated_against_impl"], self.cov["events"], self.cov["states"], nv, time.time() - self.t0))
        return rc

    def replay(self, path):
        fd = self.prepare()
        self.ready(fd)
        s = json.load(open(path))["script"]
        tr = self.execute([s])
        rej = self.validate(tr)
        if rej is None:
            print("accepted")
            return 0
        print(rej[2])
        print(json.dumps(tr[0][rej[1] - 1])[:3000])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def close(self):
        self.pool.shutdown(wait=True, cancel_futures=True)
        self.builder.shutdown(wait=True, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    r = Runner(a.prop, a.tier, a.seed)
    try:
        return r.replay(a.replay) if a.replay else r.main()
    except CheckError as e:
        print("ERROR:", e)
        return 3
    finally:
        r.close()


if __name__ == "__main__":
    sys.exit(main())
