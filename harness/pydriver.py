"""Replay scripts on the Python package: pydriver.py SCRIPTS RESULTS (one process per script)."""
import json, os, signal, sys
import numpy
import sigrid
from sigrid import conserveInterp2D

LIMIT = int(os.environ.get("SCRIPT_TIMEOUT", "60"))


def num(s):
    return float(s) if s in ("nan", "inf", "-inf") else float.fromhex(s)


def lay(a, how):
    """The same numbers in another layout or type (as they are if that would change them)."""
    a = numpy.array(a, numpy.float64)
    if how in ("f4", "f2", "i4", "i8", "i2", "u1"):
        with numpy.errstate(all="ignore"):
            b = a.astype(how)
            return b if numpy.array_equal(b.astype(numpy.float64), a) and not numpy.any(numpy.signbit(a) & (a == 0)) else a
    if how == "big":
        return a.astype(">f8")
    if how == "fortran":
        return numpy.asfortranarray(a)
    if how == "transposed":
        return numpy.ascontiguousarray(a.T).T
    if how == "strided":
        big = numpy.full([2 * n + 1 for n in a.shape], 7.25)
        v = big[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        ix = tuple(slice(None, None, -1) for _ in a.shape)
        return numpy.ascontiguousarray(a[ix])[ix]
    if how == "columns":
        big = numpy.full(a.shape + (2,), -3.5)
        big[..., 1] = a
        return big[..., 1]
    if how == "readonly":
        a.flags.writeable = False
        return a
    if how == "list":
        return a.tolist()
    return a


def spoil(a):
    """The caller is free to reuse its arrays."""
    if isinstance(a, numpy.ndarray) and a.flags.writeable:
        a[...] = 99
    elif isinstance(a, list):
        for i in range(len(a)):
            a[i] = None


def same(a, b):
    return numpy.array_equal(numpy.asarray(a, numpy.float64), b, equal_nan=True)


class Session:
    def __init__(self):
        self.obj, self.grid, self.out, self.given = {}, {}, {}, []

    def lay(self, a, how, reuse):
        """The numbers in an array, if asked for in one that was given before (the last one that can hold them)."""
        a = numpy.array(a, numpy.float64)
        if reuse:
            for v in reversed(self.given):
                if isinstance(v, list):
                    v[:] = a.tolist()
                    return v
                if v.shape == a.shape and v.flags.writeable:
                    with numpy.errstate(all="ignore"):
                        v[...] = a
                    if same(v, a) and not numpy.any(numpy.signbit(a) & (a == 0)):
                        return v
        v = lay(a, how)
        self.given.append(v)
        return v

    def call(self, c):
        op = c["op"]
        if op == "start":
            return {}
        if op == "grid":
            self.grid[c["id"]] = tuple(numpy.array([num(s) for s in c[k]]).reshape(c["n"]) for k in "xy")
            return {}
        o = c["o"]
        if op == "py.new":
            self.obj[o] = conserveInterp2D.ConserveInterp2D()
            return {}
        if op == "py.del":
            self.out.pop(o, None)
            del self.obj[o]
            return {}
        if op == "py.spoil":                  # the caller writes into the array apply returned last
            if o in self.out:
                self.out[o][...] = num(c["v"])
            return {}
        r = dict(raised="", mod=False)
        a = self.obj[o]
        try:
            if op in ("py.src", "py.dst"):
                g = self.grid[c["g"]]
                v = [self.lay(x, h, c["reuse"] and i == 0) for i, (x, h) in enumerate(zip(g, c["how"]))]
                if v[0] is v[1]:
                    v[1] = lay(g[1], c["how"][1])
                try:
                    if op == "py.src":
                        a.setSrcGrid(c["per"], v[0], v[1])
                    else:
                        a.setDstGrid(v[0], v[1])
                finally:
                    r["mod"] = not (same(v[0], g[0]) and same(v[1], g[1]))
                    spoil(v[0])
                    spoil(v[1])
            elif op == "py.compute":
                a.computeWeights()
            elif op == "py.apply":
                f = numpy.array([num(s) for s in c["f"]]).reshape(c["shape"])
                v = self.lay(f, c["how"], c["reuse"])
                try:
                    out = a.apply(v)
                finally:
                    r["mod"] = not same(v, f)
                    spoil(v)
                self.out[o] = out
                r["oshape"] = list(out.shape)
                r["out"] = [("nan" if x != x else float(x).hex() if abs(x) != float("inf") else str(float(x))) for x in out.flatten()]
            else:
                raise SystemExit("unknown call " + op)
        except Exception as e:
            r["raised"] = type(e).__name__
        return r


def main(sp, rp):
    scripts = json.load(open(sp))
    open(rp, "w").close()
    for s in scripts:
        pid = os.fork()
        if pid == 0:
            signal.alarm(LIMIT)
            try:
                t = Session()
                with open(rp, "a") as f:
                    for c in s:
                        f.write(json.dumps(t.call(c)) + "\n")
                        f.flush()
                t.obj.clear()
            except BaseException as e:
                sys.stderr.write("%r\n" % (e,))
                sys.stderr.flush()
                os._exit(9)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        why = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st)
        with open(rp, "a") as f:
            f.write("\n" + json.dumps({"end": why}) + "\n")


main(sys.argv[1], sys.argv[2])
