"""Executes the Python reference implementation symbolically.

Numbers are replaced by symbols, every arithmetic operation on them is recorded, and both sides of every branch
that depends on them are followed; what a function did becomes a straight-line C++ function (with the branches), which
the harness then compares with the compiled solver. Stand-ins: the compiled module is absent, numpy.zeros makes
arrays of objects, numpy.linalg.norm is the root of the sum of squares."""
import builtins
import math
import os
import sys
import types

sys.modules["GPRpy"] = types.ModuleType("GPRpy")
import numpy as np  # noqa: E402


class NeedDecision(Exception):
    def __init__(self, cond):
        self.cond = cond


class Run:
    def __init__(self, decisions):
        self.decisions = decisions
        self.used = 0
        self.stmts = []
        self.n = 0
        self.known = {}

    def emit(self, expr):
        name = "t%d" % self.n
        self.n += 1
        self.stmts.append("const double %s = %s;" % (name, expr))
        return Sym(name)

    def decide(self, cond):
        if cond in self.known:
            return self.known[cond]
        if self.used < len(self.decisions):
            self.used += 1
            self.known[cond] = self.decisions[self.used - 1]
            return self.known[cond]
        raise NeedDecision(cond)


run = None


def lit(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return "%d.0" % int(x)
    if isinstance(x, (int, np.integer)):
        return "(%d.0)" % x
    if isinstance(x, (float, np.floating)):
        return "(%r)" % float(x)
    raise TypeError("not a number: %r" % (x,))


class Cond:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return run.decide(self.e)


def number(x):
    return isinstance(x, (Sym, int, float, np.integer, np.floating))


class Sym:
    def __init__(self, e):
        self.e = e

    def bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
        if not number(o):
            return NotImplemented
        return run.emit(f % (self.e, lit(o)))

    def __add__(self, o): return self.bin(o, "%s + %s")
    def __radd__(self, o): return self.bin(o, "%s + %s")
    def __mul__(self, o): return self.bin(o, "%s * %s")
    def __rmul__(self, o): return self.bin(o, "%s * %s")
    def __sub__(self, o): return self.bin(o, "%s - %s")
    def __truediv__(self, o): return self.bin(o, "%s / %s")
    def __rsub__(self, o): return run.emit("%s - %s" % (lit(o), self.e)) if number(o) else NotImplemented
    def __rtruediv__(self, o): return run.emit("%s / %s" % (lit(o), self.e)) if number(o) else NotImplemented
    def __neg__(self): return run.emit("-%s" % self.e)
    def __pos__(self): return self
    def __abs__(self): return run.emit("std::fabs(%s)" % self.e)

    def __pow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (int, np.integer)) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self if isinstance(r, int) else r * self
            return r
        return self.bin(o, "std::pow(%s, %s)")

    def __rpow__(self, o): return run.emit("std::pow(%s, %s)" % (lit(o), self.e))
    def __lt__(self, o): return Cond("%s < %s" % (self.e, lit(o)))
    def __le__(self, o): return Cond("%s <= %s" % (self.e, lit(o)))
    def __gt__(self, o): return Cond("%s > %s" % (self.e, lit(o)))
    def __ge__(self, o): return Cond("%s >= %s" % (self.e, lit(o)))
    def __eq__(self, o): return Cond("%s == %s" % (self.e, lit(o)))
    def __ne__(self, o): return Cond("%s != %s" % (self.e, lit(o)))
    __hash__ = object.__hash__
    def __bool__(self): return run.decide("%s != 0" % self.e)
    def exp(self): return run.emit("std::exp(%s)" % self.e)
    def log(self): return run.emit("std::log(%s)" % self.e)
    def sqrt(self): return run.emit("std::sqrt(%s)" % self.e)
    def cbrt(self): return run.emit("std::cbrt(%s)" % self.e)
    def cos(self): return run.emit("std::cos(%s)" % self.e)
    def sin(self): return run.emit("std::sin(%s)" % self.e)
    def arctan2(self, o): return run.emit("std::atan2(%s, %s)" % (self.e, lit(o)))


def generate(fn, decisions=(), printed=0, depth=1):
    """C++ statements of fn() from a decision prefix on; fn returns the list of outputs"""
    global run
    if len(decisions) > 40:
        raise RuntimeError("too many branches")
    run = Run(list(decisions))
    pad = "  " * depth
    try:
        out = fn()
    except NeedDecision as d:
        st = run.stmts
        r = [pad + s for s in st[printed:]]
        r.append(pad + "if (%s) {" % d.cond)
        r += generate(fn, list(decisions) + [True], len(st), depth + 1)
        r.append(pad + "} else {")
        r += generate(fn, list(decisions) + [False], len(st), depth + 1)
        r.append(pad + "}")
        return r
    except (NameError, AttributeError, KeyError) as x:
        if "Sym" in str(x) or "Cond" in str(x) or "numpy" in str(x):
            raise
        print("note: %s: %s" % (type(x).__name__, x), file=sys.stderr)
        return [pad + s for s in run.stmts[printed:]] + [pad + '__sx_check(false, "the reference implementation raises %s");' % type(x).__name__]
    r = [pad + s for s in run.stmts[printed:]]
    for i, x in enumerate(out):
        if x is not None:
            r.append(pad + "out[%d] = %s;" % (i, lit(x)))
    return r


def flat(x):
    if x is None:
        return [None]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    return [x]


def emit_function(name, fn):
    return "\n".join(["static void %s(const double *in, Par &MP, double *out) {" % name, "  (void)in;"] + generate(lambda: flat(fn())) + ["}", ""])


np_empty = np.empty


def zeros(shape, *a, **k):
    r = np_empty(shape, dtype=object)
    r[...] = 0.0
    return r


def norm(x):
    s = 0
    for y in np.asarray(x).ravel():
        s = s + y * y
    return s.sqrt()


def elementwise(name, real):
    """functions of numbers that do not know symbols"""
    def f(x, *a):
        if isinstance(x, Sym):
            return getattr(x, name)(*a)
        if any(isinstance(y, Sym) for y in a):
            return Sym(lit(x)).__pow__(*a)
        return real(x, *a)
    return f


def choose(name, real):
    """max and min of two numbers"""
    def f(*a, **k):
        if len(a) == 2 and not k and any(isinstance(x, Sym) for x in a):
            return run.emit("std::%s<double>(%s, %s)" % (name, lit(a[0]), lit(a[1])))
        return real(*a, **k)
    return f


def det(a):
    a = np.asarray(a)
    if a.shape == (3, 3):
        return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1]) - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0]) +
                a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
    return np_det(a)


def inv(a):
    a = np.asarray(a)
    c = zeros((3, 3))
    for i in range(3):
        for j in range(3):
            p, q, r, s = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            c[j, i] = a[p, r] * a[q, s] - a[p, s] * a[q, r]
    return c / det(a)


def stand_ins():
    """what the traced code finds in numpy and math; arrays it makes may hold symbols"""
    global np_det
    np_det = np.linalg.det
    np.zeros = np.empty = zeros
    np.ones = lambda shape, *a, **k: zeros(shape) + 1.0
    np.eye = np.identity = lambda n, *a, **k: np.array([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)], dtype=object)
    np.zeros_like = lambda x, *a, **k: zeros(np.shape(x))
    np.linalg.norm, np.linalg.det, np.linalg.inv = norm, det, inv
    builtins.max, builtins.min = choose("max", max), choose("min", min)
    for n, m in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("fabs", "__abs__"), ("pow", "__pow__")):
        setattr(math, n, elementwise(m, getattr(math, n)))


class Material:
    """The constants of a material, as the compiled code's parameter structure has them"""
    INT = {"EOS", "SOLID", "POWER_LAW", "BINGHAM", "MULTI", "REACTION"}
    REAL = "ρ0 T0 Tref cv pINF Γ0 c02 s α β γ A B R1 R2 b02 μ τ0 σY n bf2 bs2 τf τs cα2 κ Qc Kc Ti Bc Ea Rc I G1 G2 a b c d e g x y z φI φG1 φG2".split()

    def __init__(self, **ints):
        self.__dict__.update(ints)
        for k in self.REAL:
            self.__dict__[k] = Sym("MP." + k)
        self.δp = np.array([Sym("MP.δp(%d)" % i) for i in range(3)], dtype=object)


def args(*kinds):
    """Symbols for the arguments: s a number, 3 a vector, 9 a matrix"""
    r, k = [], 0
    for a in kinds:
        n = {"s": 1, "3": 3, "9": 9}[a]
        x = [Sym("in[%d]" % (k + i)) for i in range(n)]
        k += n
        r.append(x[0] if n == 1 else np.array(x, dtype=object).reshape((3, 3) if n == 9 else (3,)))
    return r


if __name__ == "__main__":
    program, path = sys.argv[1], sys.argv[2]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["trace"] = sys.modules["__main__"]
    stand_ins()
    mod = __import__("prog_" + program)
    here = os.path.dirname(os.path.abspath(__file__))
    with open(path, "w") as f:
        f.write('#include "common.h"\n#include <algorithm>\n#include <cmath>\n')
        f.write(mod.program())
        f.write(open(os.path.join(here, program + ".cpp")).read())
