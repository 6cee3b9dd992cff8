"""Hyperelastic reference: energies with their derivatives (by running the same code on numbers that carry them)."""
import types
from trace import emit_function, Material, Sym, np, lit, number
from gpr.vars import hyp  # noqa: E402


class Dual:
    """a number and its derivatives by the inputs of interest"""

    def __init__(self, v, d):
        self.v, self.d = v, d

    @staticmethod
    def of(x, n):
        if isinstance(x, Dual):
            return x
        return Dual(x, [0] * n)

    def op(self, o, f, a, b):
        """value f(self, o); derivative a * self' + b * o'"""
        if not (isinstance(o, Dual) or number(o)):
            return NotImplemented
        o = Dual.of(o, len(self.d))
        return Dual(f(self.v, o.v), [a(self.v, o.v) * x + b(self.v, o.v) * y if not (is0(x) and is0(y)) else 0 for x, y in zip(self.d, o.d)])

    def __add__(self, o): return self.op(o, lambda x, y: x + y, lambda x, y: 1, lambda x, y: 1)
    def __sub__(self, o): return self.op(o, lambda x, y: x - y, lambda x, y: 1, lambda x, y: -1)
    def __mul__(self, o): return self.op(o, lambda x, y: x * y, lambda x, y: y, lambda x, y: x)
    def __truediv__(self, o): return self.op(o, lambda x, y: x / y, lambda x, y: 1 / y, lambda x, y: -x / (y * y))
    def __rsub__(self, o): return Dual.of(o, len(self.d)) - self if number(o) else NotImplemented
    def __rtruediv__(self, o): return Dual.of(o, len(self.d)) / self if number(o) else NotImplemented
    __radd__, __rmul__ = __add__, __mul__
    def __neg__(self): return 0 - self
    def fun(self, v, d): return Dual(v, [0 if is0(x) else d * x for x in self.d])

    def __pow__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        v = self.v ** o
        if isinstance(o, int) and o > 0:
            return self.fun(v, o * self.v ** (o - 1))
        return self.fun(v, o * v / self.v)

    def exp(self):
        v = self.v.exp()
        return self.fun(v, v)

    def log(self): return self.fun(self.v.log(), 1 / self.v)
    def sqrt(self):
        v = self.v.sqrt()
        return self.fun(v, 1 / (2 * v))


def is0(x):
    return isinstance(x, int) and x == 0


def program():
    # exponents are halved in the module: twice a constant is given, so that each power is one of the same root
    H = types.SimpleNamespace(**{k: Sym(v) for k, v in dict(ρ0="MP.ρ0", α="(2 * MP.α)", β="(2 * MP.β)", γ="(2 * MP.γ)", cv="MP.cv", T0="MP.T0", K0="MP.c02", b02="MP.b02").items()})
    out = []

    def sym(n, at):
        return [Sym("in[%d]" % (at + i)) for i in range(n)]

    def carry(x, at, n):
        return [Dual(y, [1 if j == at + i else 0 for j in range(n)]) for i, y in enumerate(x)]

    def energy():
        """energy and its derivatives by distortion, entropy and velocity; then what the module says of them"""
        a, S, v = sym(9, 0), sym(1, 9), sym(3, 10)
        A, s, w = carry(a, 0, 13), carry(S, 9, 13), carry(v, 10, 13)
        e = hyp.total_energy_hyp(np.array(A, dtype=object).reshape(3, 3), s[0], np.array(w, dtype=object), H)
        A, S, v = np.array(a, dtype=object).reshape(3, 3), S[0], np.array(v, dtype=object)
        ρ = Sym("in[13]")
        return [e.v, e.d, hyp.Sigma_hyp(ρ, A, S, H), hyp.pressure_hyp(ρ, A, S, H), hyp.temperature_hyp(S, A, H)]
    out.append(emit_function("py_hyper", energy))

    def entropy():
        A, S, v = np.array(sym(9, 0), dtype=object).reshape(3, 3), Sym("in[9]"), np.array(sym(3, 10), dtype=object)
        return [hyp.entropy_hyp(hyp.total_energy_hyp(A, S, v, H), A, v, H)]
    out.append(emit_function("py_entropy", entropy))

    def vector():
        F, S, v = np.array(sym(9, 0), dtype=object).reshape(3, 3), Sym("in[9]"), np.array(sym(3, 10), dtype=object)
        A = np.array(sym(9, 14), dtype=object).reshape(3, 3)
        Q = hyp.Cvec_hyp(F, S, v, H)
        return [Q, hyp.total_energy_hyp(A, S, v, H)]
    out.append(emit_function("py_vector", vector))
    return "".join(out)
