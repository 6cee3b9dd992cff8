"""Material parameters: what the constructor stores of the constants it is given."""
import types
import trace as t
from trace import Sym, np, Material, emit_function


class Par:
    def __init__(self):
        self.__dict__["MP2"] = types.SimpleNamespace()


t.sys.modules["GPRpy"].classes = types.SimpleNamespace(Par=Par, Params=types.SimpleNamespace)
from gpr.misc import objects  # noqa: E402

INTS = ["EOS", "SOLID", "POWER_LAW", "BINGHAM", "MULTI", "REACTION"]
CODE = {"sg": 0, "smg": 1, "jwl": 2, "cc": 3, "gr": 4}  # as the compiled code numbers them (checked by the harness)
BASE = {"ρ0": "ρ0"}
THERM = {"cv": "cv", "Tref": "Tref"}
EOSF = {"sg": {"γ": "γ", "pINF": "pINF"}, "smg": {"Γ0": "Γ0", "c02": "c0 * c0", "s": "s"}, "gr": {"c02": "c0 * c0", "α": "α", "β": "β", "γ": "γ"},
        "jwl": {"Γ0": "Γ0", "A": "A", "B": "B", "R1": "R1", "R2": "R2"}}
EOSF["cc"] = EOSF["jwl"]
SHEAR = {"b02": "b0 * b0", "β": "β", "μ": "μ"}
REACT = {"d": {"Qc": "Qc", "Kc": "Kc", "Ti": "Ti"}, "a": {"Qc": "Qc", "Bc": "Bc", "Ea": "Ea", "Rc": "Rc"},
         "i": {k: k for k in "Qc I G1 G2 a b c d e g x y z φI φG1 φG2".split()}}


def names(spec):
    r = []
    for e in spec.values():
        for w in str(e).replace("*", " ").replace("/", " ").split():
            if w not in r and not w[0].isdigit():
                r.append(w)
    return r


def second(spec):
    return {k: " ".join(w if w in "*/" else w + "_2" for w in e.split()) for k, e in spec.items()}


def case(eos, fields, ints=None, react=None, eos2=None, two=None, force=False, drop=(), const=None):
    ints = dict({"EOS": CODE[eos], "REACTION": -1 if react is None else "dai".index(react)}, **(ints or {}))
    spec = dict(BASE, **EOSF[eos])
    spec.update(fields)
    spec2 = {}
    if eos2:
        ints["MULTI"] = 1
        spec2 = dict(second(EOSF[eos2]))
        spec2.update(second(two or {}))
    if react:
        spec.update(REACT[react])
    inputs = [n for n in names(spec) + names(spec2) if n not in drop]
    expect = {k: v for k, v in spec.items()}
    expect.update(const or {})
    if eos2:
        spec2["ρ0"] = "ρ0"
    return dict(eos=eos, inputs=inputs, expect=expect, ints=ints, react=react, eos2=eos2, two=spec2, force=force)


CASES = [
    case("sg", {}),
    case("sg", dict(THERM, **SHEAR, cα2="cα * cα", κ="κ", n="1"), {"SOLID": 0, "POWER_LAW": 0, "BINGHAM": 0}, force=True),
    case("sg", dict(THERM, **SHEAR, cα2="cα * cα", κ="μ * γ * cv / Pr"), {"SOLID": 0}, drop=("pINF", "Tref", "β"), const={"pINF": "0", "Tref": "0", "β": "0"}),
    case("smg", dict(THERM, **SHEAR, τ0="τ0", σY="σY", n="n"), {"SOLID": 1, "POWER_LAW": 1, "BINGHAM": 0}, drop=("μ",), const={"μ": None}),
    case("smg", dict(b02="b0 * b0", β="β", n="1"), {"SOLID": 1, "POWER_LAW": 0, "BINGHAM": 0}),
    case("sg", dict(SHEAR, n="n"), {"SOLID": 0, "POWER_LAW": 1, "BINGHAM": 0}),
    case("sg", dict(SHEAR, σY="σY", n="1"), {"SOLID": 0, "POWER_LAW": 0, "BINGHAM": 1}),
    case("gr", dict(THERM, b02="b0 * b0", τ0="τ0", σY="σY", n="n"), {"SOLID": 1, "POWER_LAW": 1}),
    case("jwl", THERM, react="i"),
    case("cc", THERM, react="a"),
    case("sg", dict(THERM, **SHEAR), react="d"),
    case("sg", THERM, eos2="sg", two=THERM),
    case("sg", THERM, eos2="jwl", two=THERM),
    case("jwl", THERM, eos2="cc", two=THERM),
    case("smg", dict(THERM, b02="b0 * b0", μ="μ", β="β", cα2="cα * cα", κ="κ"), eos2="smg", two=dict(THERM, b02="b0 * b0", μ="μ", β="β", cα2="cα * cα", κ="κ", n="n")),
    case("gr", dict(THERM, b02="b0 * b0"), eos2="gr", two=dict(THERM, b02="b0 * b0", μ="μ")),
]
NREAL = len(Material.REAL)


def program():
    out = []
    for k, c in enumerate(CASES):
        def go(c=c):
            kw = {n: Sym("in[%d]" % i) for i, n in enumerate(c["inputs"])}
            ρ0 = kw.pop("ρ0")
            if c["force"]:
                kw["δp"] = np.array([Sym("in[%d]" % (60 + i)) for i in range(3)], dtype=object)
            if c["eos2"]:
                kw.update(MULTI=True, EOS_2=c["eos2"])
            if c["react"]:
                kw["REACTION"] = c["react"]
            MP = objects.material_params(c["eos"], ρ0, **kw)
            get = lambda o, n: getattr(o, n, None)
            return [get(MP, n) for n in Material.REAL] + [get(MP, n) for n in INTS] + [get(MP.MP2, n) for n in Material.REAL] + [get(MP.MP2, "EOS")] + list(MP.δp)
        out.append(emit_function("py_params_%d" % k, go))
    def elastic():
        v = [Sym("in[%d]" % i) for i in range(8)]
        H = objects.hyperelastic_params(*v)
        return [H.ρ0, H.α, H.β, H.γ, H.cv, H.T0, H.b02, H.K0]
    out.append(emit_function("py_elastic", elastic))
    out.append("static Par MP;\nstatic double in[64], out[200];\n")
    out.append("static void params(int k) {\n" + "".join("  if (k == %d) py_params_%d(in, MP, out);\n" % (k, k) for k in range(len(CASES))) + "}\n")
    # what must have been stored
    out.append("static void expected(int k) {\n")
    for k, c in enumerate(CASES):
        out.append("  if (k == %d) {\n" % k)
        for i, n in enumerate(c["inputs"]):
            out.append("    const double %s = in[%d];\n" % (n, i))
        for base, spec in ((0, c["expect"]), (NREAL + len(INTS), c["two"])):
            for n, e in spec.items():
                if e is not None:
                    out.append('    eq(out[%d], %s, "%s of the %s");\n' % (base + Material.REAL.index(n), e, n, "second phase" if base else "material"))
        for n, v in c["ints"].items():
            out.append('    __sx_check(out[%d] == %d, "kind of the material: %s");\n' % (NREAL + INTS.index(n), v, n))
        if c["eos2"]:
            out.append('    __sx_check(out[%d] == %d, "equation of state of the second phase");\n' % (2 * NREAL + len(INTS), CODE[c["eos2"]]))
        for i in range(3):
            out.append('    eq(out[%d], %s, "pressure gradient");\n' % (2 * NREAL + len(INTS) + 1 + i, "in[%d]" % (60 + i) if c["force"] else "0"))
        out.append("  }\n")
    out.append("}\n")
    return "".join(out)
