"""Thermodynamics, stresses, sources and state vectors."""
from trace import args, emit_function, Material, Sym, np
from gpr.misc import structures  # noqa: E402
import types

from gpr import multi  # noqa: E402
from gpr.sys import analytical  # noqa: E402
from gpr.vars import mg, shear, eos, state, derivatives, sources, wavespeeds


def program():
    out = []

    def table(name, kinds, f, variants):
        """one function for every variant of the material, and a switch"""
        for k, ints in variants.items():
            def go():
                return f(*args(*kinds), Material(**ints))
            out.append(emit_function("py_%s_%s" % (name, k), go))
        out.append("static void py_%s(int k, const double *in, Par &MP, double *out) {\n%s}\n" % (
            name, "".join("  if (k == %s) py_%s_%s(in, MP, out);\n" % (k, name, k) for k in variants)))

    E = {mg.EOS_CODES[k]: dict(EOS=mg.EOS_CODES[k], SOLID=False, POWER_LAW=False, BINGHAM=False) for k in mg.EOS_CODES}
    one = {0: E[0]}
    table("mg", "ss", lambda ρ, p, MP: [mg.Γ_MG(ρ, MP), mg.p_ref(ρ, MP), mg.e_ref(ρ, MP), mg.internal_energy(ρ, p, MP), mg.pressure(ρ, p, MP), mg.temperature(ρ, p, MP), mg.φ(ρ, MP)], E)
    table("dmg", "ss", lambda ρ, p, MP: [mg.dΓ_MG(ρ, MP), mg.dp_ref(ρ, MP), mg.de_ref(ρ, MP), mg.dedρ(ρ, p, MP), mg.dedp(ρ, MP), mg.dTdρ(ρ, p, MP), mg.dTdp(ρ, MP)], E)
    table("shear", "s", lambda ρ, MP: [shear.c_s2(ρ, MP), shear.dc_s2dρ(ρ, MP), shear.C_0(ρ, MP), shear.dC_0dρ(ρ, MP)], E)
    table("energy", "ss93s3", lambda ρ, p, A, J, λ, v, MP: [
        eos.total_energy(ρ, p, v, A, None, None, MP), eos.total_energy(ρ, p, v, A, J, None, MP), eos.total_energy(ρ, p, v, A, None, λ, MP), eos.total_energy(ρ, p, v, A, J, λ, MP)], one)
    table("cvec", "ss93s3", lambda ρ, p, A, J, λ, v, MP: [
        structures.Cvec(ρ, p, v, MP, A), structures.Cvec(ρ, p, v, MP, A, J), structures.Cvec(ρ, p, v, MP, A, None, λ), structures.Cvec(ρ, p, v, MP, A, J, λ)], one)
    table("pressure", "ss93s3", lambda ρ, E, A, J, λ, v, MP: [
        state.pressure(ρ, E, v, A, None, None, MP), state.pressure(ρ, E, v, A, J, None, MP), state.pressure(ρ, E, v, A, None, λ, MP), state.pressure(ρ, E, v, A, J, λ, MP)], one)
    table("stress", "ss9", lambda ρ, p, A, MP: [state.sigma(ρ, A, MP), state.dsigmadρ(ρ, A, MP), state.Sigma(p, ρ, A, MP)], one)
    table("dstress", "s9", lambda ρ, A, MP: [state.dsigmadA(ρ, A, MP)] + [state.dsigmadAdd(ρ, A, d, MP) for d in range(3)], one)
    table("deriv", "ss93", lambda ρ, p, A, J, MP: [
        derivatives.dEdρ(ρ, p, A, MP), derivatives.dEdp(ρ, MP), derivatives.dEdA(ρ, A, MP), derivatives.dEdA_s(ρ, A, MP), derivatives.dEdJ(J, MP)], one)
    table("heat", "s3s", lambda T, J, ρ, MP: [state.heat_flux(T, J, MP), sources.theta2inv(ρ, T, MP), wavespeeds.c_h(ρ, T, MP)], one)
    table("c0", "ss9", lambda ρ, p, A, MP: [wavespeeds.c_0(ρ, p, A, MP)], one)
    kinds = {k: dict(EOS=0, SOLID=k in (1, 2), POWER_LAW=k in (2, 4), BINGHAM=False) for k in (0, 1, 2, 4)}
    table("theta1", "s9", lambda ρ, A, MP: [sources.theta1inv(ρ, A, MP)], kinds)
    table("react", "sss", lambda ρ, λ, x, MP: [sources.K_dis(ρ, λ, x, MP), sources.K_arr(ρ, λ, x, MP)], one)
    table("ignite", "sss", lambda ρ, λ, p, MP: [sources.K_ing(ρ, λ, p, MP)], one)
    table("force", "s", lambda ρ, MP: [sources.f_δp(MP)], one)
    table("time", "sssss", lambda ρ, d, m, u, dt, MP: [analytical.nondimensionalized_time(ρ, d, m, u, dt, MP)], kinds)
    table("thermal", "ss933s", lambda ρ, E, A, J, v, dt, MP: [analytical.solver_thermal_analytic(ρ, E, A, J, v, dt, MP)], one)

    def fields(T, p, Q, MP, thermal, multi):
        if not thermal:
            MP.cα2 = None
        import gpr.misc.structures as st
        st.GPRpy.system = types.SimpleNamespace(variables=types.SimpleNamespace(pressure=lambda q, m: p, temperature=lambda q, m: T))
        S = structures.State(np.array(Q, dtype=object), MP)
        r = [S.ρ, S.E, S.v, S.A, S.p(), S.T(), S.σ(), [S.dσdρ()[d] for d in range(3)], S.Σ(), S.dEdρ(), S.dEdp(), S.dEdA(), S.ψ(), S.dTdρ(), S.dTdp(), S.f_body(), S.G()]
        r += [S.J, S.q(), S.H(), S.θ2_1()] if thermal else [None] * 10
        return r + ([S.λ] if multi else [None])

    for k in range(4):
        def go():
            n = [14, 17, 15, 18][k]
            return fields(Sym("in[0]"), Sym("in[1]"), [Sym("in[%d]" % (2 + i)) for i in range(n)], Material(**E[0]), k % 2, k > 1)
        out.append(emit_function("py_state_%d" % k, go))

    def rates(k):
        def go():
            n = 18
            MP = Material(**dict(E[0], REACTION=k))
            import gpr.misc.structures as st
            st.GPRpy.system = types.SimpleNamespace(variables=types.SimpleNamespace(pressure=lambda q, m: Sym("in[1]"), temperature=lambda q, m: Sym("in[0]")))
            return [structures.State(np.array([Sym("in[%d]" % (2 + i)) for i in range(n)], dtype=object), MP).K()]
        return go
    for k in range(3):
        out.append(emit_function("py_rate_%d" % k, rates(k)))

    def index(m):
        def go():
            multi.GPRpy.options = types.SimpleNamespace(NV=lambda: 14 + m - 1)
            return [multi.get_material_index(np.array([Sym("in[%d]" % i) for i in range(14 + m - 1)], dtype=object), m)]
        return go
    for m in (1, 2, 3):
        out.append(emit_function("py_index_%d" % m, index(m)))
    return "".join(out)
