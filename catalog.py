"""What is claimed, and which harness runs decide it.

PROPS[id] holds the text of the property (gen.py writes properties.jsonl and
MANIFEST.json from it) and the jobs vrun.py runs for it.
"""
import itertools


def grid(harness, entry, opts=None, **params):
    """One job per combination of the concrete parameters."""
    keys = sorted(params)
    out = []
    for vals in itertools.product(*[params[k] if isinstance(params[k], (list, tuple, range)) else [params[k]] for k in keys]):
        j = {"harness": harness, "entry": entry, "params": dict(zip(keys, vals))}
        j.update(opts or {})
        out.append(j)
    return out


PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, title, statement, quant, why, files, mechanism, jobs, bounds, outside, over=("inputs",), assumptions=()):
    assert len(title) <= 80, title
    PROPS[pid] = dict(id=pid, title=title, statement=statement, quant=quant, why=why, files=files, mechanism=mechanism, over=list(over),
                      jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions))


def undecided(pid, title, statement, quant, why, files, mechanism, reason, over=("inputs",)):
    """A property that is stated but not claimed."""
    prop(pid, title, statement, quant, why, files, mechanism, [], "", "", over)
    NOT_APPLICABLE[pid] = reason


EOS = range(5)
SRC = "code/cpp/src/"
PY = "code/python/gpr/"

# ------------------------------------------------------------------ equations of state
H = "eos.cpp"
prop("E01", "Every equation of state is an invertible relation between energy and pressure",
     "For each of the five equations of state, converting an internal energy to a pressure and back (or the other way round) at any admissible "
     "density returns the value started from; pressure and temperature rise with energy at positive rates (density times Grueneisen "
     "coefficient, and the inverse heat capacity), and the reference state has the reference temperature. An unknown equation of state is "
     "rejected whichever quantity is asked for.",
     "all densities, energies, pressures and material constants in the stated boxes, for each equation of state",
     "The tests run fixed problems with a handful of materials; they never invert an equation of state, and most constants are never varied.",
     [SRC + "system/energy/mg.cpp", SRC + "system/energy/eos.cpp"],
     [("pressure and temperature", "pressure_mg, temperature_mg, φ in system/energy/mg.cpp"), ("internal energy", "E_1 in system/energy/eos.cpp"),
      ("reference curves", "p_ref, e_ref, Γ_MG in system/energy/mg.cpp")],
     grid(H, "h_roundtrip", EOS=EOS) + grid(H, "h_refcurve", EOS=EOS) + grid(H, "h_rates", EOS=EOS) + grid(H, "h_refpoint", EOS=EOS) +
     grid(H, "h_unknown", EOS=0),
     "density in [0.3,4], energy in [-3,5], pressure in [-3,5], every material constant in a box (see symPar in harness/common.h); both branches "
     "of the shock curve below 95% of its limiting compression; codes -3..9 for the rejection",
     "other magnitudes; floating-point rounding and overflow; exponentials and powers are uninterpreted apart from exp/pow identities, derivatives, "
     "positivity and values at 0 and 1")
prop("E02", "Thermodynamic derivatives are the derivatives of the thermodynamic functions",
     "Each analytic derivative of the reference curves, Grueneisen coefficient, internal energy, temperature, shear speed and distortion energy is "
     "the exact derivative of the function it is named after, at every state and for every equation of state. The adiabatic sound speed "
     "squared is the isentropic derivative of pressure with respect to density, and the heat wave speed has its closed form.",
     "all states and material constants in the stated boxes, for each equation of state",
     "Nothing compares a derivative with the function; the problems only show wrong derivatives as slightly wrong wave speeds.",
     [SRC + "system/energy/mg.cpp", SRC + "system/energy/derivatives.cpp", SRC + "system/waves/shear.cpp", SRC + "system/waves/speeds.cpp"],
     [("curve derivatives", "dp_ref, de_ref, dΓ_MG, dedρ, dedp, dTdρ, dTdp in system/energy/mg.cpp"),
      ("energy derivatives", "dEdρ, dEdp, dEdA, dEdA_s in system/energy/derivatives.cpp"), ("sound speeds", "c_0, c_h in system/waves/speeds.cpp")],
     grid(H, "h_refderiv", EOS=EOS) + grid(H, "h_ederiv", EOS=EOS) + grid(H, "h_tderiv", EOS=EOS) + grid(H, "h_shear", EOS=EOS) +
     grid(H, "h_Ederiv", EOS=EOS) + grid(H, "h_c0", EOS=EOS) + grid(H, "h_c0_sg", EOS=0) + grid(H, "h_ch", EOS=0),
     "as E01; distortion components in [-2,2]; velocities in [-2,2]",
     "mixtures of two materials (their pressure comes from an iterative solve); rounding")

# ------------------------------------------------------------------ state variables
H = "state.cpp"
FULL = {"config": "THERMAL=true,MULTI=true"}
BOX = "density in [0.2,2], other components of the state in [-2,2], material constants as in E01"


def both(h, entry, full_opts=None, eos=EOS, **kw):
    """The build as it is for every equation of state, and the build with every equation switched on for two of them."""
    o = dict(FULL)
    o.update(full_opts or {})
    return grid(h, entry, full_opts, EOS=eos, **kw) + grid(h, entry, o, EOS=[0, 1], **kw)


prop("S01", "Primitive and conserved variables are two views of the same state",
     "Converting a conserved state to primitive variables and back returns it, as does the converse, with momentum, energy, distortion, "
     "thermal-impulse and second-component densities built as their definitions say and level sets untouched. The reordered primitive vector is a "
     "permutation of the primitive one and is undone by the inverse conversion. The material index counts the level sets that are not negative.",
     "all states and material constants in the stated boxes; with and without heat conduction and a second component",
     "Round trips are never tested, and a compensating pair of errors leaves every stored solution plausible.",
     [SRC + "system/functions/vectors.cpp"],
     [("conversions", "Cvec, Pvec and the reordered variants in system/functions/vectors.cpp"), ("material index", "get_material_index in system/functions/vectors.cpp")],
     sum([grid(H, e, EOS=EOS, REACT=0) + grid(H, e, FULL, EOS=[0, 1], REACT=1) for e in ("h_convert", "h_convert2", "h_reorder")], []) +
     grid(H, "h_lset", EOS=0, REACT=0),
     BOX, "rounding; mixtures with an iterative pressure solve")
prop("S02", "The energy of a state splits exactly, and pressure ignores uniform motion",
     "Total energy is the sum of microscale energy, distortion energy, thermal-impulse energy, kinetic energy and chemical energy, so the internal energy "
     "recovered from a conserved state is what the others leave. Pressure, temperature and internal energy depend only on that internal energy and the density: "
     "adding a uniform velocity to the whole state (a Galilean boost) does not change them.",
     "all states, boosts and material constants in the stated boxes",
     "Tests compare end results of simulations in one frame of reference only.",
     [SRC + "system/energy/eos.cpp", SRC + "system/variables/state.cpp"],
     [("energies", "E_1, E_2A, E_2J, E_3, internal_energy in system/energy/eos.cpp"), ("pressure, temperature", "system/variables/state.cpp")],
     sum([grid(H, e, EOS=EOS, REACT=0) + grid(H, e, FULL, EOS=[0, 1], REACT=1) for e in ("h_energy", "h_galilean")], []),
     BOX, "rounding; mixtures with an iterative pressure solve")
prop("S03", "The shear stress is symmetric, frame-invariant and zero in unstrained material",
     "The shear stress is symmetric, equals minus density times squared shear speed times G dev G with G the metric of the distortion, vanishes for any rotated and uniformly "
     "compressed material, does not change when the reference configuration is rotated and rotates with the material. Total stress is pressure minus shear stress, and the equivalent "
     "stress is the von Mises stress.",
     "all distortions in the stated boxes and rotations about the three axes",
     "Rotational invariance is a statement about all rotations, which problems aligned with the grid never exercise.",
     [SRC + "system/variables/state.cpp", SRC + "system/energy/derivatives.cpp", SRC + "system/functions/matrices.cpp"],
     [("stress", "sigma, Sigma in system/variables/state.cpp"), ("metric", "gram, dev, devGsq, AdevG, sigma_norm in system/functions/matrices.cpp")],
     grid(H, "h_stress", EOS=EOS, REACT=0) + grid(H, "h_signorm", EOS=0, REACT=0) + grid(H, "h_adevg", EOS=0, REACT=0) +
     sum([grid(H, e, EOS=0, REACT=0, AX=range(3)) for e in ("h_stress_zero", "h_frame_left", "h_frame_right")], []),
     BOX + "; rotations by any angle about one coordinate axis at a time (composition gives all)", "rounding")
prop("S04", "Stress derivatives are the derivatives of the stress",
     "The derivative of each stress column with respect to density, and with respect to every component of the distortion, equals the exact derivative of the stress.",
     "all states in the stated boxes, all directions, every equation of state",
     "These derivatives only shape wave speeds and Riemann solutions; no test compares them with the stress.",
     [SRC + "system/variables/state.cpp"], [("derivatives", "dsigmadρ, dsigmadA in system/variables/state.cpp")],
     grid(H, "h_dstress", EOS=EOS, REACT=0),
     BOX, "rounding")

# ------------------------------------------------------------------ the equations
H = "system.cpp"
prop("Y01", "Fluxes carry mass, momentum, energy and distortion as the physics requires",
     "The flux along each axis transports mass, momentum, energy, thermal impulse and second-component density with the velocity, adds the total stress to the momentum flux, the work of the "
     "total stress and the heat flux to the energy flux, and the distortion-velocity product to the distortion flux. It is accumulated into the result without disturbing what was there, and level sets have no flux.",
     "all states, axes and material constants in the stated boxes, every equation of state, with and without heat conduction and a second component",
     "The default build never exercises heat flux or a second component, and the third axis is not reachable from the 2D problems.",
     [SRC + "system/equations.cpp"], [("flux", "flux in system/equations.cpp")],
     both(H, "h_flux", D=range(3)), BOX, "rounding; mixtures with an iterative pressure solve")
prop("Y02", "The non-conservative product advects distortion and level sets",
     "Multiplying a gradient by the non-conservative matrix gives, for the distortion, velocity times the gradient minus the part already in the flux, advection for the level sets, and zero elsewhere; "
     "the product form and the matrix form agree along every axis.",
     "all states and gradients in the stated boxes and every axis",
     "Two copies of the same operator are used by different solvers; no test compares them.",
     [SRC + "system/equations.cpp"], [("matrix and products", "block, Bdot in system/equations.cpp")],
     both(H, "h_B", eos=[0], D=range(3)), BOX + "; gradients in [-3,3]", "rounding")
prop("Y03", "The system matrix is the Jacobian of the equations",
     "The system matrix equals the derivative of the flux plus the non-conservative matrix, and the Jacobian of the primitive variables is the derivative of the conversion, for every component pair.",
     "all states in the stated boxes, every axis and equation of state, with and without heat conduction and a second component",
     "Jacobians feed only the Roe/Osher solvers; an error changes dissipation, not any test result.",
     [SRC + "system/jacobians.cpp"], [("Jacobians", "system_matrix, dFdP, dPdQ in system/jacobians.cpp")],
     both(H, "h_jacobian", D=range(3)) + both(H, "h_dPdQ", D=0), BOX, "rounding; mixtures")
prop("Y04", "Physics does not depend on the choice of axes",
     "Permuting the coordinate axes or mirroring one permutes or mirrors fluxes, non-conservative products and sources in the same way, and leaves the pressure unchanged.",
     "all states and gradients in the stated boxes, all three axes, every equation of state",
     "Symmetry is a relation between pairs of runs; each test makes one run in one orientation.",
     [SRC + "system/equations.cpp", SRC + "system/variables/state.cpp"], [("flux, products and sources", "flux, Bdot, source in system/equations.cpp")],
     both(H, "h_axes", D=range(3)), BOX, "rounding")
prop("Y05", "Wave speeds are the characteristic speeds of the equations",
     "The acoustic tensor along an axis is the square of the coupling between velocity (and heat) and the remaining primitive variables in the quasi-linear system. In unstrained material the maximum wave speed is "
     "the material speed plus the longitudinal speed, the root of the squared sound speed plus four thirds of the squared shear speed.",
     "all states in the stated boxes, every axis and equation of state, with and without heat conduction",
     "An underestimated speed breaks stability only in the problems that happen to need it.",
     [SRC + "system/eig.cpp", SRC + "system/waves/speeds.cpp"], [("acoustic tensor", "Xi1, Xi2, thermo_acoustic_tensor, max_abs_eigs in system/eig.cpp")],
     grid(H, "h_acoustic", EOS=EOS, D=range(3)) + grid(H, "h_acoustic", {"config": "THERMAL=true"}, EOS=[0, 1, 3], D=range(3)) + grid(H, "h_speed", EOS=0, D=range(3)),
     BOX + "; the closed form for distortion a I with a in [0.3,2] and stiffened gas", "eigenvalues of a general (strained) acoustic tensor, which come from an iterative solver")
ST = {"stubs": {"sigma/2": "stub_sigma"}}
RT = {"stubs": {"temperature/2": "stub_temperature", "pressure/2": "stub_pressure"}, "config": "THERMAL=true,MULTI=true"}
prop("Y06", "Relaxation sources dissipate elastic energy and preserve volume",
     "The source adds no mass and no energy, applies the body force to the momentum, and relaxes the distortion along minus the energy gradient at the material's rate, so that the volume is preserved and elastic energy decreases. "
     "The rate has its closed form for viscous, power-law and Bingham fluids and elastic and elastoplastic solids: zero for elastic solids and below the Bingham yield stress.",
     "all states, stresses and material constants in the stated boxes, each kind of material",
     "Tests run few materials; relaxation at other stresses, or a wrong yield branch, is never seen.",
     [SRC + "system/equations.cpp", SRC + "system/variables/sources.cpp"], [("source", "source in system/equations.cpp"), ("rates", "theta1inv, theta2inv in system/variables/sources.cpp")],
     grid(H, "h_source", ST, EOS=0, KIND=range(5), D=0, YIELD=0) + grid(H, "h_theta", ST, EOS=0, KIND=range(5), D=0, YIELD=[0, 1]) +
     grid(H, "h_source", dict(ST, config="THERMAL=true,MULTI=true"), EOS=0, KIND=0, D=0, YIELD=0) +
     grid(H, "h_theta", dict(ST, config="THERMAL=true,MULTI=true"), EOS=0, KIND=0, D=0, YIELD=0),
     BOX + "; the stress entering the rate is an arbitrary symmetric tensor with entries in [-3,3]; det A > 1e-3", "rounding; equivalent stresses above 1e8, which are capped")
prop("Y07", "Reactions consume the reactant at the stated rate and never produce it",
     "Reactions change neither mass, momentum nor total energy. Discrete ignition burns at a constant rate above the ignition temperature and not at all below, the Arrhenius rate has its closed form, "
     "ignition-and-growth rates are never negative and have their closed form, and a negative reactant fraction counts as zero.",
     "all temperatures, pressures, fractions and rate constants in the stated boxes, each reaction law",
     "The tests run single-shot detonation problems and look at nothing but completion.",
     [SRC + "system/variables/sources.cpp", SRC + "system/equations.cpp"], [("rate", "reaction_rate in system/variables/sources.cpp")],
     grid(H, "h_react", RT, EOS=0, R=range(3), POS=0) + grid(H, "h_react", RT, EOS=0, R=2, POS=1),
     "temperature in [0.05,3], pressure in [-1,3], fraction in [-10,10] ([0,0.999] for ignition and growth), rate constants in [0.1,3]",
     "the ignition term of ignition-and-growth (its closed form takes a power of a possibly negative number)")

# ------------------------------------------------------------------ discretisation
H = "poly.cpp"
CFG3 = {"config": "N=3"}
prop("P01", "Quadrature and the nodal basis are exact for polynomials",
     "The quadrature rules integrate every polynomial of degree 2n-1 exactly, with positive weights at ordered nodes inside the interval. Polynomials evaluate, multiply, differentiate and integrate as polynomials; "
     "the nodal basis reproduces every polynomial of its degree, including its end values and derivatives, in one and two dimensions.",
     "all polynomial coefficients, arguments and (for Lagrange polynomials) distinct nodes in the stated boxes",
     "The tests check single arrays; a wrong weight or derivative only lowers the order of accuracy.",
     [SRC + "scipy/legendre.cpp", SRC + "scipy/poly.cpp", SRC + "solvers/poly/basis.cpp", SRC + "solvers/poly/evaluations.cpp"],
     [("quadrature", "leggauss, scaled_nodes, scaled_weights"), ("polynomials", "class poly, lagrange"), ("basis", "basis_polys, end_values, derivative_values, derivs2d, endpts2d")],
     grid(H, "h_gauss", DEG=range(1, 7)) + grid(H, "h_scaled") + grid(H, "h_scaled", CFG3) + grid(H, "h_polynomial", LEN=range(1, 6)) + grid(H, "h_lagrange", LEN=range(1, 5)) +
     grid(H, "h_basis") + grid(H, "h_basis", CFG3) + grid(H, "h_basis_helpers") + grid(H, "h_basis_helpers", CFG3) + grid(H, "h_eval2d", COL=[0, 15]) + grid(H, "h_eval2d", CFG3, COL=7),
     "quadrature with 1 to 6 nodes; polynomials of degree up to 4 (coefficients in [-2,2]); Lagrange polynomials on up to 4 nodes at least 0.05 apart; basis for N=2 (the build) and N=3; equality to 1e-9 where tables of floating-point nodes enter",
     "higher orders; rounding")
prop("W01", "WENO reconstruction keeps cell averages and reproduces smooth data exactly",
     "The reconstruction in every cell keeps that cell's average, reproduces polynomial data of its degree exactly, treats every variable independently, and is the smoothness-weighted mean of the one-sided reconstructions. In two dimensions, data varying along one axis "
     "give the one-dimensional reconstruction, and cells outside the cross-shaped ghost frame (its corners) never influence a real cell.",
     "all cell averages in the stated boxes",
     "Tests compare a few fields; weights depend on all neighbours through high powers, and wrong boundary stencils show only near boundaries.",
     [SRC + "solvers/weno/weno.cpp", SRC + "solvers/weno/weno_matrices.cpp"], [("reconstruction", "weno_launcher, coeffs"), ("stencil matrices and smoothness", "coefficient_matrices, oscillation_indicator")],
     grid(H, "h_weno_matrices") + grid(H, "h_weno_matrices", CFG3) + grid(H, "h_weno_exact", COL=[0, 9]) + grid(H, "h_weno_closed", COL=[0, 4, 15]) + grid(H, "h_weno2_exact", COL=3, NX=2, NY=2) +
     grid(H, "h_weno2_exact", COL=0, NX=2, NY=3) + grid(H, "h_weno2_axis", COL=5, AX=[0, 1]) + grid(H, "h_weno2_corners", NX=3, NY=4),
     "N=2 (the build); stencil matrices also for N=3; grids of up to 3 x 4 cells; averages and their differences in [-2,2]",
     "other orders of the full reconstruction; two-dimensional data that vary along both axes other than bilinear; grids one cell wide (no stencil there: see DESIGN.md); rounding")
H = "fv.cpp"
RUSS = {"stubs": {"max_abs_eigs": "stub_speed"}}
MATS = {"stubs": {"system_matrix": "stub_matrix"}}
FVS = {"stubs": {"D_RUS": "stub_rus", "D_ROE": "stub_roe", "D_OSH": "stub_osh", "Bint": "stub_bint", "Bdot": "stub_bdot", "source": "stub_source"}}
FVC = {"stubs": dict(FVS["stubs"], Bint="stub_bint0", Bdot="stub_bdot0")}
prop("F01", "Numerical fluxes are consistent and dissipate along the path between states",
     "Every numerical flux of two equal states is twice the physical flux. Rusanov adds the larger maximal wave speed times the jump; Roe and Osher add the absolute value of the path-averaged system matrix, respectively the path average of absolute values, "
     "times the jump, the matrix being evaluated on the straight path between the states. The jump term of the non-conservative products is the integral along that path and reverses with it.",
     "all pairs of states, axes and equations of state in the stated boxes",
     "Tests compare whole solutions obtained with one flux; wrong dissipation still runs.",
     [SRC + "solvers/fv/fluxes.cpp"], [("fluxes", "D_RUS, D_ROE, D_OSH, Bint in solvers/fv/fluxes.cpp")],
     grid(H, "h_rusanov", RUSS, EOS=EOS, D=range(3)) + grid(H, "h_bint", RUSS, EOS=0, D=range(3)) + grid(H, "h_roe", MATS, EOS=0, D=[0, 1], KIND=[0, 1]) + grid(H, "h_osher", MATS, EOS=0, D=[0, 2], KIND=[0, 1]),
     BOX + "; Rusanov for any positive wave speeds; Roe and Osher for two families of system matrices (diagonal with mixed signs, and coupled pairs), all varying along the path",
     "Roe and Osher for the other system matrices (the eigensolver is iterative); rounding")
prop("F02", "The finite-volume update conserves and is the quadrature of the equations",
     "One step changes each cell average by the space-time quadrature of face fluxes and face jumps (with opposite signs in the two neighbours of a face), interior products and sources, in one and two dimensions, with or without sources and time nodes and for each numerical flux. "
     "So totals change only through the ends, a uniform state stays as it is, and masked cells neither change nor exchange anything.",
     "all reconstructions, states, steps and spacings in the stated boxes, all fluxes and sources (as arbitrary functions)",
     "Conservation and mask handling are statements about every face and every flux function; tests see a few smooth problems.",
     [SRC + "solvers/fv/fv.cpp"], [("update", "fv_launcher, centers1, interfs1, centers2, interfs2 in solvers/fv/fv.cpp")],
     grid(H, "h_update1", FVS, NX=3, TIME=[0, 1], SRC=[0, 1], FLUX=[0, 1, 2], MASK=31) + grid(H, "h_update1", FVS, NX=3, TIME=1, SRC=1, FLUX=0, MASK=[29, 23, 14, 21]) +
     grid(H, "h_update2", FVS, NX=2, NY=3, TIME=[0, 1], SRC=[0, 1], FLUX=0, MASK=-1) + grid(H, "h_update2", FVS, NX=3, NY=2, TIME=0, SRC=1, FLUX=[1, 2], MASK=-1) +
     grid(H, "h_update2", FVS, NX=2, NY=3, TIME=0, SRC=1, FLUX=0, MASK=[1, 6, 8]) + grid(H, "h_conserve", FVC, NX=[1, 4], FLUX=[0, 1, 2]) +
     grid(H, "h_uniform", RUSS, EOS=[0, 2], DIM=[1, 2], TIME=[0, 1]),
     "1 to 4 cells in 1D, 2 x 3 cells in 2D; node values in [0.5,2], cell averages in [-2,2]; the numerical flux, jump term, product and source are arbitrary functions of their arguments; the masks listed in the jobs",
     "larger grids (the loops do not look at the size); rounding")
H = "dg.cpp"
DGS = {"stubs": {"flux": "stub_flux", "Bdot": "stub_bdot", "source": "stub_source"}}
DGL = {"stubs": {"flux": "lin_flux", "Bdot": "lin_bdot", "source": "lin_source", "nonlin_solve": "stub_solve"}}
prop("D01", "The space-time predictor solves the weak form of the equations in each cell",
     "The predictor's residual is the weak space-time form of the equations with the reconstruction as initial data, in one and two dimensions, for arbitrary fluxes, products and sources. Its matrices integrate by parts exactly, so linear advection with a constant source is predicted exactly, "
     "and every live cell ends up with a solution of those equations whether or not the fixed-point iteration converges; masked cells are left alone.",
     "all states, reconstructions, steps and spacings in the stated boxes; all fluxes, products and sources (as arbitrary functions)",
     "The tests only exercise problems in which the iteration converges quickly; the residual itself is never compared with the equations.",
     [SRC + "solvers/dg/dg1.cpp", SRC + "solvers/dg/dg2.cpp", SRC + "solvers/dg/dg_matrices.cpp", SRC + "solvers/dg/initial_guess.cpp"],
     [("residual", "rhs1, obj1, rhs2, obj2"), ("iteration", "predictor1, predictor2"), ("matrices", "DG_DER, DG_END, DG_MAT, kron")],
     grid(H, "h_matrices") + grid(H, "h_matrices", CFG3) + grid(H, "h_kron") + grid(H, "h_rhs1", DGS) + grid(H, "h_rhs2", DGS, OBJ=[0, 1]) +
     grid(H, "h_predict", DGL, DIM=[1, 2], STIFF=1, IG=[0, 1], MASK=[5, 7]) + grid(H, "h_predict", DGL, DIM=[1, 2], STIFF=0, IG=[0, 1], MASK=[3, 6]) +
     grid(H, "h_diverge", DGL, DIM=[1, 2], RATE=[1, 20]) + grid(H, "h_guess", DIM=1, STIFF=[0, 1]) + grid(H, "h_guess", DIM=2, STIFF=[0, 1]),
     "states in [-2,2]; steps in [0.1,1], spacings in [0.1,2]; three cells; the residual for N=2 (the build), the matrices also for N=3; whole predictor runs for linear advection with constant source (all speeds, data and sources for the Newton-Krylov path, "
     "one varying coefficient for the fixed-point path, to 2e-4) and linear decay (rates 1 and 20 per step)",
     "convergence of the iteration for the full nonlinear equations; the Newton-Krylov solver itself is replaced by one that returns a solution of the equations it is given (see L01); rounding", over=("inputs",))
prop("D02", "The half step of the split solver advances the homogeneous equations",
     "The half step moves every live cell's nodal values by half a time step of minus the flux derivatives and non-conservative products along each axis, without sources, each axis scaled by its own spacing; masked cells are left alone.",
     "all reconstructions, steps and spacings in the stated boxes; all fluxes and products (as arbitrary functions)",
     "A wrong factor here costs only one order of accuracy in time, which no test measures.",
     [SRC + "solvers/split/homogeneous.cpp"], [("half step", "midstepper in solvers/split/homogeneous.cpp")],
     grid(H, "h_midstep", DGS, DIM=[1, 2], MASK=[1, 2, 3]) + grid(H, "h_midstep", dict(DGS, **CFG3), DIM=1, MASK=3),
     "nodal values in [-2,2], steps in [0.1,1], spacings in [0.1,2]; two cells; N=2 (the build), in 1D also N=3", "rounding")

# ------------------------------------------------------------------ grid and time loop
H = "grid.cpp"
BCS = [(a, b) for a in range(6) for b in range(6)]
THR = {"stubs": {"D_RUS": "stub_num", "Bint": "stub_bint", "Bdot": "stub_bdot", "source": "stub_source", "predictor": "stub_predictor", "flux": "stub_flux",
                 "ode_stepper_analytic": "stub_ode", "ode_stepper_numerical": "stub_ode0"}}
prop("B01", "Ghost cells follow the boundary conditions",
     "Extending the solution copies the interior unchanged and fills every ghost cell, corners included, as the condition of its side says: copies of the nearest cell, the cells of the other side, or mirror images with the normal (slip) or whole (stick) momentum reversed, with the momentum of a wall moving at "
     "unit speed (internal energy unchanged), or with distortion and momentum reflected (symmetric).",
     "all solutions in the stated boxes and all combinations of conditions",
     "Each test uses one combination on one axis.",
     [SRC + "etc/grid.cpp"], [("boundary conditions", "boundaries1, boundaries2, boundaries in etc/grid.cpp")],
     sum([grid(H, "h_bc1", NX=3, LO=a, HI=b) for a, b in BCS], []) + grid(H, "h_bc1", NX=2, LO=1, HI=3) +
     grid(H, "h_bc2", NX=3, NY=2, BC=[0, 1111, 3333, 2222, 4444, 5555, 4321, 1234, 5043, 2501, 1100, 11]) + grid(H, "h_bc2", NX=2, NY=3, BC=[4321, 5432, 1025]) + grid(H, "h_bc1", {"config": "N=3"}, NX=4, LO=2, HI=5),
     "2 to 4 cells per axis (the loops do not look at the size); N=2 (the build), one combination for N=3; states in [-2,2], density in [0.2,2]; in 2D the listed combinations",
     "grids narrower than the ghost frame; the option that removes stress in wall ghosts (off in the build); rounding")
prop("B02", "Exactly the wanted cells and their neighbours are computed",
     "A cell takes part in a step if it or one of its face neighbours is wanted, and the ghost cell beside a wanted border cell always takes part, never without its neighbour; in two dimensions the corners never do. The extended grid has the right number of cells.",
     "all masks on the stated grids, all grid sizes and widths in the stated ranges",
     "Masks arise from moving interfaces; tests meet a handful of shapes and compare only final states.",
     [SRC + "etc/grid.cpp"], [("masks", "extend_mask, extended_dimensions in etc/grid.cpp")],
     grid(H, "h_extdim", DIM=[1, 2]) + grid(H, "h_mask1", NX=[1, 2, 4, 6]) + grid(H, "h_mask2", NX=3, NY=[1, 2, 3]) + grid(H, "h_mask2", NX=[1, 2], NY=4),
     "all masks on 1D grids of up to 6 cells and 2D grids of up to 3 x 3 cells; sizes up to 1000, widths up to 5", "larger grids (the rule is local)")
prop("I01", "The result does not depend on how the grid is divided among threads",
     "Both steppers give the same result for any number of threads, including more threads than rows, and for any order in which the threads run, in one and two dimensions and with masked cells: every row is updated exactly once, from the same neighbours.",
     "all solutions in the stated boxes, thread counts and orders listed",
     "Tests run with one team size on one machine; the seams between threads move with it.",
     [SRC + "solvers/steppers.cpp", SRC + "solvers/weno/weno.cpp"], [("division of the grid", "ader_stepper_para, split_stepper_para in solvers/steppers.cpp")],
     grid(H, "h_threads1", THR, NX=5, T=[2, 3, 5, 7], SPLIT=[0, 1], MASK=[127, 93]) + grid(H, "h_threads2", THR, NX=4, NY=3, T=[2, 3, 4, 6], SPLIT=[0, 1], MASK=[-1, 13]),
     "grids of 5 and 4 x 3 cells, teams of 2 to 7; one variable varies from cell to cell; the predictor, numerical flux, products, sources and ODE step are arbitrary functions of their arguments; threads run one after another in both orders",
     "true simultaneity (the threads write disjoint rows and share only data they read, so an order-independent result is also schedule-independent); reductions inside Eigen", over=("inputs", "schedules"))

H = "loop.cpp"
SPD = {"stubs": {"max_abs_eigs": "stub_speed"}}
RUN = {"stubs": {"fill_ghost_cells": "stub_fill", "timestep": "stub_timestep", "split_stepper_para": "stub_split", "ader_stepper_para": "stub_ader", "renorm_distortion": "stub_renorm",
                 "reset_distortion": "stub_reset", "contorted": "stub_contorted"}}
prop("U01", "The time step is the largest that keeps every live cell stable",
     "The time step is the Courant number over the largest sum, across directions, of wave speed over spacing among live cells of every material that is not vacuum, a fifth of that for the first steps, cut so that the run ends exactly at the final time. "
     "Masked cells and vacuum have no influence.",
     "all cell states, masks, spacings, Courant numbers and times in the stated boxes; any positive wave speeds",
     "Tests would notice instability only where the limiting cell is the one they happen to have.",
     [SRC + "solvers/iterator.cpp"], [("time step", "timestep in solvers/iterator.cpp")],
     grid(H, "h_timestep", SPD, NMAT=2, DIM=[1, 2], COUNT=[0, 5, 6, 100], VAC=-1, CELLS=2) + grid(H, "h_timestep", SPD, NMAT=3, DIM=2, COUNT=6, VAC=[0, 1, 2], CELLS=1) +
     grid(H, "h_timestep", SPD, NMAT=1, DIM=1, COUNT=9, VAC=-1, CELLS=4),
     "up to 3 materials, 4 cells, both dimensions; spacings in [0.1,2], Courant number in [0.1,1]; wave speeds are an arbitrary function of state, direction and material", "more cells; rounding")
prop("U02", "Assembling the materials yields the state of the material present in each cell",
     "After a step each cell's level sets are the mean over the materials that were computed there (or the old ones if none was), and its state is that of the material those level sets point at, zero in vacuum. Concentrations are clamped between zero and one and nothing else is.",
     "all material grids, masks and level sets in the stated boxes",
     "Whether a cell changes material depends on signs of averages over whichever materials were live; tests visit few combinations.",
     [SRC + "solvers/iterator.cpp"], [("assembly", "make_u, limit_concentration in solvers/iterator.cpp")],
     grid(H, "h_make_u", NMAT=[1, 2], VAC=-1) + grid(H, "h_make_u", NMAT=2, VAC=[0, 1]) + grid(H, "h_make_u", NMAT=3, VAC=[-1, 1]) + grid(H, "h_limit") + grid(H, "h_limit", {"config": "MULTI=true"}),
     "1 to 3 materials, two cells, values in [-3,3]", "rounding")
prop("U03", "Cleaning up the distortion keeps density, momentum, pressure and metric",
     "Renormalising scales the distortion so that its volume matches the density and changes nothing else. Rotating it keeps its metric; resetting it leaves a uniform compression with mass, momentum and pressure unchanged. A grid counts as contorted exactly if some cell's mean squared stretch exceeds one by the tolerance; vacuum is left alone.",
     "all states and densities in the stated boxes; diagonal distortions (and cyclic permutations of them) for rotation and contortion",
     "The clean-up runs rarely in the tests, and their fields would absorb a changed energy or metric.",
     [SRC + "solvers/utils.cpp"], [("clean-up", "renorm_distortion, rotate_distortion, reset_distortion, contorted in solvers/utils.cpp")],
     grid(H, "h_renorm") + grid(H, "h_reset") + grid(H, "h_rotate", PERM=[0, 1]) + grid(H, "h_contorted", PERM=0, AT=0) + grid(H, "h_contorted", PERM=1, AT=1),
     "three cells of three materials, one of them vacuum; state in [-2,2], det A > 0.01 for renormalising; principal stretches in [0.3,2]",
     "the singular value decomposition of other matrices; rounding")
prop("U04", "A run advances to the final time and returns the snapshots it promises",
     "A run steps every material that is not vacuum with the chosen solver, its own boundary-extended grid and mask until exactly the final time; the last of a hundred snapshots is the final state and the others are the states when each hundredth was first reached. "
     "It stops when a value is not a number and returns the last good and the bad state, whenever that happens.",
     "all step sizes (a quarter to three quarters of the run) and, for regular steps, runs of 64 to 256 steps failing at the stated steps or not at all",
     "Failure in the last hundredth of a run, and steps that skip snapshots, do not occur in the tests.",
     [SRC + "solvers/iterator.cpp"], [("time loop", "iterator in solvers/iterator.cpp")],
     grid(H, "h_run", RUN, NMAT=2, SUB=0, NAN=0, SPLIT=[0, 1]) + grid(H, "h_run", RUN, NMAT=3, SUB=64, NAN=0, SPLIT=0) + grid(H, "h_run", RUN, NMAT=2, SUB=[128, 256], NAN=0, SPLIT=1) +
     grid(H, "h_run", RUN, NMAT=2, SUB=128, NAN=[1, 3, 127, 128], SPLIT=[0, 1]),
     "three cells, two or three materials; solvers, ghost filling and time step are replaced by stand-ins that record what they are given", "long runs; two-dimensional grids in the loop; rounding", over=("inputs", "fault_sequences"))

H = "relax.cpp"
TAU = {"stubs": {"nondimensionalized_time": "stub_tau", "exp": "stub_exp"}, "feas": 2, "timeout": 10, "cost": 30}
BODY = {"stubs": {"analyticSolver_distortion": "stub_distortion", "analyticSolver_thermal": "stub_thermal"}}
RATE = {"stubs": {"reaction_rate": "stub_rate"}, "config": "MULTI=true"}
CELLS = {"stubs": {"ode_stepper_analytic": "stub_an", "ode_stepper_numerical": "stub_nu"}}
INV = [dict(WEAK=0, PERM=p, ZERO=z, NEG=n, Y=y, X=0, HI=h, LO=l) for p, z, n, y, h, l in
       [(0, 1, 0, 16, 0, 2), (0, 1, 1, 20, 1, 2), (1, 1, 0, 13, 0, 1), (0, 0, 0, 16, 0, 2), (1, 0, 1, 20, 1, 2), (2, 0, 0, 13, 0, 1)]]
INV += [dict(PERM=0, ZERO=0, NEG=0, WEAK=w, Y=w + 1, X=w + 2, HI=0, LO=2) for w in (64, 512)]
prop("R01", "Relaxation keeps volume and directions and decays strain at the equations' rate",
     "Relaxing the distortion keeps its volume, its principal directions and their order, and changes nothing else; the mean and spread of the squared stretches follow the solution of their linearised equations, and no time or no strain means no change. "
     "The pace is that of the governing equations for elastic solids, Newtonian fluids and power-law materials.",
     "all stretch histories, material constants, states and steps in the stated boxes",
     "Tests relax a few fixed states and compare with recorded numbers or loose tolerances; none has an oblate distortion.",
     [SRC + "system/relaxation/analytic.cpp"], [("distortion relaxation", "analyticSolver_distortion, nondimensionalized_time in system/relaxation/analytic.cpp")],
     grid(H, "h_body", BODY) + grid(H, "h_body", dict(BODY, config="THERMAL=true,MULTI=true")) + grid(H, "h_isotropic", WEAK=0) + sum([grid(H, "h_invariants", TAU, **k) for k in INV], []) +
     grid(H, "h_rate", KIND=[0, 1, 2, 3, 4], Y=20, X=0, WEAK=0),
     "diagonal distortions with one stretch arbitrary, one fixed to 0.81, 1 or 1.25 and the volume fixed, in all orders; mean in [1,2] and spread in [0.01,4] reached arbitrary, discriminant above 1e-4 (distinct stretches); strain away from the branch points; constants as in symParFull",
     "the singular value decomposition of other matrices; stretches within 1e-4 of coinciding after the step; rounding")
prop("R02", "Heat flux, reactions and stiff sources are integrated to order in each cell",
     "In the split solver the thermal impulse follows the exact solution of its equation and reactants burn by fourth-order Runge-Kutta with halved steps when a value is not a number, never below zero; nothing else changes. "
     "Every cell is relaxed exactly once, first distortion and heat, then reactions, and the implicit integrator returns the end value of its collocation polynomial.",
     "all states, rates, steps and material constants in the stated boxes",
     "Tests of heat conduction and detonation have wide tolerances; the retry after a failed step is never exercised.",
     [SRC + "system/relaxation/analytic.cpp", SRC + "system/relaxation/numerical.cpp", SRC + "solvers/split/ode.cpp", SRC + "solvers/split/rk.cpp", SRC + "solvers/split/numeric.cpp"],
     [("heat flux", "analyticSolver_thermal in system/relaxation/analytic.cpp"), ("reactions", "ode_stepper_numerical in system/relaxation/numerical.cpp"), ("integrators", "runge_kutta_launcher, stiff_ode_solve in solvers/split")],
     grid(H, "h_thermal", {"config": "THERMAL=true"}) + grid(H, "h_reaction", RATE, REACT=1, FAIL=[0, 3, 20]) + grid(H, "h_reaction", RATE, REACT=-1, FAIL=0) + grid(H, "h_rk", STEPS=[1, 3]) +
     grid(H, "h_cells", CELLS, CELLS=[1, 3]) + grid(H, "h_stiff", {"stubs": {"nonlin_solve": "stub_solve"}}),
     "up to 3 cells and 8 halvings; undistorted cells without background pressure for the heat flux; arbitrary rates", "the nonlinear solver inside the implicit integrator (see the solver property); rounding")

H = "multi.cpp"


def signs(s):
    """Base 3 digits, cell 0 first, of the signs of a level set."""
    return sum("0+-".index(c) * 3 ** i for i, c in enumerate(s))


IND = {"stubs": {"distance": "stub_distance"}}
prop("K01", "Reinitialised level sets measure the distance to the same interface",
     "Replacing a level set by its signed distance keeps every cell on its side of the interface and the interface where it is: beside it the distance is the linearly interpolated one, and away from it the distance grows at unit rate, in one and two dimensions. "
     "A level set without an interface keeps its sign everywhere, and only the level sets of a solution change.",
     "all level set values and spacings in the stated boxes for the listed sign patterns",
     "Tests reinitialise a few shapes and never inspect the distances; cells without an interface in reach are rare.",
     [SRC + "multi/pfmm.cpp", "code/cpp/include/skfmm/distance_marcher.cpp", "code/cpp/include/skfmm/base_marcher.cpp", "code/cpp/include/skfmm/heap.cpp"],
     [("distances", "distance, renormalize_levelsets in multi/pfmm.cpp"), ("marching", "distanceMarcher, baseMarcher, heap in include/skfmm")],
     sum([grid(H, "h_dist1", NX=len(p), SIGNS=signs(p)) for p in ("+-", "-+", "++-", "+--", "-0+", "+-+", "--++", "+-++", "-+-+", "0+++", "++0--")], []) +
     grid(H, "h_dist_none", DIM=1, SIGN=[0, 1]) + grid(H, "h_dist_none", DIM=2, SIGN=[0, 1]) + grid(H, "h_heap", N=3, SET=[0, 1, 2]) + grid(H, "h_heap", N=4, SET=-1) + grid(H, "h_heap", N=5, SET=2) + grid(H, "h_renorm") +
     grid(H, "h_dist2", NX=2, NY=3, SIGNS=486, VARY=0) + grid(H, "h_dist2", NX=3, NY=3, SIGNS=[9842, 9872], VARY=16) + grid(H, "h_dist2", NX=3, NY=3, SIGNS=[9922, 6168], VARY=3) + grid(H, "h_dist2", NX=3, NY=3, SIGNS=6168, VARY=16),
     "1D grids of 2 to 5 cells with the listed sign patterns, all values in [0.1,2] and spacings in [0.1,2]; 3 x 3 cells with up to two values varying in [0.2,2]; heaps of up to 5 entries with one change",
     "other sign patterns and larger grids; rounding; level sets below the smallest distance the marching resolves (2e-16)")
prop("M02", "Every cell belongs to one material and interfaces separate them",
     "A cell belongs to the material numbered by the level sets it exceeds, and a material's indicator is negative exactly in its cells. Cells with a neighbour on the other side form the interface, cells of a material alone among others are told apart, and the normals are unit vectors up the central-difference slope, "
     "copied at the edges.",
     "all level sets and masks on the stated grids",
     "Tests have one interface across the grid; lone cells and edges of two-dimensional grids never occur.",
     [SRC + "multi/functions.cpp", SRC + "multi/fill.cpp", SRC + "system/functions/vectors.cpp"],
     [("indicators and normals", "material_indicator, finite_difference, normal in multi/functions.cpp"), ("interface cells", "find_interface_cells in multi/fill.cpp")],
     grid(H, "h_indicator", IND, NMAT=[2, 3]) + grid(H, "h_interface", DIM=1, NX=[2, 3, 5]) + grid(H, "h_interface", DIM=2, NX=2, NY=[2, 3]) + grid(H, "h_interface", DIM=2, NX=3, NY=2) + grid(H, "h_interface", DIM=2, NX=3, NY=3) +
     grid(H, "h_gradient", DIM=1, NX=[3, 4]) + grid(H, "h_gradient", DIM=2, NX=3, NY=4) + grid(H, "h_normal", DIM=[1, 2]),
     "two and three materials; 1D grids of up to 5 cells, 2D grids of up to 3 x 3 cells with every arrangement of inside and outside; slopes of size at least 0.1",
     "slopes that vanish exactly (no direction there); larger grids (the rules look at neighbours only); rounding")
GHO = {"stubs": {"distance": "stub_distance", "left_star_state": "stub_star"}}
GHC = {"stubs": {"distance": "stub_distance", "left_star_state": "stub_mark"}}
prop("M03", "Each material is continued across its interfaces by the star state",
     "For each material the solution is copied, its own cells unchanged, and the first cells beyond its interface hold the solution of the Riemann problem between its state beside the interface and the other material's state one cell beyond, along the interface normal, which then continues outwards. "
     "Exactly the material's cells (other than lone ones) and those first ghost cells are computed, none in vacuum; level sets are kept and nothing outside the grid is touched.",
     "all states and interface positions in the stated arrangements, any star state",
     "Tests have one or two interfaces far from each other and from the boundary; results barely change if a probe is off by a cell.",
     [SRC + "multi/fill.cpp"], [("ghost cells", "fill_ghost_cells, fill_boundary_cells, fill_neighbor_cells in multi/fill.cpp")],
     grid(H, "h_ghost_plane", GHO, DIM=1, AX=0, AT=[0, 1, 3], REV=[0, 1], NX=5, VAC=-1) + grid(H, "h_ghost_plane", GHO, DIM=1, AX=0, AT=1, REV=0, NX=4, VAC=[0, 1]) +
     grid(H, "h_ghost_plane", GHO, DIM=2, AX=0, AT=1, REV=0, NX=4, NY=3, VAC=-1) + grid(H, "h_ghost_plane", GHO, DIM=2, AX=1, AT=1, REV=[0, 1], NX=3, NY=4, VAC=-1) +
     grid(H, "h_ghost_layer", GHO, NX=8, AT=1, W=[2, 3, 4], B=[5, 12]) + grid(H, "h_ghost_three", GHO, NX=8, AT=1, W=[2, 3, 4], B=[5, 12]) +
     sum([grid(H, "h_ghost_curved", GHC, KIND=k, NX=x, NY=y, CX=cx, CY=cy, R=r) for k, x, y, cx, cy, r in
          [(0, 5, 5, 18, 22, 0), (0, 6, 6, 2, 3, 3), (1, 6, 6, 25, 23, 12), (2, 6, 6, 25, 23, 12), (1, 6, 6, 44, 23, 12), (2, 6, 6, 8, 2, 22), (1, 6, 6, 25, 23, 5), (1, 6, 6, 25, 26, 7), (1, 6, 6, 25, 26, 9),
           (2, 6, 6, 25, 26, 9), (2, 7, 4, 25, 5, 17), (1, 4, 7, 30, 33, 9)]], []),
     "one or two interfaces in 1D, at any position within their cells (away from cell faces and centres), layers of 2 to 4 cells, up to three materials; plane interfaces along either axis in 2D for all states; planes at 45 degrees and discs with radius varying by 12% of a cell in 2D, "
     "also across the boundary, there only which states are used; two state components vary from cell to cell; level sets are given as exact distances, the star state is an arbitrary function",
     "layers one cell thick (their ghost belongs to both interfaces); interfaces of high curvature, where several ghost cells share an interface point; rounding")

H = "star.cpp"
STP = {"stubs": {"riemann_constraints": "stub_constraints", "Sigma": "stub_Sigma", "temperature": "stub_temperature", "Cvec_to_Pvec": "stub_toP", "Pvec_to_Cvec": "stub_toC"}}
LOO = {"stubs": {"star_stepper": "stub_stepper", "Sigma": "stub_traction", "ode_stepper_analytic": "stub_relax"}}
prop("M04", "Star states balance traction and velocity across material interfaces",
     "The interface problem is solved in the frame of its normal and rotated back, exactly, so the frame does not matter. Each step moves both states along their waves until the linearised tractions and velocities (and, with heat conduction, temperatures and heat fluxes) agree - or only their normal parts at a slip interface, or vanish at vacuum - "
     "and stops only when they do agree, when a number is lost, or after ten steps; sound waves have their acoustic impedances.",
     "all pairs of states and characteristic matrices in the stated boxes",
     "Tests solve a few symmetric one-dimensional interface problems; oblique interfaces, slip, vacuum and heat conduction together never occur.",
     [SRC + "system/multi/riemann.cpp", SRC + "system/multi/rotations.cpp", SRC + "system/multi/conditions.cpp", SRC + "system/multi/eigenvecs.cpp"],
     [("star states", "left_star_state, star_states_iterative, star_stepper in system/multi/riemann.cpp"), ("frames", "rotation_matrix, rotate_tensors in system/multi/rotations.cpp"),
      ("conditions", "stick_bcs, slip_bcs, free_bcs in system/multi/conditions.cpp"), ("impedances", "riemann_constraints in system/multi/eigenvecs.cpp")],
     grid(H, "h_rotation", DIM=[1, 2, 3], FLIP=[0, 1]) + grid(H, "h_rotate", WEAK=0) + grid(H, "h_rotate", {"config": "THERMAL=true"}, WEAK=0) + grid(H, "h_step", STP, VAC=[0, 1], STICK=0) + grid(H, "h_step", dict(STP, config="THERMAL=true"), VAC=[0, 1], STICK=0) +
     grid(H, "h_step", dict(STP, config="RIEMANN_STICK=true"), VAC=[0, 1], STICK=1) +
     sum([grid(H, "h_loop", LOO, K=k, VAC=v, DIM=d, NAN=n, VEL=e) for k, v, d, n, e in [(0, 0, 1, 0, 0), (0, 1, 1, 0, 0), (3, 0, 1, 0, 0), (3, 1, 2, 0, 0), (3, 0, 2, 1, 0), (3, 0, 1, 0, 1), (10, 1, 1, 0, 0), (12, 0, 2, 0, 0)]], []) +
     grid(H, "h_impedance", VARY=64, LEFT=[0, 1]),
     "any characteristic matrices with invertible interface blocks, any traction and state for one step; loops of up to 12 steps; acoustic impedances for unstrained states of one material with any velocity",
     "the characteristic matrices of strained states (general eigenvectors); convergence of the iteration; shear at a slip interface, which the stopping rule ignores; rounding")

H = "krylov.cpp"
LGM = {"stubs": {"lgmres": "stub_lgmres"}}
WRA = {"stubs": {"lgmres": "stub_wrapped"}}
prop("L01", "Newton-Krylov solves: steps, line search and stopping follow their rules",
     "The linear solver solves systems exactly from any start once the Krylov space is full, keeps the latest corrections, and leaves solved systems alone. The nonlinear solver takes products with the Jacobian as directional differences over the square root of rounding, "
     "takes the first trial step with enough decrease or the full one when all fail, and stops exactly when residual and step meet their tolerances or the iterations run out.",
     "all residual histories, tolerances, iterates and right hand sides in the stated families",
     "The test solves two fixed problems to a loose tolerance; stopping, backtracking and corrections of earlier solves are never checked.",
     [SRC + "scipy/newton_krylov.cpp", SRC + "scipy/lgmres.cpp"],
     [("nonlinear solver", "nonlin_solve, _nonlin_line_search, scalar_search_armijo, TerminationCondition, KrylovJacobian in scipy/newton_krylov.cpp"), ("linear solver", "lgmres, lgmres_wrapper in scipy/lgmres.cpp")],
     grid(H, "h_newton", LGM, N=6, TOLS=[1, 2, 4, 8, 10]) + grid(H, "h_newton", LGM, N=2, TOLS=[0, 4]) +
     grid(H, "h_search", K=[0, 1, 2, 3, 5, 8], AFTER=1, ALL=0) + grid(H, "h_search", K=-1, AFTER=0, ALL=0) + grid(H, "h_matvec", DIM=1, ZERO=0, UPDATE=[0, 1]) + grid(H, "h_matvec", DIM=2, ZERO=[0, 1], UPDATE=0) +
     grid(H, "h_lgmres", DIM=[1, 2, 3], DIR=[1, 2], OUTER=0, KEEP=10, PRE=[0, 1]) + grid(H, "h_lgmres", DIM=3, DIR=[2, -1], OUTER=[1, 3], KEEP=[0, 2], PRE=0) + grid(H, "h_lgmres", DIM=4, DIR=3, OUTER=[0, 2], KEEP=3, PRE=1) +
     grid(H, "h_wrapper", WRA, PRE=[0, 1], START=[0, 1]),
     "scalar residual histories of up to six iterations, arbitrary for two of them or with arbitrary tolerances; one arbitrary residual among up to eight rejected trials; affine functions of one and two positive unknowns; linear systems of up to four unknowns with fixed matrices, any start and residuals of any size along fixed directions",
     "convergence of the iteration for nonlinear problems; systems larger than the Krylov space; the forcing terms beyond being below one; rounding")

H = "mix.cpp"
MIX = {"config": "MULTI=true", "stubs": {"nonlin_solve": "stub_root"}}
MIXD = {"config": "MULTI=true", "stubs": {"solve_multi": "stub_phases"}}
prop("E03", "Phases of a mixture share pressure, temperature, volume and energy",
     "A mixture's pressure and phase densities solve: one temperature, volumes that add up, and energies that add up to the internal energy; the search starts from the average pressure and the mixture's density, and a pure phase has its own pressure (never below zero) and density. "
     "The derivatives of the mixture's energy by density and pressure follow from these conditions.",
     "all states, concentrations, phase densities and material constants in the stated boxes",
     "No test has a mixture.",
     [SRC + "system/energy/multi.cpp", SRC + "system/energy/derivatives.cpp", SRC + "system/variables/state.cpp"],
     [("closure", "solve_multi, obj in system/energy/multi.cpp"), ("derivatives", "dEdρ, dEdp in system/energy/derivatives.cpp")],
     sum([grid(H, "h_mix", MIX, EOS=a, EOS2=b, PURE=p, REACT=r) for a, b, p, r in [(0, 0, 0, 0), (0, 3, 0, 1), (2, 0, 0, 0), (3, 2, 0, 0), (1, 0, 1, 0), (2, 0, 1, 1), (0, 4, 2, 0), (2, 4, 2, 1)]], []) +
     sum([grid(H, "h_mixderiv", MIXD, EOS=a, EOS2=b, PURE=p, REACT=0) for a, b, p in [(0, 0, 0), (1, 3, 0), (2, 4, 0), (3, 2, 0), (0, 1, 0), (1, 2, 1), (2, 0, 2)]], []),
     "concentrations in [0.05,0.95] and the pure phases; every equation of state in some pair; pressures in [0.1,3], densities in [0.2,4]; shock compression below 95% of its limit; derivatives where they are determined (determinant above 0.01)",
     "that the search finds the solution (any result of it is taken as one); the temperature and wave speeds of mixtures, which the code leaves to the first phase; rounding")

H = "step.cpp"
STEP = {"stubs": {"ode_launcher": "stub_odes", "weno_part": "stub_weno", "midstepper": "stub_mid", "predictor": "stub_pred", "fv_launcher": "stub_fv"}}
prop("T01", "A time step composes its stages in order, over the right times",
     "The split solver relaxes cells and ghosts for half the step, reconstructs what was relaxed, takes the half step if asked, updates by fluxes over the whole step without sources, and relaxes for the other half. The other solver reconstructs, predicts with the predictor asked for, and updates with sources over the prediction's times. "
     "Every stage has the step's material, spacings, mask and flux.",
     "all states, steps and spacings, whatever the stages compute",
     "A wrong order or a wrong share of the step lowers the accuracy only, within what tests tolerate.",
     [SRC + "solvers/steppers.cpp"], [("steps", "split_part, ader_part, split_stepper, ader_stepper and their parallel versions in solvers/steppers.cpp")],
     grid(H, "h_compose", STEP, DIM=[1, 2], ADER=[0, 1], PARA=[0, 1], HALF=[0, 1], FLUX=1) + grid(H, "h_compose", STEP, DIM=1, ADER=[0, 1], PARA=1, HALF=0, FLUX=[0, 2]),
     "grids of 3 and 3 x 2 cells; the stages are arbitrary functions of the first and last entry of what they are given; one thread (the division among threads is the property on threads)", "what the stages do (the other properties)")

# ---- the Python side, traced (pytrace)
PY = "code/python/gpr/"
H = "vars.cpp"
VARS = {"generate": "vars"}
TPY = dict(VARS, stubs={"temperature/2": "stub_temperature", "pressure/2": "stub_pressure"}, config="MULTI=true")
CFGS = [{}, {"config": "THERMAL=true"}, {"config": "MULTI=true"}, {"config": "THERMAL=true,MULTI=true"}]
prop("X01", "Python's formulas compute what the compiled solver computes",
     "For the same quantities the Python package used to set up and inspect simulations gives the compiled solver's values: equations of state and their derivatives, energies, pressure, stresses, heat flux, wave speeds, relaxation and reaction rates, body forces, relaxation solutions, materials of cells and fields of states. "
     "A vector of conserved variables it builds is read back by the compiled solver as the quantities that went in.",
     "all states and material constants in the stated boxes",
     "No test runs the Python formulas; initial conditions that disagree with the solver look like physics.",
     [PY + f for f in ("vars/mg.py", "vars/shear.py", "vars/eos.py", "vars/state.py", "vars/derivatives.py", "vars/sources.py", "vars/wavespeeds.py", "misc/structures.py", "misc/functions.py", "sys/analytical.py", "multi/__init__.py")],
     [("formulas", "code/python/gpr/vars"), ("states", "State and Cvec in code/python/gpr/misc/structures.py"), ("relaxation", "solver_thermal_analytic, nondimensionalized_time in code/python/gpr/sys/analytical.py")],
     grid(H, "h_mg", VARS, EOS=[0, 1, 2, 3, 4]) + grid(H, "h_dmg", VARS, EOS=[0, 1, 2, 3, 4]) + grid(H, "h_pyshear", VARS, EOS=[0, 1, 2, 3, 4]) +
     sum([grid(H, e, dict(VARS, **c), EOS=0) for e in ("h_energy", "h_cvec", "h_pypressure", "h_fields") for c in CFGS], []) +
     sum([grid(H, e, VARS, EOS=0) for e in ("h_stress", "h_dstress", "h_deriv", "h_c0", "h_force")], []) + grid(H, "h_deriv", dict(VARS, config="THERMAL=true"), EOS=0) +
     grid(H, "h_heat", dict(VARS, config="THERMAL=true"), EOS=0) + grid(H, "h_pythermal", dict(VARS, config="THERMAL=true"), EOS=0) +
     grid(H, "h_theta1", VARS, EOS=0, KIND=[0, 1, 2, 4]) + grid(H, "h_pace", VARS, EOS=0, KIND=[0, 1, 2, 4], STILL=0) + grid(H, "h_pace", VARS, EOS=0, KIND=[2, 4], STILL=1) +
     grid(H, "h_react", TPY, EOS=0) + grid(H, "h_ignite", TPY, EOS=0) + grid(H, "h_rates", TPY, EOS=0, KIND=[0, 1, 2]) +
     grid(H, "h_index", VARS) + grid(H, "h_index", dict(VARS, config="LSET=2")) + grid(H, "h_index", dict(VARS, config="LSET=0")),
     "densities in [0.3,4], pressures in [0.1,5], distortions and velocities in [-2,2]; one phase, or a mixture's concentration with the first phase's equation of state; each build of the compiled solver",
     "Bingham fluids (the Python rates have no rule for them); mixtures' pressure; the distortion solver, which needs a singular value decomposition; the modules of gpr/sys and gpr/multi that do not import; rounding")
H = "params.cpp"
PAR = {"generate": "params"}
prop("X02", "Material constructor stores the constants it is given",
     "Whatever combination of an equation of state, strength model, heat conduction, reaction and second phase is asked for, the material the compiled solver receives has each constant given, squared or derived where the structure wants that, zero where it is the default, and the right kind flags and codes.",
     "all values of the constants, for each combination listed",
     "Tests fix a few materials with equal phases; a constant stored in the wrong place or for the wrong phase shows only in a mixture.",
     [PY + "misc/objects.py"], [("constructor", "material_params, params, hyperelastic_params in code/python/gpr/misc/objects.py")],
     grid(H, "h_params", PAR, CASE=list(range(16))) + grid(H, "h_elastic", PAR),
     "16 combinations covering every equation of state, strength model and reaction, and five pairs of phases; positive constants", "other combinations; constants of zero, which the constructor takes as absent")
H = "hyp.cpp"
HYP = {"generate": "hyp"}
prop("X03", "Hyperelastic initial states are consistent with their energy",
     "The hyperelastic reference's stress, temperature and entropy are those of its energy: the stress is minus density times the distortion transposed times the energy's derivative, of which the pressure and shear are the parts, temperature is the derivative by entropy, and entropy inverts the energy. "
     "A state built from a deformation has its density, inverse deformation, momentum and energy.",
     "all distortions, entropies, velocities and constants in the stated boxes",
     "No test runs these formulas; they fix the initial states of the solids' problems.",
     [PY + "vars/hyp.py"], [("energy", "total_energy_hyp and what is derived from it in code/python/gpr/vars/hyp.py")],
     grid(H, "h_hyper", HYP, PART=[0, 1, 2]) + grid(H, "h_entropy", HYP) + grid(H, "h_vector", HYP),
     "distortions within 0.4 of the identity with determinant above 0.1; entropies in [-0.5,1]; positive constants", "rounding")
