"""Nonlinear problems: temperature-dependent heat transfer, finite-strain elasticity (statics and dynamics)."""
import copy, os
import numpy as np
import fem, results
import physcase as P
import transient as T
from common import ecf


# ------------------------------------------------------------------------------------------------ heat

def heat(rng, d):
    c = (P.heat2d if rng.random() < .35 else P.heat3d)(rng, d)
    k = 0
    for m in c.mats:
        if rng.random() < .75 or k == 0:
            k += 1
            s, a = rng.choice([("(%s) * (1.5 + sin(%g * TEMPERATURE))", 3e-3), ("(%s) * (1 + %g * TEMPERATURE ^ 2)", 4e-6), ("(%s) * exp(%g * TEMPERATURE)", 8e-4)])
            a *= rng.uniform(.3, 1)
            q = [x for x in sorted(m["K"])]
            for x in q:  # all entries together keep the tensor positive definite
                v = m["K"][x]
                m["K"][x] = P.Expr(s % (v.s if isinstance(v, P.Expr) else repr(v), float("%.3g" % a)))
    ph = c.ecf["HEAT_TRANSFER"]
    ph["MATERIALS"] = {str(i + 1): P.mat_ecf(v) for i, v in enumerate(c.mats)}
    c.T0 = P.num(rng, 100, 300)
    ph["INITIAL_TEMPERATURE"] = {"ALL_ELEMENTS": c.T0}
    ls = ph["LOAD_STEPS_SETTINGS"]["1"]
    ls["MODE"] = "NONLINEAR"
    ls["FETI"] = dict(ls["FETI"], PRECISION="1E-10")
    c.solver = "FETI"
    if c.np == 1 and rng.random() < .3: c.solver = ls["SOLVER"] = "MKLPDSS"
    ls["NONLINEAR_SOLVER"] = {"CHECK_TEMPERATURE": True, "REQUESTED_TEMPERATURE_RESIDUAL": "1e-8", "MAX_ITERATIONS": 100}
    open(os.path.join(d, "espreso.ecf"), "w").write(ecf(c.ecf))
    c.desc = "nonlinear %s %s" % (c.solver, c.desc)
    return c


def heat_judge(c, d, tol=2e-5):
    E = results.Ensight(results.run_dir(d))
    if c.dim == 2: P.bind_generator(c, E)
    m = c.mesh
    mp = results.Mapped(E, m.X, m.et, m.en)
    bl = fem.blocks(m.X, m.et, m.en, fem.HEAT_GP, c.dim)
    src = []
    for r, q in c.sources:
        mask = np.zeros(m.ne, bool)
        mask[m.eregs[r] if r != "ALL_ELEMENTS" else slice(None)] = True
        src.append((mask, q))
    bnd = []
    for r, q in c.flux + c.flow:
        l = m.fregs[r]
        bb = fem.blocks(m.X, [x[0] for x in l], [x[1] for x in l], fem.HEAT_GP, c.dim)
        if (r, q) in c.flow:
            area = sum(b.w.sum() for b in bb)
            q = (lambda env, q0=q, area=area: (q0(env) if callable(q0) else q0) / area)
        bnd.append((bb, q))
    env0 = {"X": m.X[:, 0], "Y": m.X[:, 1], "Z": m.X[:, 2], "TIME": 1.}
    fixed = {}
    for fx in (c.fixed if c.dim == 3 else c.fixed_spec):
        ns = m.nregs[fx[0]] if fx[0] in m.nregs else P.fnodes(m.fregs[fx[0]])
        vv = fem.ev(fx[-1], env0, (len(m.X),))
        for q in ns: fixed[q] = vv[q]
    T = np.full(len(m.X), c.T0)
    for it in range(300):
        K, f = fem.heat_system(m.X, bl, c.matof, c.mats, c.dim, T, 1., src, bnd)
        u = fem.solve_dirichlet(K, f, fixed)
        e = np.abs(u - T).max() / max(1., np.abs(u).max())
        T = u
        if not np.isfinite(e) or e < 1e-12: break
    if not e < 1e-10: return None, 0
    fem.heat_system(m.X, bl, c.matof, c.mats, c.dim, T, 1., src, bnd)
    G, F = fem.heat_outputs(bl, T, m.ne, c.dim)
    bad = []
    t, b = mp.node("TEMPERATURE")
    if b: bad.append(("TEMPERATURE-stored", str(b)[:300]))
    g, f = mp.elem("GRADIENT")[0], mp.elem("FLUX")[0]
    P.cmp_field("TEMPERATURE", t, T[:, None], tol, bad, max(np.abs(T).max(), 1.))
    L = float(np.ptp(m.X, axis=0).max())
    tr = max(np.abs(T).max(), 1.)
    kap = np.abs(F).max() / max(np.abs(G).max(), 1e-30) if np.abs(G).max() > 1e-9 * tr / L else 10.
    P.cmp_field("GRADIENT", g[:, :c.dim], G, tol, bad, max(np.abs(G).max(), tr / L * 1e-2))
    P.cmp_field("FLUX", f[:, :c.dim], F, 2 * tol, bad, max(np.abs(F).max(), kap * tr / L * 1e-2))
    return bad, t.size + g.size + f.size


# ------------------------------------------------------------------------------------------------ finite strain elasticity

def internal(X, bl, matof, mats, dim, behaviour, time, u):
    """Tangent and internal forces of a hyperelastic body at displacement u (flat)."""
    U = u.reshape(-1, dim)
    R = np.zeros(len(u))
    parts = []
    I = np.eye(dim)
    for b in bl:
        env = fem.genv(b, None, time)
        E, nu = (fem.by_material(matof, mats, k, b, env) for k in ("E", "nu"))
        nh = np.array([mats[matof[e]].get("law", "KIRCHHOFF") == "NEO_HOOKEAN_CMP" for e in b.e])
        lam = E * nu / ((1 + nu) * (1 - 2 * nu)) if behaviour != "PLANE_STRESS" else E * nu / (1 - nu * nu)
        mu = E / (2 * (1 + nu))
        F = np.einsum("eni,egnj->egij", U[b.nodes], b.dN) + I
        C = np.einsum("egki,egkj->egij", F, F)
        G = (C - I) / 2
        S = lam[..., None, None] * np.trace(G, axis1=2, axis2=3)[..., None, None] * I + 2 * mu[..., None, None] * G
        dl = np.einsum("eg,ij,kl->egijkl", lam, I, I) + np.einsum("eg,ik,jl->egijkl", mu, I, I) + np.einsum("eg,il,jk->egijkl", mu, I, I)
        if nh.any():
            Ci = np.linalg.inv(C[nh])
            J = np.linalg.det(F[nh])
            lnJ = np.log(np.abs(J))
            S[nh] = mu[nh][..., None, None] * (I - Ci) + (lam[nh] * lnJ)[..., None, None] * Ci
            k = mu[nh] - lam[nh] * lnJ
            dl[nh] = np.einsum("eg,egij,egkl->egijkl", lam[nh], Ci, Ci) + np.einsum("eg,egik,egjl->egijkl", k, Ci, Ci) + np.einsum("eg,egil,egjk->egijkl", k, Ci, Ci)
        dof = fem.dofs(b.nodes, dim)
        PK = np.einsum("egik,egkj->egij", F, S)
        fem.addv(R, dof, np.einsum("eg,egij,egnj->eni", b.w, PK, b.dN).reshape(len(b.e), -1))
        A = np.einsum("egiI,egIJKL,egkK->egiJkL", F, dl, F, optimize=True) + np.einsum("ik,egJL->egiJkL", I, S)
        n = b.nodes.shape[1]
        parts.append((dof, np.einsum("eg,egnJ,egiJkL,egmL->enimk", b.w, b.dN, A, b.dN, optimize=True).reshape(len(b.e), n * dim, n * dim)))
    return fem.assemble(parts, len(u)), R


def scale_expr(v, s):
    return P.Expr("%g * (%s)" % (s, v.s)) if isinstance(v, P.Expr) else float("%.6g" % (v * s))


def struct(rng, d):
    c = P.struct(rng, d, rng.choice(["ext", "ext", "gen3", "gen2"]))
    if c.behaviour == "AXISYMMETRIC":
        c.behaviour = "PLANE_STRAIN"
        c.ecf["STRUCTURAL_MECHANICS"]["ELEMENT_BEHAVIOUR"] = c.behaviour
        c.ecf["STRUCTURAL_MECHANICS"].pop("THICKNESS", None)
        c.omega = [(r, [None, None, o[1]]) for r, o in c.omega]
    dim = c.dim
    for m in c.mats:
        m["E"] = scale_expr(m["E"], rng.choice([.01, .02, .05]))
        if dim == 3 and rng.random() < LAWS: m["law"] = "NEO_HOOKEAN_CMP"
    c.fixed_spec = [(r, [scale_expr(x, 50) if x is not None else None for x in v]) for r, v in c.fixed_spec]
    c.type = "TRANSIENT" if rng.random() < .6 or c.np > 1 else "STEADY_STATE"
    ph = c.ecf["STRUCTURAL_MECHANICS"]
    ph["MATERIALS"] = {str(i + 1): P.smat_ecf(v) for i, v in enumerate(c.mats)}
    ls = ph["LOAD_STEPS_SETTINGS"]["1"]
    if c.omega: ls["ANGULAR_VELOCITY"] = {r: P.vdict(v) for r, v in c.omega}
    ls.update({"MODE": "NONLINEAR", "TYPE": c.type, "DISPLACEMENT": {r: P.vdict(v) for r, v in c.fixed_spec}, "FETI": dict(ls["FETI"], PRECISION="1E-10"),
               "NONLINEAR_SOLVER": {"CHECK_DISPLACEMENT": True, "REQUESTED_DISPLACEMENT_RESIDUAL": "1e-8", "MAX_ITERATIONS": 40}})
    c.V0 = None
    c.substeps = 1
    if c.type == "STEADY_STATE":
        c.solver = ls["SOLVER"] = "MKLPDSS"
        c.substeps = rng.choice([1, 1, 2, 3])
        c.ecf["OUTPUT"]["RESULTS_STORE_FREQUENCY"] = "EVERY_SUBSTEP"
        if c.substeps > 1: ls["NONLINEAR_SOLVER"].update(STEPPING="TRUE", SUBSTEPS=c.substeps)
        c.times = [float("%.9g" % ((k + 1.) / c.substeps)) for k in range(c.substeps)]
        if c.substeps > 1:
            tv = lambda v: P.Expr("TIME * (%s)" % (v.s if isinstance(v, P.Expr) else repr(v)))
            c.acc = [(r, [tv(x) if x is not None else None for x in v]) for r, v in c.acc]
            if c.acc: ls["ACCELERATION"] = {r: P.vdict(v) for r, v in c.acc}
    else:
        c.solver = ls["SOLVER"] = "MKLPDSS" if c.np == 1 and rng.random() < .2 else "FETI"
        c.dt = rng.choice([.001, .01, .05, .1])
        n = rng.randint(1, 4)
        ls["DURATION_TIME"] = c.duration = float("%.6g" % (c.dt * (n + rng.choice([0, 0, .4]))))
        c.times = [(k + 1) * c.dt for k in range(n)]
        c.delta = rng.choice([.5, .5, .6, P.num(rng, .5, .8)])
        c.alpha = float("%.4g" % ((.5 + c.delta) ** 2 / 4 * rng.choice([1, 1, 1.2, 2])))
        c.nd = rng.choice([0, 0, .05, .1])
        c.aM = rng.choice([0, 0, .1, -.1]); c.aF = rng.choice([0, 0, .1, .2])
        c.cK, c.cM = rng.choice([(0, 0), (0, 0), (.002, 0), (0, .05), (.001, .02)])
        if rng.random() < .6:
            c.V0 = [P.val(rng, -.2, .2, ("X", "Y", "Z")[:dim], .4) if k < dim else None for k in range(3)]
            ph["INITIAL_VELOCITY"] = {"ALL_ELEMENTS": P.vdict(c.V0)}
        ls["TRANSIENT_SOLVER"] = {"METHOD": "NEWMARK", "TIME_STEP": c.dt, "ALPHA": c.alpha, "DELTA": c.delta, "NUMERICAL_DAMPING": c.nd, "ALPHAM": c.aM, "ALPHAF": c.aF}
        c.acc = [(r, T.tvec(rng, v, .4)) for r, v in c.acc]
        c.press = [(r, T.tv(rng, p), v) for r, p, v in c.press]
        c.npress = [(r, T.tv(rng, p)) for r, p in c.npress]
        c.force = [(r, T.tvec(rng, v, .4)) for r, v in c.force]
        c.fixed_spec = [(r, T.tvec(rng, v, .2)) for r, v in c.fixed_spec]
        ls["DISPLACEMENT"] = {r: P.vdict(v) for r, v in c.fixed_spec}
        if c.acc: ls["ACCELERATION"] = {r: P.vdict(v) for r, v in c.acc}
        if c.press: ls["PRESSURE"] = {r: {"PRESSURE": str(p), "DIRECTION": P.vdict(v[:dim])} for r, p, v in c.press}
        if c.npress: ls["NORMAL_PRESSURE"] = {r: str(p) for r, p in c.npress}
        if c.force: ls["FORCE"] = {r: P.vdict(v) for r, v in c.force}
        if c.cK or c.cM:
            ls["TRANSIENT_SOLVER"]["DAMPING"] = {"RAYLEIGH": {"TYPE": "DIRECT", "DIRECT_DAMPING": {"STIFFNESS": c.cK, "MASS": c.cM}}}
    open(os.path.join(d, "espreso.ecf"), "w").write(ecf(c.ecf))
    c.desc = "nonlinear %s %s x%d laws=%s %s" % (c.type, c.solver, len(c.times), "+".join(sorted({m.get("law", "K")[0] for m in c.mats})), c.desc)
    return c


LAWS = .4


def struct_steps(c):
    """Yields (time, displacement, scale); None when the oracle's Newton does not converge."""
    m, dim = c.mesh, c.dim
    N = len(m.X) * dim
    bl = fem.blocks(m.X, m.et, m.en, fem.STRUCT_GP, dim)
    def mask(r):
        k = np.zeros(m.ne, bool)
        k[m.eregs[r] if r != "ALL_ELEMENTS" else slice(None)] = True
        return k
    def bb(r):
        l = m.fregs[r]
        o = fem.blocks(m.X, [x[0] for x in l], [x[1] for x in l], fem.STRUCT_GP, dim)
        for b in o: b.orient = np.full(len(b.e), 1. if dim == 3 else -1.)
        return o
    bnd = [(bb(r), "p", p, v) for r, p, v in c.press] + [(bb(r), "n", p, None) for r, p in c.npress]
    acc, om, nod = [(mask(r), v) for r, v in c.acc], [(mask(r), v) for r, v in c.omega], [(c.nodes_of(r), v) for r, v in c.force]
    ext = lambda t: fem.struct_system(m.X, bl, c.matof, c.mats, dim, c.behaviour, t, acc, om, bnd, nod, mass=True)
    def fixed_at(t):
        o = {}
        for r, v in c.fixed_spec:
            ns = np.array(c.nodes_of(r))
            env = {"X": m.X[ns, 0], "Y": m.X[ns, 1], "Z": m.X[ns, 2], "TIME": t}
            for k in range(dim):
                if v[k] is None: continue
                for q, x in zip(ns, fem.ev(v[k], env, (len(ns),))): o[q * dim + k] = x
        return o
    intern = lambda t, u: internal(m.X, bl, c.matof, c.mats, dim, c.behaviour, t, u)
    U, V, A = np.zeros(N), np.zeros(N), np.zeros(N)
    if c.type == "TRANSIENT":
        if c.V0:
            env0 = {"X": m.X[:, 0], "Y": m.X[:, 1], "Z": m.X[:, 2], "TIME": 0.}
            for k in range(dim): V[k::dim] = fem.ev(c.V0[k], env0, (N // dim,))
        K0, f_old, M = ext(0.)
        C = c.cK * K0 + c.cM * M
        al, de, aM, aF, dt = c.alpha * (1 + c.nd) ** 2, c.delta + c.nd, c.aM, c.aF, c.dt
    for t in c.times:
        Kl, f, _ = ext(t)
        fx = fixed_at(t)
        u = U.copy()
        if c.type == "TRANSIENT": R_old = intern(t, U)[1]
        for it in range(60):
            K, R = intern(t, u)
            if c.type == "TRANSIENT":
                v = de / (al * dt) * (u - U) + (1 - de / al) * V - dt / 2 * (de / al - 2) * A
                a = (u - U) / (al * dt * dt) - V / (al * dt) + (1 - 1 / (2 * al)) * A
                K = (1 - aF) * K + (1 - aM) / (al * dt * dt) * M + (1 - aF) * de / (al * dt) * C
                b = (1 - aF) * (f - R - C @ v) + aF * (f_old - R_old - C @ V) - M @ ((1 - aM) * a + aM * A)
            else: b = f - R
            du = fem.solve_dirichlet(K, b, {k: x - u[k] for k, x in fx.items()})
            u = u + du
            e = np.abs(du).max() / max(np.abs(u).max(), 1e-12)
            if not np.isfinite(e) or e > 1e6: break
            if e < 1e-12: break
        if not e < 1e-9:
            yield None
            return
        if c.type == "TRANSIENT":
            v = de / (al * dt) * (u - U) + (1 - de / al) * V - dt / 2 * (de / al - 2) * A
            a = (u - U) / (al * dt * dt) - V / (al * dt) + (1 - 1 / (2 * al)) * A
            V, A, f_old = v, a, f
        U = u
        yield t, U.reshape(-1, dim), max(np.abs(U).max(), np.abs(f).max() / K.diagonal().max())


def struct_judge(c, d, tol=2e-5):
    E = results.Ensight(results.run_dir(d))
    P.struct_bind(c, E)
    mp = results.Mapped(E, c.mesh.X, c.mesh.et, c.mesh.en)
    bad, n = [], 0
    exp = list(struct_steps(c))
    if None in exp: return None, 0, 0
    if len(E.times) != len(exp) or E.steps != len(exp) or np.abs(np.array(E.times) - [e[0] for e in exp]).max() > 1e-4 * max(1e-2, exp[-1][0]):
        bad.append(("times", "stored times %s, expected %s" % (E.times, [round(e[0], 6) for e in exp])))
    for i, (t, u, us) in enumerate(exp[:len(E.times)]):
        g, b = mp.node("DISPLACEMENT", i + 1)
        if b: bad.append(("DISPLACEMENT-stored", str(b)[:300]))
        B = []
        P.cmp_field("DISPLACEMENT", g[:, :c.dim], u, tol, B, us)
        bad += [(k, "time %g (substep %d): %s" % (t, i + 1, x)) for k, x in B]
        n += g.size
        if B: break
    return bad, n, len(exp)
