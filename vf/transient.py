"""Transient and multi load step problems built on top of the steady ones of physcase."""
import copy, os
import numpy as np
import fem, results
import physcase as P
from common import ecf


def tv(rng, v, p=.4):
    """Make a value depend on TIME."""
    if rng.random() >= p: return v
    s = v.s if isinstance(v, P.Expr) else repr(v)
    return P.Expr(rng.choice(["(%s) * (1 + %g * TIME)", "(%s) * (1.5 + sin(%g * TIME))", "(%s) / (1 + %g * TIME ^ 2)"]) % (s, P.num(rng, .2, 2)))


def tmat(rng, m):
    if rng.random() < .3:
        m = copy.deepcopy(m)
        k = rng.choice([k for k in sorted(m["K"]) if k in ("KXX", "KYY", "KZZ")])
        m["K"][k] = tv(rng, m["K"][k], 1)
    if rng.random() < .15: m["dens"] = tv(rng, m["dens"], 1)
    if rng.random() < .15:
        m = dict(m)
        del m["cp"]  # then it is 1
    return m


def heat(rng, d):
    c = (P.heat2d if rng.random() < .35 else P.heat3d)(rng, d)
    names = ("X", "Y", "Z")[:c.dim]
    c.mats = [tmat(rng, m) for m in c.mats]
    c.T0 = P.val(rng, 100, 300, names)
    c.bcinit = rng.random() < .5
    nls = rng.choice([1, 1, 2, 2, 3])
    c.steps = []
    start = 0.
    fx = c.fixed if c.dim == 3 else c.fixed_spec
    for s in range(nls):
        st = P.Case()
        st.type = "STEADY_STATE" if s == 0 and nls > 1 and rng.random() < .5 else "TRANSIENT"
        st.fixed = [tuple(f[:-1]) + (tv(rng, f[-1]),) for f in fx]
        if s: st.fixed = rng.sample(st.fixed, rng.randint(1, len(st.fixed)))
        pick = lambda l: [(r, tv(rng, q)) for r, q in l if s == 0 or rng.random() < .7]
        st.sources, st.flux, st.flow = pick(c.sources), pick(c.flux), pick(c.flow)
        st.start = start
        st.dt = rng.choice([.1, .25, .3, .05, 1., .7])
        n = rng.randint(1, 5)
        st.duration = 1. if st.type == "STEADY_STATE" else float("%.6g" % (st.dt * (n + rng.choice([0, 0, .4]))))
        st.method = rng.choice(["CRANK_NICOLSON", "GALERKIN", "BACKWARD_DIFF", "USER", "CRANK_NICOLSON"])
        st.alpha = {"CRANK_NICOLSON": .5, "GALERKIN": 2. / 3, "BACKWARD_DIFF": 1., "USER": P.num(rng, .5, .95)}[st.method]
        st.times = [st.duration] if st.type == "STEADY_STATE" else [start + (k + 1) * st.dt for k in range(n)]
        start += st.duration
        c.steps.append(st)
    ph = c.ecf["HEAT_TRANSFER"]
    ph["LOAD_STEPS"] = nls
    ph["MATERIALS"] = {str(i + 1): P.mat_ecf(v) for i, v in enumerate(c.mats)}
    ph["INITIAL_TEMPERATURE"] = {"ALL_ELEMENTS": str(c.T0)}
    ph["INIT_TEMP_RESPECT_BC"] = c.bcinit
    base = ph["LOAD_STEPS_SETTINGS"]["1"]
    ph["LOAD_STEPS_SETTINGS"] = {}
    c.solver = "FETI"
    if c.np == 1 and rng.random() < .3: c.solver = "MKLPDSS"
    for i, st in enumerate(c.steps):
        feti = dict(base["FETI"], PRECISION="1E-10")
        ls = {"DURATION_TIME": st.duration, "TYPE": st.type, "MODE": "LINEAR", "SOLVER": c.solver, "FETI": feti, "TEMPERATURE": {f[0]: str(f[-1]) for f in st.fixed}}
        if st.type == "TRANSIENT":
            ls["TRANSIENT_SOLVER"] = {"METHOD": st.method, "TIME_STEP": st.dt}
            if st.method == "USER": ls["TRANSIENT_SOLVER"]["ALPHA"] = st.alpha
        for k, v in (("HEAT_SOURCE", st.sources), ("HEAT_FLUX", st.flux), ("HEAT_FLOW", st.flow)):
            if v: ls[k] = {r: str(q) for r, q in v}
        ph["LOAD_STEPS_SETTINGS"][str(i + 1)] = ls
    open(os.path.join(d, "espreso.ecf"), "w").write(ecf(c.ecf))
    c.desc = "transient %s %s " % (c.solver, "+".join(s.type[0] + (":%s/%d" % (s.method[:4], len(s.times)) if s.type[0] == "T" else "") for s in c.steps)) + c.desc
    return c


def heat_steps(c):
    """Yields (time, T, gradient, flux) of every substep as the scheme defines them."""
    m = c.mesh
    env0 = {"X": m.X[:, 0], "Y": m.X[:, 1], "Z": m.X[:, 2], "TIME": 0.}
    U = fem.ev(c.T0, env0, (len(m.X),)).astype(float)
    bl = fem.blocks(m.X, m.et, m.en, fem.HEAT_GP, c.dim)
    if c.bcinit:
        for fx in c.steps[0].fixed:
            ns = m.nregs[fx[0]] if fx[0] in m.nregs else P.fnodes(m.fregs[fx[0]])
            U[ns] = fem.ev(fx[-1], env0, (len(m.X),))[ns]
    for st in c.steps:
        src = []
        for r, q in st.sources:
            mask = np.zeros(m.ne, bool)
            mask[m.eregs[r] if r != "ALL_ELEMENTS" else slice(None)] = True
            src.append((mask, q))
        bnd = []
        for r, q in st.flux + st.flow:
            l = m.fregs[r]
            bb = fem.blocks(m.X, [x[0] for x in l], [x[1] for x in l], fem.HEAT_GP, c.dim)
            if (r, q) in st.flow:
                area = sum(b.w.sum() for b in bb)
                q = (lambda env, q0=q, area=area: (q0(env) if callable(q0) else q0) / area)
            bnd.append((bb, q))
        V = np.zeros(len(m.X))
        for t in st.times:
            K, f, Mm = fem.heat_system(m.X, bl, c.matof, c.mats, c.dim, None, t, src, bnd, mass=True)
            env = dict(env0, TIME=t)
            fixed = {}
            for fx in st.fixed:
                ns = m.nregs[fx[0]] if fx[0] in m.nregs else P.fnodes(m.fregs[fx[0]])
                vv = fem.ev(fx[-1], env, (len(m.X),))
                for q in ns: fixed[q] = vv[q]
            if st.type == "STEADY_STATE":
                U = fem.solve_dirichlet(K, f, fixed)
            else:
                a, dt = st.alpha, st.dt
                b = f + Mm @ (U / (a * dt) + (1 - a) / a * V)
                u = fem.solve_dirichlet(K + Mm / (a * dt), b, fixed)
                V = (u - U) / (a * dt) - (1 - a) / a * V
                U = u
            G, F = fem.heat_outputs(bl, U, m.ne, c.dim)
            yield t, U, G, F


def heat_judge(c, d, tol=2e-5):
    E = results.Ensight(results.run_dir(d))
    if c.dim == 2: P.bind_generator(c, E)
    mp = results.Mapped(E, c.mesh.X, c.mesh.et, c.mesh.en)
    bad = []
    n = 0
    exp = list(heat_steps(c))
    if len(E.times) != len(exp) or E.steps != len(exp) or np.abs(np.array(E.times) - [e[0] for e in exp]).max() > 1e-4 * max(1, exp[-1][0]):
        bad.append(("times", "stored times %s, expected %s" % (E.times, [round(e[0], 6) for e in exp])))
    for i, (t, u, g, f) in enumerate(exp[:len(E.times)]):
        T, b = mp.node("TEMPERATURE", i + 1)
        if b: bad.append(("TEMPERATURE-stored", str(b)[:300]))
        G, b1 = mp.elem("GRADIENT", i + 1)
        F, b2 = mp.elem("FLUX", i + 1)
        tr = max(np.abs(u).max(), 1.)
        L = float(np.ptp(c.mesh.X, axis=0).max())
        kap = np.abs(f).max() / max(np.abs(g).max(), 1e-30) if np.abs(g).max() > 1e-9 * tr / L else 10.
        B = []
        P.cmp_field("TEMPERATURE", T, u[:, None], tol, B, tr)
        P.cmp_field("GRADIENT", G[:, :c.dim], g, tol, B, max(np.abs(g).max(), tr / L * 1e-2))
        P.cmp_field("FLUX", F[:, :c.dim], f, tol, B, max(np.abs(f).max(), kap * tr / L * 1e-2))
        bad += [(k, "time %g (substep %d): %s" % (t, i + 1, v)) for k, v in B]
        n += T.size + G.size + F.size
        if B: break
    return bad, n, len(exp)


# ------------------------------------------------------------------------------------------------ elasticity

def tvec(rng, v, p=.3):
    return [tv(rng, x, p) if x is not None else None for x in v]


def struct(rng, d):
    c = P.struct(rng, d, rng.choice(["ext", "ext", "gen3", "gen2"]))
    if c.behaviour == "AXISYMMETRIC":
        c.behaviour = "PLANE_STRAIN"
        c.ecf["STRUCTURAL_MECHANICS"]["ELEMENT_BEHAVIOUR"] = c.behaviour
        c.ecf["STRUCTURAL_MECHANICS"].pop("THICKNESS", None)
        c.omega = [(r, [None, None, o[1]]) for r, o in c.omega]
    dim = c.dim
    names = ("X", "Y", "Z")[:dim]
    if rng.random() < .2: c.mats[0]["dens"] = tv(rng, c.mats[0]["dens"], 1)
    if rng.random() < .2: c.mats[0]["E"] = tv(rng, c.mats[0]["E"], 1)
    c.V0 = [P.val(rng, -.05, .05, names, .4) if k < dim else None for k in range(3)] if rng.random() < .6 else None
    nls = rng.choice([1, 1, 2, 2, 3])
    c.steps = []
    start = 0.
    for s in range(nls):
        st = P.Case()
        st.type = "STEADY_STATE" if s == 0 and nls > 1 and rng.random() < .5 else "TRANSIENT"
        st.fixed = [(r, tvec(rng, v)) for r, v in c.fixed_spec]
        pick = lambda l: [x for x in l if s == 0 or rng.random() < .7]
        st.acc = [(r, tvec(rng, v)) for r, v in pick(c.acc)]
        st.omega = pick(c.omega)
        st.press = [(r, tv(rng, p), v) for r, p, v in pick(c.press)]
        st.npress = [(r, tv(rng, p)) for r, p in pick(c.npress)]
        st.force = [(r, tvec(rng, v)) for r, v in pick(c.force)]
        st.start = start
        st.dt = rng.choice([.001, .01, .005, .1, .3])
        n = rng.randint(1, 5)
        st.duration = 1. if st.type == "STEADY_STATE" else float("%.6g" % (st.dt * (n + rng.choice([0, 0, .4]))))
        st.alpha = rng.choice([.5, .5, .6, P.num(rng, .5, .8)])
        st.delta = float("%.4g" % ((.5 + st.alpha) ** 2 / 4 * rng.choice([1, 1, 1.2, 2])))
        st.times = [st.duration] if st.type == "STEADY_STATE" else [start + (k + 1) * st.dt for k in range(n)]
        start += st.duration
        c.steps.append(st)
    ph = c.ecf["STRUCTURAL_MECHANICS"]
    ph["LOAD_STEPS"] = nls
    ph["MATERIALS"] = {str(i + 1): P.smat_ecf(v) for i, v in enumerate(c.mats)}
    if c.V0: ph["INITIAL_VELOCITY"] = {"ALL_ELEMENTS": P.vdict(c.V0)}
    base = ph["LOAD_STEPS_SETTINGS"]["1"]
    ph["LOAD_STEPS_SETTINGS"] = {}
    c.solver = "FETI"
    if c.np == 1 and rng.random() < .3: c.solver = "MKLPDSS"
    for i, st in enumerate(c.steps):
        ls = {"DURATION_TIME": st.duration, "TYPE": st.type, "MODE": "LINEAR", "SOLVER": c.solver, "FETI": dict(base["FETI"], PRECISION="1E-10"),
              "DISPLACEMENT": {r: P.vdict(v) for r, v in st.fixed}}
        if st.type == "TRANSIENT":
            ls["TRANSIENT_SOLVER"] = {"METHOD": "NEWMARK", "TIME_STEP": st.dt, "ALPHA": st.alpha, "DELTA": st.delta}
        if st.acc: ls["ACCELERATION"] = {r: P.vdict(v) for r, v in st.acc}
        if st.omega: ls["ANGULAR_VELOCITY"] = {r: P.vdict(v) for r, v in st.omega}
        if st.press: ls["PRESSURE"] = {r: {"PRESSURE": str(p), "DIRECTION": P.vdict(v[:dim])} for r, p, v in st.press}
        if st.npress: ls["NORMAL_PRESSURE"] = {r: str(p) for r, p in st.npress}
        if st.force: ls["FORCE"] = {r: P.vdict(v) for r, v in st.force}
        ph["LOAD_STEPS_SETTINGS"][str(i + 1)] = ls
    open(os.path.join(d, "espreso.ecf"), "w").write(ecf(c.ecf))
    c.desc = "transient %s %s v0=%s " % (c.solver, "+".join(s.type[0] + (":%g/%d" % (s.dt, len(s.times)) if s.type[0] == "T" else "") for s in c.steps), bool(c.V0)) + c.desc
    return c


def struct_steps(c):
    m, dim = c.mesh, c.dim
    N = len(m.X)
    bl = fem.blocks(m.X, m.et, m.en, fem.STRUCT_GP, dim)
    def mask(r):
        k = np.zeros(m.ne, bool)
        k[m.eregs[r] if r != "ALL_ELEMENTS" else slice(None)] = True
        return k
    def bb(r):
        l = m.fregs[r]
        o = fem.blocks(m.X, [x[0] for x in l], [x[1] for x in l], fem.STRUCT_GP, dim)
        for b in o: b.orient = np.full(len(b.e), 1. if dim == 3 else -1.)
        return o
    env0 = {"X": m.X[:, 0], "Y": m.X[:, 1], "Z": m.X[:, 2], "TIME": 0.}
    U, V, W = np.zeros(N * dim), np.zeros(N * dim), np.zeros(N * dim)
    if c.V0 and c.steps[0].type == "TRANSIENT":
        for k in range(dim): V[k::dim] = fem.ev(c.V0[k], env0, (N,))
    for st in c.steps:
        bnd = [(bb(r), "p", p, v) for r, p, v in st.press] + [(bb(r), "n", p, None) for r, p in st.npress]
        acc, om, nod = [(mask(r), v) for r, v in st.acc], [(mask(r), v) for r, v in st.omega], [(c.nodes_of(r), v) for r, v in st.force]
        for t in st.times:
            K, f, Mm = fem.struct_system(m.X, bl, c.matof, c.mats, dim, c.behaviour, t, acc, om, bnd, nod, mass=True)
            fixed = {}
            for r, v in st.fixed:
                ns = np.array(c.nodes_of(r))
                env = {"X": m.X[ns, 0], "Y": m.X[ns, 1], "Z": m.X[ns, 2], "TIME": t}
                for k in range(dim):
                    if v[k] is None: continue
                    for q, x in zip(ns, fem.ev(v[k], env, (len(ns),))): fixed[q * dim + k] = x
            if st.type == "STEADY_STATE":
                U = fem.solve_dirichlet(K, f, fixed)
                yield t, U.reshape(-1, dim), None, None, max(np.abs(U).max(), np.abs(f).max() / K.diagonal().max())
                continue
            a, b, dt = st.alpha, st.delta, st.dt  # gamma, beta of the Newmark scheme
            n0, n2, n3 = 1 / (b * dt * dt), 1 / (b * dt), 1 / (2 * b) - 1
            A = K + n0 * Mm
            rhs = f + Mm @ (n0 * U + n2 * V + n3 * W)
            u = fem.solve_dirichlet(A, rhs, fixed)
            Z = n0 * (u - U) - n2 * V - n3 * W
            V = V + dt * (1 - a) * W + dt * a * Z
            W, U = Z, u
            yield t, U.reshape(-1, dim), V.reshape(-1, dim), W.reshape(-1, dim), max(np.abs(U).max(), np.abs(rhs).max() / A.diagonal().max())


def struct_judge(c, d, tol=2e-5):
    E = results.Ensight(results.run_dir(d))
    P.struct_bind(c, E)
    mp = results.Mapped(E, c.mesh.X, c.mesh.et, c.mesh.en)
    bad, n = [], 0
    exp = list(struct_steps(c))
    if len(E.times) != len(exp) or E.steps != len(exp) or np.abs(np.array(E.times) - [e[0] for e in exp]).max() > 1e-4 * max(1e-2, exp[-1][0]):
        bad.append(("times", "stored times %s, expected %s" % (E.times, [round(e[0], 6) for e in exp])))
    for i, (t, u, v, w, us) in enumerate(exp[:len(E.times)]):
        g, b = mp.node("DISPLACEMENT", i + 1)
        if b: bad.append(("DISPLACEMENT-stored", str(b)[:300]))
        B = []
        P.cmp_field("DISPLACEMENT", g[:, :c.dim], u, tol, B, us)
        bad += [(k, "time %g (substep %d): %s" % (t, i + 1, x)) for k, x in B]
        n += g.size
        if B: break
    return bad, n, len(exp)
