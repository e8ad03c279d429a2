"""Random physical problems: mesh + regions + materials + loads, as ECF and as the independent oracle sees them."""
import os, random, re, shutil
import numpy as np
import mesh as M, fem, results
from common import ecf

FUN = {"sin": np.sin, "cos": np.cos, "exp": np.exp, "sqrt": np.sqrt, "abs": np.abs, "min": np.minimum, "max": np.maximum, "log": np.log}


class Expr:
    """An expression in the configuration language and its value."""

    def __init__(self, s):
        self.s = s
        self.code = compile(s.replace("^", "**").replace("if(", "where("), s, "eval")
        self.vars = [v for v in ("X", "Y", "Z", "TIME", "TEMPERATURE") if v in self.code.co_names]

    def __call__(self, env):
        d = dict(FUN, where=np.where)
        d.update(env)
        return eval(self.code, {}, d)

    def __str__(self):
        return re.sub(r"\b([XYZ])\b", r"COORDINATE_\1", self.s)


KNOB = {"expr": 1, "cs": .5, "models": None, "loads": 1, "np": None, "feti": None, "dom": None, "kinds": None}


def num(rng, lo, hi):
    s = max(abs(lo), abs(hi))
    if s < .1: return float("%.3g" % rng.uniform(lo, hi))
    return float("%.3f" % rng.uniform(lo, hi))


def coef(rng, lo, hi, names=("X", "Y", "Z"), pexpr=.4, box=((0, 0, 0), (1, 1, 1))):
    """A positive coefficient in about [lo,hi]: number or expression."""
    if rng.random() > pexpr * KNOB["expr"] or not names:
        return num(rng, lo, hi)
    c = num(rng, lo, hi)
    v = rng.choice(list(names))
    k = "XYZ".find(v)
    a, b = (box[0][k], box[1][k]) if k >= 0 else (0., 1.)
    w = max(b - a, 1e-3)
    t = "((%s - %.4f) / %.4f)" % (v, a, w)
    f = rng.randrange(5)
    if f == 0: return Expr("%g + %g * %s" % (c, num(rng, .1, hi - lo), t))
    if f == 1: return Expr("%g * (1 + %s ^ 2)" % (c, t))
    if f == 2: return Expr("%g * exp(%s)" % (c, t))
    if f == 3: return Expr("%g * (2 + sin(%g * %s))" % (c, num(rng, 1, 4), v))
    v2 = rng.choice(list(names))
    return Expr("%g + %g * (%s + %g * %s) ^ 2" % (c, num(rng, .1, 1), v, num(rng, -1, 1), v2))


def val(rng, lo, hi, names=("X", "Y", "Z"), pexpr=.4, affine=False):
    if rng.random() > pexpr * KNOB["expr"]:
        return num(rng, lo, hi)
    a, b = num(rng, lo, hi), num(rng, -(hi - lo), hi - lo)
    v = rng.choice(list(names))
    form = rng.choice(["%g + %g * %s", "%g - %g * %s ^ 2", "%g + %g * cos(%s)"])
    return Expr(("%g + %g * %s" if affine else form) % (a, b, v))


class Case:
    pass


def mesh_external(rng, size=4, quadratic=None, kinds=("mixed", "mixed", "hex", "tet", "pyr", "pri"), jitter=None):
    kind = rng.choice(list(kinds))
    q = rng.random() < .35 if quadratic is None else quadratic
    nx, ny, nz = (rng.randint(2, size) for _ in range(3))
    o = rng.choice([(0, 0, 0), (-1, -1, -.5), (2, 1, -1), (-.5, -.5, -.5)])
    s = rng.choice([(1, 1, 1), (2, 1, .5), (1, 3, 1), (.5, .5, 1)])
    box = tuple(o) + tuple(a + b for a, b in zip(o, s))
    j = rng.choice([.1, .2, .25]) if jitter is None else jitter
    while True:
        m = M.grid(rng, nx, ny, nz, kind, quadratic=q, box=box, jitter=j)
        vol = s[0] * s[1] * s[2] / (nx * ny * nz)
        if all(b.det.min() > 0 and b.w.sum(1).min() > .03 * vol for b in fem.blocks(m.X, m.et, m.en, fem.HEAT_GP, 3)): break
        j *= .7  # a distorted element is not a valid input
    m.box = (o, tuple(a + b for a, b in zip(o, s)))
    m.kind = kind + ("2" if q else "")
    return m


def side_faces(m):
    """Boundary faces by side of the box: {'XMIN': [(code, nodes)], ...} with midnodes; 'ALL': all of them."""
    mids = m.midnode()
    out = {"ALL": []}
    lo, hi = np.array(m.box[0]), np.array(m.box[1])
    for e, f in m.boundary_faces():
        fe = m.face_elem(f, mids)
        out["ALL"].append(fe)
        x = m.X[list(f)]
        for k, n in enumerate("XYZ"):
            if np.abs(x[:, k] - lo[k]).max() < 1e-9: out.setdefault(n + "MIN", []).append(fe)
            if np.abs(x[:, k] - hi[k]).max() < 1e-9: out.setdefault(n + "MAX", []).append(fe)
    return out


def partition_regions(m, rng, k):
    """k element regions covering the mesh: scattered or by slabs."""
    if rng.random() < .5:
        part = [rng.randrange(k) for _ in range(m.ne)]
    else:
        ax = rng.randrange(3)
        c = np.array([m.X[list(n)].mean(0)[ax] for n in m.en])
        q = np.quantile(c, np.linspace(0, 1, k + 1)[1:-1]) if k > 1 else []
        part = np.searchsorted(q, c).tolist()
    for r in range(k):
        l = [e for e in range(m.ne) if part[e] == r]
        if l: m.eregs["BODY%d" % r] = l


def fnodes(l):
    return sorted({q for c, n in l for q in n})


# ------------------------------------------------------------------------------------------------ ECF pieces

def feti_options(rng, physics="heat", simple=False):
    o = KNOB["feti"](rng) if KNOB.get("feti") else None
    if o: return o
    o = {"METHOD": rng.choice(["TOTAL_FETI", "TOTAL_FETI", "HYBRID_FETI"]) if not simple else "TOTAL_FETI",
         "PRECONDITIONER": rng.choice(["NONE", "LUMPED", "DIRICHLET", "DIRICHLET"]),
         "PRECISION": "1E-10", "ITERATIVE_SOLVER": "PCG", "REGULARIZATION": "ANALYTIC", "MAX_ITERATIONS": 2000}
    return o


def input_block(rng, path, dec=None):
    b = {"FORMAT": "VTK_LEGACY", "PATH": path, "LOADER": rng.choice(["MPI", "POSIX", "MPI_COLLECTIVE"])}
    return b


def mat_ecf(m):
    d = {}
    if "dens" in m: d["DENS"] = str(m["dens"])
    if "cp" in m: d["CP"] = str(m["cp"])
    cs = m.get("cs")
    if cs:
        if cs[0] == "CARTESIAN":
            d["COORDINATE_SYSTEM"] = {"TYPE": "CARTESIAN", "ROTATION": dict(zip(("X", "Y", "Z"), map(str, cs[1])))} if m.get("dim", 3) == 3 else \
                                     {"TYPE": "CARTESIAN", "ROTATION": {"Z": str(cs[1][2])}}
        else:
            d["COORDINATE_SYSTEM"] = {"TYPE": "CYLINDRICAL", "CENTER": {"X": str(cs[1][0]), "Y": str(cs[1][1])}}
    d["THERMAL_CONDUCTIVITY"] = dict([("MODEL", m["model"])] + [(k, str(v)) for k, v in m["K"].items()])
    return d


def heat_material(rng, dim, box, names=None, sym=True):
    names = names if names is not None else ("X", "Y", "Z")[:dim]
    model = rng.choice(KNOB["models"] or ["ISOTROPIC", "DIAGONAL", "SYMMETRIC"] + ([] if sym else ["ANISOTROPIC"]))
    m = {"model": model, "dim": dim, "K": {}}
    K = m["K"]
    K["KXX"] = coef(rng, 1, 10, names, box=box)
    if model != "ISOTROPIC":
        K["KYY"] = coef(rng, 1, 10, names, box=box)
        if dim == 3: K["KZZ"] = coef(rng, 1, 10, names, box=box)
    od = []
    if model == "SYMMETRIC": od = ["KXY"] + (["KYZ", "KXZ"] if dim == 3 else [])
    if model == "ANISOTROPIC": od = ["KXY", "KYX"] + (["KYZ", "KXZ", "KZY", "KZX"] if dim == 3 else [])
    for k in od:
        K[k] = num(rng, -.4, .4)
    if rng.random() < KNOB["cs"] and model != "ISOTROPIC":
        if rng.random() < .5:
            m["cs"] = ("CARTESIAN", [num(rng, -180, 180) if rng.random() < .8 else 0. for _ in range(3)] if dim == 3 else [0, 0, num(rng, -180, 180)])
        else:
            m["cs"] = ("CYLINDRICAL", [num(rng, -5, 5), num(rng, -5, 5)])
    m["dens"] = coef(rng, .5, 3, names, pexpr=.2, box=box)
    m["cp"] = coef(rng, .5, 3, names, pexpr=.2, box=box)
    return m


def decomposition(rng, np_):
    d = {"DOMAINS": rng.choice([1, 2, 3, 4, 6])}
    p = rng.choice(["NONE", "PARMETIS", "METIS", "HILBERT_CURVE", "PARMETIS"]) if np_ > 1 else "NONE"
    d["PARALLEL_DECOMPOSER"] = p
    d["FORCE_CONTINUITY"] = True
    return d


def heat3d(rng, dir, size=4):
    """A steady linear heat problem on an external mesh."""
    c = Case()
    c.dim = 3
    m = c.mesh = mesh_external(rng, size, **({"kinds": KNOB["kinds"]} if KNOB["kinds"] else {}))
    box = m.box
    partition_regions(m, rng, rng.choice([1, 2, 3]))
    sides = side_faces(m)
    nm = rng.choice([1, len(m.eregs)])
    c.mats = [heat_material(rng, 3, box) for _ in range(nm)]
    er = sorted(m.eregs)
    c.matof = np.zeros(m.ne, int)
    ms = {}
    if nm == 1:
        ms["ALL_ELEMENTS"] = 1
    else:
        for i, r in enumerate(er):
            ms[r] = i + 1
            c.matof[m.eregs[r]] = i
    # Dirichlet: disjoint node sets, as face regions or node regions
    c.fixed = []
    used = set()
    names = [s for s in sides if s != "ALL"]
    rng.shuffle(names)
    for i in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < .5:
            l = sides[names[i]]
            if rng.random() < .4: l = rng.sample(l, max(1, len(l) // 2))
            if used & set(fnodes(l)): continue
            r = "DFACE%d" % i
            m.fregs[r] = l
            ns = fnodes(l)
        else:
            allb = sorted(set(range(len(m.X))) & {q for n in m.en for q in n} - used)
            ns = sorted(rng.sample(allb, rng.choice([1, 3, max(1, len(allb) // 8)])))
            r = "DNODE%d" % i
            m.nregs[r] = ns
        used |= set(ns)
        c.fixed.append((r, ns, val(rng, 50, 400)))
    if sum(len(f[1]) for f in c.fixed) < 2:
        ns = sorted(set(m.en[0]) - used)[:3]
        m.nregs["DNODE"] = ns
        c.fixed.append(("DNODE", ns, 100.))
    # loads
    c.sources = []
    for r in rng.sample(er, rng.choice([0, 0, 1, len(er)])):
        c.sources.append((r, val(rng, -50, 100)))
    if not c.sources and rng.random() < .3:
        c.sources.append(("ALL_ELEMENTS", val(rng, -50, 100)))
    c.flux, c.flow = [], []
    for i in range(rng.choice([0, 1, 2])):
        l = sides[rng.choice(names + ["ALL"])]
        l = l if rng.random() < .5 else rng.sample(l, max(1, len(l) // 3))
        r = "BFACE%d" % i
        m.fregs[r] = l
        (c.flux if rng.random() < .6 else c.flow).append((r, val(rng, -40, 80)))
    if not c.sources + c.flux + c.flow and (len(c.fixed) == 1 or rng.random() < .3):
        c.sources.append(("ALL_ELEMENTS", num(rng, 10, 90)))
    c.np = KNOB["np"] or rng.choice([1, 2, 2, 3, 4, 5, 6])
    while c.np > 1 and m.ne < 25 * c.np: c.np -= 1
    c.threads = rng.choice([1, 1, 2, 3])
    c.dcp = decomposition(rng, c.np)
    c.feti = feti_options(rng)
    if c.np > 1 and c.dcp["PARALLEL_DECOMPOSER"] in ("NONE", "HILBERT_CURVE"): c.feti["METHOD"] = "TOTAL_FETI"  # clusters may be disconnected
    if KNOB["dom"]: c.dcp["DOMAINS"] = KNOB["dom"]
    if not KNOB["loads"]: c.sources, c.flux, c.flow = [], [], []
    ls = {"DURATION_TIME": 1, "TYPE": "STEADY_STATE", "MODE": "LINEAR", "SOLVER": "FETI", "FETI": c.feti,
          "TEMPERATURE": {r: str(v) for r, _, v in c.fixed}}
    if c.sources: ls["HEAT_SOURCE"] = {r: str(v) for r, v in c.sources}
    if c.flux: ls["HEAT_FLUX"] = {r: str(v) for r, v in c.flux}
    if c.flow: ls["HEAT_FLOW"] = {r: str(v) for r, v in c.flow}
    c.ecf = {"INPUT_TYPE": "EXTERNAL_FILE", "PHYSICS": "HEAT_TRANSFER",
             "INPUT": dict(input_block(rng, "a.*.vtk"), DECOMPOSITION=c.dcp),
             "HEAT_TRANSFER": {"LOAD_STEPS": 1, "MATERIALS": {str(i + 1): mat_ecf(v) for i, v in enumerate(c.mats)}, "MATERIAL_SET": ms,
                               "INITIAL_TEMPERATURE": {"ALL_ELEMENTS": 200}, "LOAD_STEPS_SETTINGS": {"1": ls}},
             "OUTPUT": output_block(rng)}
    M.write_vtk(m, dir, "a")
    open(os.path.join(dir, "espreso.ecf"), "w").write(ecf(c.ecf))
    c.desc = "heat3d %s ne=%d np=%d t=%d %s/%s dom=%d %s %s mats=%s dir=%d src=%d flux=%d flow=%d" % (
        m.kind, m.ne, c.np, c.threads, c.dcp["PARALLEL_DECOMPOSER"], c.ecf["INPUT"]["LOADER"], c.dcp["DOMAINS"], c.feti["METHOD"], c.feti["PRECONDITIONER"],
        ",".join(x["model"][:3] + ("+" + x["cs"][0][:3] if "cs" in x else "") for x in c.mats), len(c.fixed), len(c.sources), len(c.flux), len(c.flow))
    return c


def output_block(rng):
    return {"FORMAT": "ENSIGHT", "RESULTS_STORE_FREQUENCY": "EVERY_SUBSTEP", "MONITORS_STORE_FREQUENCY": "EVERY_SUBSTEP", "STORE_RESULTS": "ALL"}


def heat_oracle(c, T0=200., time=1.):
    m = c.mesh
    T = np.full(len(m.X), T0)
    bl = fem.blocks(m.X, m.et, m.en, fem.HEAT_GP, c.dim)
    src = []
    for r, q in c.sources:
        mask = np.zeros(m.ne, bool)
        mask[m.eregs[r] if r != "ALL_ELEMENTS" else slice(None)] = True
        src.append((mask, q))
    bnd = []
    for r, q in c.flux + c.flow:
        l = m.fregs[r]
        bb = fem.blocks(m.X, [x[0] for x in l], [x[1] for x in l], fem.HEAT_GP, c.dim)
        if (r, q) in c.flow:
            area = sum(b.w.sum() for b in bb)
            q0 = q
            q = (lambda env, q0=q0, area=area: (q0(env) if callable(q0) else q0) / area)
        bnd.append((bb, q))
    K, f = fem.heat_system(m.X, bl, c.matof, c.mats, c.dim, T, time, src, bnd)
    env = {"X": m.X[:, 0], "Y": m.X[:, 1], "Z": m.X[:, 2], "TIME": time, "TEMPERATURE": T}
    fixed = {}
    for r, ns, v in c.fixed:
        vv = np.broadcast_to(v(env) if callable(v) else v, (len(m.X),))
        for q in ns: fixed[q] = vv[q]
    u = fem.solve_dirichlet(K, f, fixed)
    G, F = fem.heat_outputs(bl, u, m.ne, c.dim)
    return u, G, F


def cmp_field(name, got, exp, tol, bad, scale=None):
    if np.isnan(got).any():
        bad.append((name + "-missing", "%d values of %s were not stored" % (np.isnan(got).any(1).sum(), name)))
        return
    s = scale or max(np.abs(exp).max(), 1e-12)
    d = np.abs(got - exp).max() / s
    if not d <= tol:
        i = np.unravel_index(np.abs(got - exp).argmax(), got.shape)
        bad.append((name, "%s differs by %.3g of its range at item %s: got %.8g expected %.8g" % (name, d, i, got[i], exp[i])))
    return d


# ------------------------------------------------------------------------------------------------ generator meshes

GEN3 = {"HEXA8": M.HEX8, "HEXA20": M.HEX20, "TETRA4": M.TET4, "TETRA10": M.TET10, "PRISMA6": M.PRI6, "PRISMA15": M.PRI15, "PYRAMID5": M.PYR5, "PYRAMID13": M.PYR13}
GEN2 = {"SQUARE4": M.SQ4, "SQUARE8": M.SQ8, "TRIANGLE3": M.TRI3, "TRIANGLE6": M.TRI6}


def fmtn(v):
    return ("%.10g" % v)


def gen_grid(rng, dim, maxnp=4, size=4, start=None, length=None):
    """A GRID generator block without regions.  Returns (dict, info)."""
    g = Case()
    g.dim = dim
    g.etype = rng.choice(sorted(GEN3 if dim == 3 else GEN2))
    while True:
        g.clusters = [rng.choice([1, 1, 2, 3]) for _ in range(dim)]
        if np.prod(g.clusters) <= maxnp: break
    g.domains = [rng.choice([1, 1, 2]) for _ in range(dim)]
    big = g.etype[:2] in ("PY",) or g.etype == "TETRA10"
    mx = 2 if big or dim == 3 else 3
    g.elements = [rng.randint(1, mx) if c * d > 1 else rng.randint(2, mx + 1) for c, d in zip(g.clusters, g.domains)]
    while np.prod([d * e for d, e in zip(g.domains, g.elements)]) < 4:
        g.elements[rng.randrange(dim)] += 1
    g.start = start or [rng.choice([0., 0., -1., .5]) for _ in range(dim)]
    g.length = length or [rng.choice([1., 1., 2., .8]) for _ in range(dim)]
    g.np = int(np.prod(g.clusters))
    d = {"ELEMENT_TYPE": g.etype}
    for i, a in enumerate("XYZ"[:dim]):
        d["START_" + a] = fmtn(g.start[i]); d["LENGTH_" + a] = fmtn(g.length[i])
        d["CLUSTERS_" + a] = g.clusters[i]; d["DOMAINS_" + a] = g.domains[i]; d["ELEMENTS_" + a] = g.elements[i]; d["BLOCKS_" + a] = 1
    if dim == 2:
        d.update(CLUSTERS_Z=1, DOMAINS_Z=1, ELEMENTS_Z=1, BLOCKS_Z=1)
    g.ne = [c * n * e for c, n, e in zip(g.clusters, g.domains, g.elements)]
    return d, g


def interval(g, fix, ranges=None):
    """'<a , b> ...' text and the box; fix: {axis: 0|1}, ranges: {axis: (i,j)} in cells."""
    lo, hi = [], []
    for k in range(g.dim):
        s, l = g.start[k], g.length[k]
        if k in fix:
            v = s + (l if fix[k] else 0)
            lo.append(v); hi.append(v)
        elif ranges and k in ranges:
            h = l / g.ne[k]
            lo.append(s + (ranges[k][0] - .1) * h); hi.append(s + (ranges[k][1] + .1) * h)  # bounds between the nodes
        else:
            lo.append(s); hi.append(s + l)
    t = ["<%s , %s>" % (fmtn(a), fmtn(b)) for a, b in zip(lo, hi)]
    if g.dim == 2: t.append("<0 , 0>")
    return " ".join(t), (np.array(lo), np.array(hi))


def mesh_from_output(ens, dim, names=None):
    """Mesh as stored by the run itself: nodes and elements of the element parts (deduplicated by coordinates)."""
    P, cells, cname = [], [], []
    off = 0
    for p in ens.parts:
        if not p["cells"] or M.DIM[p["cells"][0][0]] != dim: continue
        if names is not None and p["name"] not in names: continue
        P.append(p["points"])
        for c, n in p["cells"]:
            cells.append((c, tuple(q + off for q in n))); cname.append(p["name"])
        off += len(p["points"])
    P = np.vstack(P)
    ext = np.ptp(P, axis=0).max()
    from scipy.spatial import cKDTree
    t = cKDTree(P)
    idx = -np.ones(len(P), int)
    k = 0
    X = []
    nb = t.query_ball_point(P, 1e-5 * ext)
    for i in range(len(P)):
        if idx[i] < 0:
            for j in nb[i]: idx[j] = k
            X.append(P[i]); k += 1
    m = M.Mesh()
    m.dim = dim
    m.X = np.array(X)
    seen = {}
    for (c, n), nm in zip(cells, cname):
        n = tuple(int(idx[q]) for q in n)
        key = tuple(sorted(n))
        if key not in seen:
            seen[key] = m.ne
            m.et.append(c); m.en.append(n)
        m.eregs.setdefault(nm, []).append(seen[key])
    return m


def snap(m, g):
    """Undo the float32 rounding of stored generator coordinates: they lie on a known lattice (half cells suffice)."""
    for k in range(g.dim):
        h = g.length[k] / g.ne[k] / 12.
        m.X[:, k] = g.start[k] + np.rint((m.X[:, k] - g.start[k]) / h) * h
    return m


def in_box(X, box, ext):
    lo, hi = box
    k = len(lo)
    return ((X[:, :k] >= lo - 1e-6 * ext) & (X[:, :k] <= hi + 1e-6 * ext)).all(1)


def heat2d(rng, dir, size=4):
    c = Case()
    c.dim = 2
    gd, g = gen_grid(rng, 2, maxnp=6)
    c.g = g
    box = (tuple(g.start), tuple(a + b for a, b in zip(g.start, g.length)))
    nodes, edges, elems = {}, {}, {}
    nm = rng.choice([1, 2])
    c.mats = [heat_material(rng, 2, box) for _ in range(nm)]
    if nm == 2:
        elems = {"BLACK": "CHESSBOARD_BLACK", "WHITE": "CHESSBOARD_WHITE"}
    c.regnames = sorted(elems)
    c.matregs = c.regnames if nm == 2 else []
    sides = [(0, 0), (0, 1), (1, 0), (1, 1)]
    rng.shuffle(sides)
    c.boxes = {}
    c.fixed_spec, c.sources, c.flux, c.flow = [], [], [], []
    ax, v = sides[0]
    r = "DIR0"
    tgt = rng.choice([nodes, edges])
    tgt[r], c.boxes[r] = interval(g, {ax: v})
    c.fixed_spec.append((r, val(rng, 50, 400, ("X", "Y"))))
    if rng.random() < .5:
        # the opposite side never shares a node
        tgt = rng.choice([nodes, edges])
        tgt["DIR1"], c.boxes["DIR1"] = interval(g, {ax: 1 - v})
        c.fixed_spec.append(("DIR1", val(rng, 50, 400, ("X", "Y"))))
    for i in range(rng.choice([0, 1, 2])):
        ax2, v2 = rng.choice(sides)
        o = 1 - ax2
        a = rng.randrange(g.ne[o]); b = rng.randint(a + 1, g.ne[o])
        edges["FL%d" % i], c.boxes["FL%d" % i] = interval(g, {ax2: v2}, {o: (a, b)})
        (c.flux if rng.random() < .6 else c.flow).append(("FL%d" % i, val(rng, -40, 80, ("X", "Y"))))
    for rg in (c.regnames or ["ALL_ELEMENTS"]):
        if rng.random() < .4: c.sources.append((rg, val(rng, -50, 100, ("X", "Y"))))
    if not c.sources + c.flux + c.flow and len(c.fixed_spec) == 1 and not callable(c.fixed_spec[0][1]):
        c.sources.append(("ALL_ELEMENTS", num(rng, 10, 90)))
    if nodes: gd["NODES"] = nodes
    if edges: gd["EDGES"] = edges
    if elems: gd["ELEMENTS"] = elems
    c.np = g.np
    c.threads = rng.choice([1, 2, 3])
    c.feti = feti_options(rng)
    ls = {"DURATION_TIME": 1, "TYPE": "STEADY_STATE", "MODE": "LINEAR", "SOLVER": "FETI", "FETI": c.feti, "TEMPERATURE": {r: str(v) for r, v in c.fixed_spec}}
    if c.sources: ls["HEAT_SOURCE"] = {r: str(v) for r, v in c.sources}
    if c.flux: ls["HEAT_FLUX"] = {r: str(v) for r, v in c.flux}
    if c.flow: ls["HEAT_FLOW"] = {r: str(v) for r, v in c.flow}
    ms = {"BLACK": 1, "WHITE": 2} if nm == 2 else {"ALL_ELEMENTS": 1}
    c.ecf = {"INPUT_TYPE": "GENERATOR", "PHYSICS": "HEAT_TRANSFER", "GENERATOR": {"SHAPE": "GRID", "GRID": gd},
             "HEAT_TRANSFER": {"LOAD_STEPS": 1, "DIMENSION": "2D", "MATERIALS": {str(i + 1): mat_ecf(v) for i, v in enumerate(c.mats)}, "MATERIAL_SET": ms,
                               "INITIAL_TEMPERATURE": {"ALL_ELEMENTS": 200}, "LOAD_STEPS_SETTINGS": {"1": ls}},
             "OUTPUT": output_block(rng)}
    del c.ecf["HEAT_TRANSFER"]["DIMENSION"]
    open(os.path.join(dir, "espreso.ecf"), "w").write(ecf(c.ecf))
    c.desc = "heat2d %s ne=%s np=%d t=%d %s %s mats=%s dir=%d src=%d flux=%d flow=%d" % (
        g.etype, "x".join(map(str, g.ne)), c.np, c.threads, c.feti["METHOD"], c.feti["PRECONDITIONER"],
        ",".join(x["model"][:3] + ("+" + x["cs"][0][:3] if "cs" in x else "") for x in c.mats), len(c.fixed_spec), len(c.sources), len(c.flux), len(c.flow))
    return c


def bind_generator(c, ens):
    """Attach the mesh the run stored and the regions the configuration asked for."""
    m = c.mesh = snap(mesh_from_output(ens, c.dim), c.g)
    ext = max(c.g.length)
    m.box = (tuple(c.g.start), tuple(a + b for a, b in zip(c.g.start, c.g.length)))
    c.matof = np.zeros(m.ne, int)
    for i, r in enumerate(c.matregs):
        c.matof[m.eregs[r]] = i
    mids = m.midnode()
    bf = [m.face_elem(f, mids) for e, f in m.boundary_faces()]
    for r, b in c.boxes.items():
        ok = in_box(m.X, b, ext)
        m.fregs[r] = [f for f in bf if ok[list(f[1])].all()]
        m.nregs[r] = np.nonzero(ok)[0].tolist()
    c.fixed = [(r, m.nregs[r], v) for r, v in c.fixed_spec]


def heat_judge(c, d, tol=1e-5):
    """Compare the stored results of a steady heat run in d with the oracle.  Returns list of (key, msg), number of compared values."""
    E = results.Ensight(results.run_dir(d))
    if c.dim == 2: bind_generator(c, E)
    mp = results.Mapped(E, c.mesh.X, c.mesh.et, c.mesh.en)
    bad = []
    got = {}
    for n, f in (("TEMPERATURE", mp.node), ("GRADIENT", mp.elem), ("FLUX", mp.elem)):
        got[n], b = f(n)
        if b: bad.append((n + "-stored", str(b)[:300]))
    u, g, f = heat_oracle(c)
    tr = max(np.abs(u).max(), 1.)
    L = float(np.ptp(c.mesh.X, axis=0).max())
    kap = np.abs(f).max() / max(np.abs(g).max(), 1e-30) if np.abs(g).max() > 1e-9 * tr / L else 10.
    cmp_field("TEMPERATURE", got["TEMPERATURE"], u[:, None], tol, bad, tr)
    cmp_field("GRADIENT", got["GRADIENT"][:, :c.dim], g, tol, bad, max(np.abs(g).max(), tr / L * 1e-2))
    cmp_field("FLUX", got["FLUX"][:, :c.dim], f, tol, bad, max(np.abs(f).max(), kap * tr / L * 1e-2))
    if mp.bad: bad.append(("mesh", str(mp.bad[0])[:300]))
    return bad, got["TEMPERATURE"].size + got["GRADIENT"].size + got["FLUX"].size


def trivial_residual(r):
    """FETI refused because the very first dual residual is rounding noise (the coarse problem already solved it): not a judged case."""
    if not re.search("NONDECREASING CONVERGENCE|INVALID INPUT DATA", r.out + r.err): return False
    m = re.search(r"-\s+1\s+\S+e[+-]\d+\s+(\S+)\s", r.out)
    return bool(m) and float(m.group(1)) < 1e-10


def refused(r):
    """The iterative solver reported that it cannot reach the precision (a refusal, not a result)."""
    return "NONDECREASING CONVERGENCE" in r.out + r.err


# ------------------------------------------------------------------------------------------------ elasticity

def vec(rng, dim, lo, hi, names, pexpr=.3, psome=.5):
    """[v|None]*3 with at least one component."""
    v = [val(rng, lo, hi, names, pexpr) if k < dim and rng.random() < psome else None for k in range(3)]
    if all(x is None for x in v): v[rng.randrange(dim)] = val(rng, lo, hi, names, pexpr)
    return v


def vdict(v):
    return {"XYZ"[k]: str(x) for k, x in enumerate(v) if x is not None}


def struct_material(rng, dim, box):
    names = ("X", "Y", "Z")[:dim]
    return {"E": coef(rng, 1e4, 5e4, names, pexpr=.3, box=box), "nu": rng.choice([0., .1, .25, .3, .35]) if rng.random() < .8 else Expr("%g + %g * sin(%g * %s)" % (num(rng, .15, .25), num(rng, .05, .12), num(rng, 1, 4), rng.choice(names))),
            "dens": coef(rng, .5, 3, names, pexpr=.3, box=box)}


def smat_ecf(m):
    return {"DENS": str(m["dens"]), "ELASTICITY_PROPERTIES": {"MATERIAL_MODEL": m.get("law", "KIRCHHOFF"), "MIXY": str(m["nu"]), "EX": str(m["E"])}}


class Place:
    """Where conditions can be put: sides, parts of sides, element regions - on an external mesh or on a generator grid."""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.dim = 2 if kind == "gen2" else 3
        self.n = 0
        self.later = {}
        if kind == "ext":
            self.mesh = mesh_external(rng, 4)
            self.box = self.mesh.box
            self.sides = side_faces(self.mesh)
            partition_regions(self.mesh, rng, rng.choice([1, 2, 3]))
            self.eregs = sorted(self.mesh.eregs)
        else:
            self.gd, self.g = gen_grid(rng, self.dim, maxnp=4 if self.dim == 3 else 6, **KNOB.get("gen", {}))
            g = self.g
            self.box = (tuple(g.start), tuple(a + b for a, b in zip(g.start, g.length)))
            self.boxes = {}
            self.reg = {"NODES": {}, "FACES": {}, "EDGES": {}, "ELEMENTS": {}}
            self.eregs = []
            if rng.random() < .5:
                self.reg["ELEMENTS"] = {"BLACK": "CHESSBOARD_BLACK", "WHITE": "CHESSBOARD_WHITE"}
                self.eregs = ["BLACK", "WHITE"]

    def side(self, ax, hi, part=False, nodes=None, name=None):
        """Region on a side of the box; as face/edge region or as node region.  Returns its name."""
        rng = self.rng
        self.n += 1
        name = name or "R%d" % self.n
        nodes = rng.random() < .4 if nodes is None else nodes
        if self.kind == "ext":
            l = self.sides["XYZ"[ax] + ("MAX" if hi else "MIN")]
            if part: l = rng.sample(l, max(1, len(l) // 3))
            if nodes: self.mesh.nregs[name] = fnodes(l)
            else: self.mesh.fregs[name] = list(l)
            return name
        rg = {}
        if part:
            for o in range(self.dim):
                if o == ax: continue
                a = rng.randrange(self.g.ne[o])
                rg[o] = (a, rng.randint(a + 1, self.g.ne[o]))
        tgt = "NODES" if nodes else ("FACES" if self.dim == 3 else "EDGES")
        self.reg[tgt][name], self.boxes[name] = interval(self.g, {ax: hi}, rg)
        return name

    def finish(self, c, d, physics, phys_ecf, loader=None):
        rng = self.rng
        c.kind, c.dim = self.kind, self.dim
        if self.kind == "ext":
            c.mesh = self.mesh
            c.np = KNOB["np"] or rng.choice([1, 2, 2, 3, 4, 5])
            while c.np > 1 and self.mesh.ne < 25 * c.np: c.np -= 1
            if getattr(c, "force", None): c.np = 1
            c.dcp = decomposition(rng, c.np)
            if c.np > 1 and c.dcp["PARALLEL_DECOMPOSER"] in ("NONE", "HILBERT_CURVE"): c.feti["METHOD"] = "TOTAL_FETI"
            inp = {"INPUT_TYPE": "EXTERNAL_FILE", "INPUT": dict(input_block(rng, "a.*.vtk"), DECOMPOSITION=c.dcp)}
            M.write_vtk(self.mesh, d, "a")
            where = "%s ne=%d %s dom=%d" % (self.mesh.kind, self.mesh.ne, c.dcp["PARALLEL_DECOMPOSER"], c.dcp["DOMAINS"])
        else:
            c.g, c.boxes = self.g, self.boxes
            c.np = self.g.np
            for k, v in self.reg.items():
                if v: self.gd[k] = v
            inp = {"INPUT_TYPE": "GENERATOR", "GENERATOR": {"SHAPE": "GRID", "GRID": self.gd}}
            where = "%s ne=%s clusters=%s" % (self.g.etype, "x".join(map(str, self.g.ne)), "x".join(map(str, self.g.clusters)))
        c.threads = rng.choice([1, 1, 2, 3])
        c.ecf = dict(inp, PHYSICS=physics, **{physics: phys_ecf}, OUTPUT=output_block(rng))
        open(os.path.join(d, "espreso.ecf"), "w").write(ecf(c.ecf))
        return where


def struct(rng, d, kind):
    """A steady linear elasticity problem."""
    c = Case()
    c.behaviour = "3D"
    KNOB["gen"] = {}
    axi = kind == "gen2" and rng.random() < .3
    pl = Place(rng, kind)
    dim = pl.dim
    names = ("X", "Y", "Z")[:dim]
    if kind == "gen2":
        c.behaviour = "AXISYMMETRIC" if axi else rng.choice(["PLANE_STRAIN", "PLANE_STRESS"])
        if axi:
            g = pl.g
            g.start[0] = rng.choice([.5, 1., 2.])
            pl.gd["START_X"] = fmtn(g.start[0])
            pl.box = (tuple(g.start), tuple(a + b for a, b in zip(g.start, g.length)))
    nm = rng.choice([1, len(pl.eregs)]) if pl.eregs else 1
    c.mats = [struct_material(rng, dim, pl.box) for _ in range(nm)]
    c.matregs = pl.eregs if nm > 1 else []
    ms = {r: i + 1 for i, r in enumerate(c.matregs)} if nm > 1 else {"ALL_ELEMENTS": 1}
    u = lambda: val(rng, -1e-4, 1e-4, names, .3) if rng.random() < .6 else 0.
    c.fixed_spec = []  # (region, [vx,vy,vz])
    ax, hi = rng.randrange(dim), rng.randrange(2)
    k = rng.random()
    if k < .65 or axi:
        c.fixed_spec.append((pl.side(ax, hi), [u() for _ in range(dim)] + [None] * (3 - dim)))
        if rng.random() < .4:
            v = [u() if rng.random() < .5 else None for _ in range(dim)] + [None] * (3 - dim)
            if any(x is not None for x in v): c.fixed_spec.append((pl.side(ax, 1 - hi), v))
    else:  # symmetry-like: one component per side
        for a in range(dim):
            v = [None] * 3
            v[a] = u()
            c.fixed_spec.append((pl.side(a, rng.randrange(2)), v))
    c.acc, c.omega, c.press, c.npress, c.force = [], [], [], [], []
    for r in (pl.eregs or ["ALL_ELEMENTS"]):
        if rng.random() < .3:
            v = vec(rng, dim, -3, 3, names)
            if c.behaviour == "AXISYMMETRIC": v = [None, v[1] if v[1] is not None else 1.25] + list(v[2:])  # a radial acceleration is not axisymmetric
            c.acc.append((r, v))
        elif rng.random() < .2:
            o = [None] * 3
            if dim == 3:
                o[rng.randrange(3)] = num(rng, .1, 1.5)
                if rng.random() < .3: o[rng.randrange(3)] = num(rng, .1, 1)
            else: o[1 if axi else 2] = num(rng, .1, 1.5)
            c.omega.append((r, o))
    for i in range(rng.choice([0, 1, 2])):
        r = pl.side(rng.randrange(dim), rng.randrange(2), part=rng.random() < .6, nodes=False)
        # collapsed triangle rules depend on the first node of a face: affine pressures are integrated exactly from every node
        if rng.random() < .5:
            c.press.append((r, val(rng, -5, 5, names, affine=dim == 3), [num(rng, -1, 1) if k < dim and rng.random() < .7 else 0. for k in range(3)]))
        else:
            c.npress.append((r, val(rng, 1, 5, names, affine=dim == 3)))
    for i in range(rng.choice([0, 0, 1])):
        r = pl.side(rng.randrange(dim), rng.randrange(2), part=True)
        # FORCE at nodes shared by several processes is a known finding (see C08): only in runs with one process
        if kind == "ext" or pl.g.np == 1: c.force.append((r, vec(rng, dim, -.5, .5, names)))
    if not (c.acc or c.omega or c.press or c.npress or c.force):
        c.acc.append(("ALL_ELEMENTS", [None, 1.5, None]))
    c.feti = feti_options(rng)
    if c.feti["PRECONDITIONER"] == "NONE" and not KNOB.get("feti"): c.feti["PRECONDITIONER"] = rng.choice(["LUMPED", "DIRICHLET"])  # plain CG may refuse to converge
    ls = {"DURATION_TIME": 1, "TYPE": "STEADY_STATE", "MODE": "LINEAR", "SOLVER": "FETI", "FETI": c.feti, "DISPLACEMENT": {r: vdict(v) for r, v in c.fixed_spec}}
    if c.acc: ls["ACCELERATION"] = {r: vdict(v) for r, v in c.acc}
    if c.omega: ls["ANGULAR_VELOCITY"] = {r: vdict(v) for r, v in c.omega}
    if c.press: ls["PRESSURE"] = {r: {"PRESSURE": str(p), "DIRECTION": vdict(v[:dim])} for r, p, v in c.press}
    if c.npress: ls["NORMAL_PRESSURE"] = {r: str(p) for r, p in c.npress}
    if c.force: ls["FORCE"] = {r: vdict(v) for r, v in c.force}
    ph = {"LOAD_STEPS": 1, "MATERIALS": {str(i + 1): smat_ecf(v) for i, v in enumerate(c.mats)}, "MATERIAL_SET": ms, "LOAD_STEPS_SETTINGS": {"1": ls}}
    if kind == "gen2":
        ph["ELEMENT_BEHAVIOUR"] = c.behaviour
        if axi: ph["THICKNESS"] = {"ALL_ELEMENTS": 1}
    where = pl.finish(c, d, "STRUCTURAL_MECHANICS", ph)
    c.desc = "struct-%s %s %s np=%d t=%d %s %s mats=%d dir=%d acc=%d omega=%d p=%d np=%d f=%d" % (
        kind, c.behaviour, where, c.np, c.threads, c.feti["METHOD"], c.feti["PRECONDITIONER"], nm, len(c.fixed_spec), len(c.acc), len(c.omega), len(c.press), len(c.npress), len(c.force))
    return c


def struct_bind(c, ens=None):
    """Bind regions of the case to mesh entities."""
    if c.kind != "ext":
        c.fixed_spec_, c.fixed_spec = c.fixed_spec, []
        bind_generator(c, ens)
        c.fixed_spec = c.fixed_spec_
    m = c.mesh
    c.matof = np.zeros(m.ne, int)
    for i, r in enumerate(c.matregs): c.matof[m.eregs[r]] = i
    c.nodes_of = lambda r: m.nregs[r] if r in m.nregs else fnodes(m.fregs[r])


def struct_oracle(c, time=1.):
    m, dim = c.mesh, c.dim
    bl = fem.blocks(m.X, m.et, m.en, fem.STRUCT_GP, dim)
    def mask(r):
        k = np.zeros(m.ne, bool)
        k[m.eregs[r] if r != "ALL_ELEMENTS" else slice(None)] = True
        return k
    def bb(r):
        l = m.fregs[r]
        o = fem.blocks(m.X, [x[0] for x in l], [x[1] for x in l], fem.STRUCT_GP, dim)
        for b in o: b.orient = np.full(len(b.e), 1. if dim == 3 else -1.)
        return o
    bnd = [(bb(r), "p", p, v) for r, p, v in c.press] + [(bb(r), "n", p, None) for r, p in c.npress]
    K, f = fem.struct_system(m.X, bl, c.matof, c.mats, dim, c.behaviour, time, [(mask(r), v) for r, v in c.acc], [(mask(r), v) for r, v in c.omega],
                             bnd, [(c.nodes_of(r), v) for r, v in c.force])
    fixed = {}
    for r, v in c.fixed_spec:
        ns = np.array(c.nodes_of(r))
        env = {"X": m.X[ns, 0], "Y": m.X[ns, 1], "Z": m.X[ns, 2], "TIME": time}
        for d in range(dim):
            if v[d] is None: continue
            for q, x in zip(ns, fem.ev(v[d], env, (len(ns),))): fixed[q * dim + d] = x
    u = fem.solve_dirichlet(K, f, fixed)
    def nuof(b):
        return fem.by_material(c.matof, c.mats, "nu", b, fem.genv(b, None, time))
    return u, fem.struct_outputs(bl, u, m.ne, dim, nuof) if c.behaviour != "AXISYMMETRIC" else {}, K, f, fixed


def struct_judge(c, d, tol=1e-5):
    E = results.Ensight(results.run_dir(d))
    struct_bind(c, E)
    m, dim = c.mesh, c.dim
    mp = results.Mapped(E, m.X, m.et, m.en)
    bad = []
    u, o, K, f, fixed = struct_oracle(c)
    U = u.reshape(-1, dim)
    got, b = mp.node("DISPLACEMENT")
    n = got.size
    if b: bad.append(("DISPLACEMENT-stored", str(b)[:300]))
    L = float(np.ptp(m.X, axis=0).max())
    us = max(np.abs(U).max(), np.abs(f).max() / K.diagonal().max())  # a load can act on fixed nodes only
    cmp_field("DISPLACEMENT", got[:, :dim], U, tol, bad, us)
    smin = us / L
    if np.abs(U).max() < 1e-2 * us: o = {}  # nothing but rounding noise in derived fields
    F, b = mp.node("FORCE")
    if b: bad.append(("FORCE-stored", str(b)[:300]))
    cmp_field("FORCE", F[:, :dim], f.reshape(-1, dim), tol, bad)
    n += F.size
    if True:
        for k, e in o.items():
            if k + "_1ST" in E.vars:
                g = np.concatenate([mp.elem(k + x)[0] for x in ("_1ST", "_2ND", "_3RD")[:dim]], 1)
            else:
                g, b = mp.elem(k)
            if e.shape[1] == 6: e = e[:, [0, 1, 2, 3, 5, 4]]  # EnSight order 11,22,33,12,13,23
            sc = max(np.abs(o["COMPONENT_" + k.split("_")[-1]]).max(), 1e-12)
            sc = max(sc, smin * .1 * (1 if "STRAIN" in k else 5e4))
            if g.shape[1] != e.shape[1] and k.startswith("COMPONENT") and dim == 2: g = g[:, [0, 1, 3]]
            cmp_field(k, g[:, :e.shape[1]], e, tol, bad, sc)
            n += g.size
    if mp.bad: bad.append(("mesh", str(mp.bad[0])[:300]))
    return bad, n


def tighter(d, rerun, judge, got):
    """the iterative solver's precision is relative: before a mismatch counts, it has to persist when the linear systems are solved more accurately"""
    f = d + "/espreso.ecf"
    t = open(f).read()
    if not got[0] or "1E-10" not in t: return got
    open(f, "w").write(t.replace("1E-10", "1E-13"))
    shutil.rmtree(d + "/results", ignore_errors=True)
    r = rerun()
    if not r.ok:  # 1E-13 may be out of reach
        open(f, "w").write(t.replace("1E-10", "1E-12"))
        shutil.rmtree(d + "/results", ignore_errors=True)
        r = rerun()
    if not r.ok:
        open(f, "w").write(t)
        shutil.rmtree(d + "/results", ignore_errors=True)
        rerun()
        return got
    new = judge()
    return new if new[0] is not None else got
