"""Random mesh databases + loader configurations, and the mesh each of them denotes."""
import copy, os
import numpy as np
import mesh as M
from common import ecf

FMT = {"ansys": 0, "ensight": 1, "vtk": 2, "netgen": 99}
DEC = {0: "NONE", 1: "METIS", 2: "PARMETIS", 4: "HILBERT_CURVE"}


def base_mesh(rng, size, fmt):
    """A random conforming mesh with roughly `size` cells."""
    q = rng.random() < .3 and fmt != "netgen"
    kind = "tet" if fmt == "netgen" else rng.choice(["mixed", "mixed", "mixed", "hex", "tet", "pyr", "pri"])
    nx, ny, nz = (rng.randint(2, size + 1) for _ in range(3))
    if rng.random() < .1:
        nx, ny, nz = rng.choice([(1, 1, size * 4), (size * 3, 2, 1), (2, size * 3, 1)])
    o = rng.choice([(0, 0, 0), (-1, -2, -3), (100, -50, 7), (-.5, -.5, -.5), (20, 30, -4)])
    s = rng.choice([(1, 1, 1), (3, 1, .5), (10, 10, 10), (.25, 2, 1)])
    box = tuple(o) + tuple(a + b for a, b in zip(o, s))
    m = M.grid(rng, nx, ny, nz, kind, quadratic=q, box=box, jitter=rng.choice([0, .2, .3]), permute=rng.random() < .8)
    if rng.random() < .2:
        b2 = tuple(v + (20 if i % 3 == 0 else 0) for i, v in enumerate(box))
        m = M.merge(m, M.grid(rng, rng.randint(2, 3), rng.randint(1, 3), 2, "tet" if fmt == "netgen" else "mixed", quadratic=q, box=b2))
    if q and rng.random() < .4 and fmt != "netgen":
        # linear second body next to the quadratic one
        b2 = tuple(v + (40 if i % 3 == 0 else 0) for i, v in enumerate(box))
        m = M.merge(m, M.grid(rng, rng.randint(1, 3), 2, 2, "mixed", quadratic=False, box=b2))
    return m


def regions(m, rng, fmt):
    if fmt == "netgen":
        k = rng.choice([1, 2, 3])
        part = [rng.randrange(k) for _ in range(m.ne)]
        for r in range(k):
            l = [e for e in range(m.ne) if part[e] == r]
            if l:
                m.eregs["ELEMENTS_%d" % (r + 1)] = l
        bf = m.boundary_faces()
        k = rng.choice([1, 2, 4])
        part = [rng.randrange(k) for _ in bf]
        for r in range(k):
            l = [n for (e, n), p in zip(bf, part) if p == r]
            if l:
                m.fregs["BOUNDARY_%d" % (r + 1)] = [(M.TRI3, tuple(n)) for n in l]
        return
    many = rng.random() < .16  # more regions than bits of an integer
    M.add_random_regions(m, rng, neregs=rng.choice([3, 5, 36, 70]) if many else rng.choice([1, 2, 2, 3, 4]), nfregs=rng.choice([0, 1, 2, 3]),
                         nnregs=rng.choice([2, 34, 40]) if many else rng.choice([0, 1, 2, 3]))
    if rng.random() < .3:
        # a region overlapping the others: the same elements are listed twice in the database
        m.eregs["OVERLAP"] = sorted(rng.sample(range(m.ne), max(1, m.ne // rng.choice([2, 5, 20]))))
    if fmt == "ansys" and rng.random() < .3:
        # components need not cover the mesh
        m.eregs.pop(rng.choice(sorted(m.eregs)))
    if m.fregs and rng.random() < .3:
        # two boundary regions sharing faces
        src = m.fregs[rng.choice(sorted(m.fregs))]
        m.fregs["SHARED"] = [f for f in src if rng.random() < .7] or src[:1]


def omit_midpoints(m):
    o = copy.copy(m)
    o.et = [M.LIN.get(t, t) for t in m.et]
    o.en = [tuple(n[:M.COARSE[t]]) for t, n in zip(m.et, m.en)]
    o.fregs = {r: [(M.LIN.get(c, c), tuple(n[:M.COARSE[c]])) for c, n in l] for r, l in m.fregs.items()}
    used = {q for n in o.en for q in n}
    o.nregs = {r: [n for n in l if n in used] for r, l in m.nregs.items()}
    return o


def transformed(m, kind, instances, x, y, z):
    """Union of the mesh with `instances` transformed copies."""
    o = M.Mesh()
    o.dim = m.dim
    o.X, o.et, o.en, o.mat = m.X, list(m.et), list(m.en), list(m.mat)
    o.eregs = {r: list(l) for r, l in m.eregs.items()}
    o.fregs = {r: list(l) for r, l in m.fregs.items()}
    o.nregs = {r: list(l) for r, l in m.nregs.items()}
    nn, ne = len(m.X), m.ne
    for i in range(1, instances + 1):
        if kind == "TRANSLATE":
            X = m.X + i * np.array([x, y, z])
        else:
            a = i * np.pi * z / 180
            X = np.stack([np.cos(a) * m.X[:, 0] - np.sin(a) * m.X[:, 1], np.sin(a) * m.X[:, 0] + np.cos(a) * m.X[:, 1], m.X[:, 2]], 1)
        sh = lambda n: tuple(q + i * nn for q in n)
        o.X = np.vstack([o.X, X])
        o.et += m.et; o.en += [sh(n) for n in m.en]; o.mat += m.mat
        for r in m.eregs: o.eregs[r] += [e + i * ne for e in m.eregs[r]]
        for r in m.fregs: o.fregs[r] += [(c, sh(n)) for c, n in m.fregs[r]]
        for r in m.nregs: o.nregs[r] += [n + i * nn for n in m.nregs[r]]
    return o


class Case:
    pass


def make(rng, dir, size=4, formats=("vtk", "ensight", "ansys", "netgen"), options=True):
    c = Case()
    c.fmt = rng.choice(formats)
    m = base_mesh(rng, size, c.fmt)
    regions(m, rng, c.fmt)
    inp = {"CONVERT_DATABASE": True}
    c.opts = []
    loader = rng.choice(["MPI", "MPI_COLLECTIVE", "POSIX"])
    inp["LOADER"] = loader
    sub = "data" if rng.random() < .3 else "."
    os.makedirs(os.path.join(dir, sub), exist_ok=True)
    d = os.path.join(dir, sub)
    if c.fmt == "vtk":
        M.write_vtk(m, d, "a", data=rng.random() < .3)
        pat = "a.*.vtk"
        path = rng.choice([os.path.join(d, pat), os.path.join(sub, pat)]) if sub != "." else rng.choice([os.path.join(d, pat), pat, "./" + pat])
        if rng.random() < .2:
            for i in range(rng.choice([5, 150, 300])):
                open(os.path.join(d, "unrelated%03d.txt" % i), "w").close()
            c.opts.append("crowded-dir")
    elif c.fmt == "ensight":
        path = os.path.join(d, "b.case")
        b = rng.random() < .5 or np.abs(m.X).max() >= 99.9  # the ASCII variant has 6 significant digits
        ids = rng.choice(["off", "assign", "given"])
        M.write_ensight(m, d, "b", binary=b, node_id=ids, elem_id=rng.choice(["off", "assign", "given"]))
        c.opts.append("binary" if b else "ascii")
    elif c.fmt == "ansys":
        path = M.write_ansys(m, d, "c", rng, gap=rng.choice([1, 1, 3, 50]), crlf=rng.random() < .3, upper=rng.random() < .4, ranges=rng.random() < .7)
    else:
        path = M.write_netgen(m, d, "n")
        inp["FORMAT"] = "NETGEN"
    c.path = path
    exp = m
    if options and rng.random() < .35 and any(t in M.LIN for t in m.et):
        inp["OMIT_MIDPOINTS"] = True
        exp = omit_midpoints(exp)
        c.opts.append("omit-midpoints")
    if options and rng.random() < .2:
        inst = rng.choice([1, 2])
        lo, hi = m.X.min(0), m.X.max(0)
        if rng.random() < .6:
            ax = rng.randrange(3)
            dist = [0, 0, 0]
            # copies apart (touching copies are outside the property, see DESIGN.md)
            dist[ax] = float(np.round(2.5 * (hi[ax] - lo[ax]), 4)) + 60
            tr = ("TRANSLATE", inst, dist[0], dist[1], dist[2])
        else:
            tr = ("ROTATE", inst, 0, 0, 90.) if lo[0] > 1e-3 and lo[1] > 1e-3 else None
        if tr:
            inp["TRANSFORMATIONS"] = {"T1": {"TRANSFORMATION": tr[0], "INSTANCES": tr[1], "X": float(tr[2]), "Y": float(tr[3]), "Z": float(tr[4])}}
            exp = transformed(exp, *tr)
            c.opts.append("transform-" + tr[0].lower())
    if options and rng.random() < .25:
        used = sorted({q for n in exp.en for q in n})
        ctr = exp.X[rng.choice(used)]
        if rng.random() < .5:
            w = [float(np.round(rng.uniform(.2, .8) * (exp.X[:, k].max() - exp.X[:, k].min()), 3)) + 3e-5 for k in range(3)]
            org = [float(ctr[k]) - w[k] / 2 + 1e-5 for k in range(3)]
            inp["NODE_REGIONS"] = {"NREG": {"SHAPE": "BLOCK", "X": org[0], "Y": org[1], "Z": org[2], "LX": w[0], "LY": w[1], "LZ": w[2]}}
            sel = [q for q in used if all(org[k] <= exp.X[q, k] <= org[k] + w[k] for k in range(3))]
        else:
            rad = float(rng.uniform(.2, .6) * (exp.X.max(0) - exp.X.min(0)).max())
            inp["NODE_REGIONS"] = {"NREG": {"SHAPE": "CIRCLE", "X": float(ctr[0]), "Y": float(ctr[1]), "Z": float(ctr[2]), "RADIUS": rad}}
            dd = np.linalg.norm(exp.X - ctr, axis=1)
            if (np.abs(dd - rad) < 1e-6).any():
                rad += 3e-6
                inp["NODE_REGIONS"]["NREG"]["RADIUS"] = rad
            sel = [q for q in used if dd[q] <= rad]
        exp = copy.copy(exp)
        exp.nregs = dict(exp.nregs, NREG=sel)
        c.opts.append("node-region")
    c.mesh, c.src = exp, m
    c.np = rng.choice([1, 2, 2, 3, 4, 5, 6, 7])
    while c.np > 1 and m.ne < 25 * c.np:
        c.np -= 1
    c.threads = rng.choice([1, 1, 2, 3])
    c.dec = rng.choice([0, 1, 2, 2, 4])
    c.domains = rng.choice([1, 2, 3, 5])
    dcp = {}
    if rng.random() < .2:
        dcp["SEPARATE_MATERIALS"] = True
    if rng.random() < .2:
        dcp["SEPARATE_ETYPES"] = True
    if rng.random() < .3:
        dcp["FORCE_CONTINUITY"] = True
    if rng.random() < .2:
        dcp["SEPARATE_REGIONS"] = True
    if dcp:
        inp["DECOMPOSITION"] = dcp
    c.inp = inp
    c.ecf = {"OUTPUT": {"FORMAT": "VTK_LEGACY"}, "INPUT": inp}
    open(os.path.join(dir, "espreso.ecf"), "w").write(ecf(c.ecf))
    c.desc = "%s np=%d t=%d dec=%s dom=%d %s ne=%d nn=%d types=%s opts=%s dcp=%s" % (
        c.fmt, c.np, c.threads, DEC[c.dec], c.domains, loader, exp.ne, len(exp.X), len(set(exp.et)), ",".join(c.opts), ",".join(dcp))
    return c


def run(exe, c, dir):
    from common import run_mpi
    return run_mpi(dir, c.np, [exe, str(FMT[c.fmt]), c.path, str(c.dec), str(c.domains), "out"], threads=c.threads, timeout=90)
