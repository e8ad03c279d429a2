"""Random conforming meshes and independent writers/readers of the mesh database formats."""
import os, re, struct
import numpy as np

POINT1, LINE2, TRI3, SQ4, TET4, PYR5, PRI6, HEX8, LINE3, TRI6, SQ8, TET10, PYR13, PRI15, HEX20 = range(15)
NAMES = ["POINT1", "LINE2", "TRIANGLE3", "SQUARE4", "TETRA4", "PYRAMID5", "PRISMA6", "HEXA8", "LINE3", "TRIANGLE6",
         "SQUARE8", "TETRA10", "PYRAMID13", "PRISMA15", "HEXA20"]
NN = [1, 2, 3, 4, 4, 5, 6, 8, 3, 6, 8, 10, 13, 15, 20]
DIM = [0, 1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3]
COARSE = [1, 2, 3, 4, 4, 5, 6, 8, 2, 3, 4, 4, 5, 6, 8]
QUAD = {LINE2: LINE3, TRI3: TRI6, SQ4: SQ8, TET4: TET10, PYR5: PYR13, PRI6: PRI15, HEX8: HEX20}
LIN = {v: k for k, v in QUAD.items()}
EDGES = {
    LINE2: [(0, 1)],
    TRI3: [(0, 1), (1, 2), (2, 0)],
    SQ4: [(0, 1), (1, 2), (2, 3), (3, 0)],
    TET4: [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    PYR5: [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    PRI6: [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    HEX8: [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
}
# outward oriented faces
FACES = {
    TRI3: [(0, 1), (1, 2), (2, 0)],
    SQ4: [(0, 1), (1, 2), (2, 3), (3, 0)],
    TET4: [(0, 1, 3), (1, 2, 3), (2, 0, 3), (2, 1, 0)],
    PYR5: [(3, 2, 1, 0), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    PRI6: [(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (2, 1, 0), (3, 4, 5)],
    HEX8: [(0, 1, 5, 4), (3, 2, 1, 0), (4, 5, 6, 7), (7, 6, 2, 3), (1, 2, 6, 5), (3, 0, 4, 7)],
}
VTK = {POINT1: 1, LINE2: 3, TRI3: 5, SQ4: 9, TET4: 10, PYR5: 14, PRI6: 13, HEX8: 12, LINE3: 21, TRI6: 22, SQ8: 23,
       TET10: 24, PYR13: 27, PRI15: 26, HEX20: 25}
VTKINV = {v: k for k, v in VTK.items()}
ENS = {POINT1: "point", LINE2: "bar2", LINE3: "bar3", TRI3: "tria3", TRI6: "tria6", SQ4: "quad4", SQ8: "quad8", TET4: "tetra4",
       TET10: "tetra10", PYR5: "pyramid5", PYR13: "pyramid13", PRI6: "penta6", PRI15: "penta15", HEX8: "hexa8", HEX20: "hexa20"}
ENSINV = {v: k for k, v in ENS.items()}


def face_code(n):
    return {2: LINE2, 3: TRI3, 4: SQ4}[n]


class Mesh:
    def __init__(self):
        self.dim = 3
        self.X = np.zeros((0, 3))
        self.et, self.en = [], []
        self.mat = []
        self.eregs, self.fregs, self.nregs = {}, {}, {}

    @property
    def ne(self):
        return len(self.et)

    def keys(self, digits=4):
        """Node identity = coordinates on a 10^-digits lattice."""
        return [tuple(r) for r in np.rint(self.X * 10 ** digits).astype(np.int64).tolist()]

    def boundary_faces(self):
        """[(element, code, nodes outward oriented)] of faces owned by a single element (corner nodes)."""
        cnt = {}
        for e, (t, n) in enumerate(zip(self.et, self.en)):
            lt = LIN.get(t, t)
            for f in FACES[lt]:
                nodes = tuple(n[i] for i in f)
                cnt.setdefault(frozenset(nodes), []).append((e, nodes))
        return [v[0] for v in cnt.values() if len(v) == 1]

    def interior_faces(self):
        cnt = {}
        for e, (t, n) in enumerate(zip(self.et, self.en)):
            lt = LIN.get(t, t)
            for f in FACES[lt]:
                nodes = tuple(n[i] for i in f)
                cnt.setdefault(frozenset(nodes), []).append((e, nodes))
        return [v for v in cnt.values() if len(v) == 2]

    def midnode(self):
        """map frozenset(edge corners) -> midnode"""
        m = {}
        for t, n in zip(self.et, self.en):
            if t in LIN:
                lt = LIN[t]
                for k, (a, b) in enumerate(EDGES[lt]):
                    m[frozenset((n[a], n[b]))] = n[COARSE[t] + k]
        return m

    def face_elem(self, nodes, mids=None):
        """(code, nodes) of the boundary element with given corners, with midnodes when the mesh is quadratic."""
        c = face_code(len(nodes))
        mids = self.midnode() if mids is None else mids
        ed = [frozenset((nodes[a], nodes[b])) for a, b in EDGES[c]]
        if mids and all(e in mids for e in ed):
            return QUAD[c], tuple(nodes) + tuple(mids[e] for e in ed)
        return c, tuple(nodes)


def grid(rng, nx, ny, nz, kind="mixed", quadratic=False, jitter=0.2, box=(0., 0., 0., 1., 1., 1.), digits=4, curved=0.0, permute=True):
    """nz=0: 2D mesh.  kind: hex|tet|pyr|pri|mixed (3D), sq|tri|mixed (2D)."""
    m = Mesh()
    two = nz == 0
    m.dim = 2 if two else 3
    px, py, pz = nx + 1, ny + 1, (1 if two else nz + 1)
    h = np.array([(box[3] - box[0]) / nx, (box[4] - box[1]) / ny, 0 if two else (box[5] - box[2]) / nz])
    pts = []
    for k in range(pz):
        for j in range(py):
            for i in range(px):
                p = np.array([box[0] + i * h[0], box[1] + j * h[1], box[2] + (0 if two else k * h[2])])
                d = np.array([rng.uniform(-jitter, jitter) for _ in range(3)]) * h
                # boundary nodes slide in the boundary
                if i in (0, nx): d[0] = 0
                if j in (0, ny): d[1] = 0
                if not two and k in (0, nz): d[2] = 0
                pts.append(p + d)
    idx = lambda i, j, k: (k * py + j) * px + i
    et, en = [], []
    if two:
        for j in range(ny):
            for i in range(nx):
                a, b, c, d = idx(i, j, 0), idx(i + 1, j, 0), idx(i + 1, j + 1, 0), idx(i, j + 1, 0)
                k = kind if kind != "mixed" else rng.choice(["sq", "tri"])
                if k == "sq":
                    et.append(SQ4); en.append((a, b, c, d))
                elif rng.random() < .5:
                    et += [TRI3, TRI3]; en += [(a, b, c), (a, c, d)]
                else:
                    et += [TRI3, TRI3]; en += [(a, b, d), (b, c, d)]
    else:
        colpri = {(i, j): (kind == "pri" or (kind == "mixed" and rng.random() < .25)) for i in range(nx) for j in range(ny)}
        coldiag = {c: rng.random() < .5 for c in colpri}
        ctype = {}
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    if colpri[i, j]:
                        ctype[i, j, k] = "P"
                    elif kind == "hex":
                        ctype[i, j, k] = "H"
                    elif kind == "tet":
                        ctype[i, j, k] = "T"
                    elif kind == "pyr":
                        ctype[i, j, k] = "C"
                    else:
                        ctype[i, j, k] = rng.choice("HC")
        split = {}

        def face_split(key, both):
            if key not in split:
                split[key] = both and kind == "mixed" and rng.random() < .5
            return split[key]
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    v = [idx(i, j, k), idx(i + 1, j, k), idx(i + 1, j + 1, k), idx(i, j + 1, k),
                         idx(i, j, k + 1), idx(i + 1, j, k + 1), idx(i + 1, j + 1, k + 1), idx(i, j + 1, k + 1)]
                    ct = ctype[i, j, k]
                    if ct == "H":
                        et.append(HEX8); en.append(tuple(v))
                    elif ct == "P":
                        ts = [(0, 1, 2), (0, 2, 3)] if coldiag[i, j] else [(0, 1, 3), (1, 2, 3)]
                        for t in ts:
                            et.append(PRI6); en.append(tuple(v[q] for q in t) + tuple(v[q + 4] for q in t))
                    elif ct == "T":
                        for perm in ((0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)):
                            et.append(TET4); en.append(tuple(v[q] for q in perm))
                    else:
                        c = len(pts)
                        pts.append(np.mean([pts[q] for q in v], axis=0))
                        nb = [(i, j - 1, k), (i, j, k - 1), (i, j, k + 1), (i, j + 1, k), (i + 1, j, k), (i - 1, j, k)]
                        for f, o in zip(FACES[HEX8], nb):
                            q = [v[a] for a in f]  # outward
                            key = frozenset(q)
                            other = ctype.get(o)
                            # prism column neighbours in z are always prisms, so no triangular top here
                            if face_split(key, other in (None, "C")):
                                s = q.index(min(q))
                                q = q[s:] + q[:s]
                                for t in ((0, 1, 2), (0, 2, 3)):
                                    et.append(TET4); en.append((q[t[0]], q[t[2]], q[t[1]], c))
                            else:
                                et.append(PYR5); en.append((q[3], q[2], q[1], q[0], c))
    pts = np.array(pts)
    if quadratic:
        mids = {}
        pl = list(pts)
        ne = []
        for t, n in zip(et, en):
            ext = []
            for a, b in EDGES[t]:
                key = frozenset((n[a], n[b]))
                if key not in mids:
                    mids[key] = len(pl)
                    pl.append((pts[n[a]] + pts[n[b]]) / 2)
                ext.append(mids[key])
            ne.append(tuple(n) + tuple(ext))
        en = ne
        et = [QUAD[t] for t in et]
        pts = np.array(pl)
        if curved:
            inside = np.ones(len(pts), bool)
            for d in range(m.dim):
                inside &= (pts[:, d] > box[d] + 1e-6) & (pts[:, d] < box[d + 3] - 1e-6)
            hm = min(x for x in h if x > 0)
            for q in range(len(pts)):
                if inside[q] and q in set(mids.values()):
                    for d in range(m.dim):
                        pts[q, d] += rng.uniform(-curved, curved) * hm
    pts = np.round(pts, digits)
    # only linear edges: rounding of midpoints breaks straightness by 1e-4, irrelevant for topology
    if permute:
        perm = list(range(len(pts))); rng.shuffle(perm)
        inv = [0] * len(perm)
        for new, old in enumerate(perm):
            inv[old] = new
        pts = pts[perm]
        en = [tuple(inv[q] for q in n) for n in en]
        eo = list(range(len(et))); rng.shuffle(eo)
        et = [et[e] for e in eo]; en = [en[e] for e in eo]
    m.X, m.et, m.en = pts, et, en
    m.mat = [1] * len(et)
    return m


def merge(a, b):
    """Disjoint union (b shifted ids)."""
    m = Mesh()
    m.dim = a.dim
    o = len(a.X)
    m.X = np.vstack([a.X, b.X])
    m.et = a.et + b.et
    m.en = a.en + [tuple(q + o for q in n) for n in b.en]
    m.mat = a.mat + b.mat
    return m


def add_random_regions(m, rng, neregs=2, nfregs=2, nnregs=2, interior=False, edges=False, cover=True):
    """eregs (cover: a partition of the elements plus overlapping ones), fregs (boundary faces), nregs."""
    import itertools
    more = lambda l, p: itertools.chain(l, ("%s_%d" % (p, i) for i in itertools.count(10)))
    names = more(["BODYA", "BodyB", "REG_3", "reg4", "R5", "PART_6"], "XREG")
    if neregs:
        part = [rng.randrange(neregs) for _ in range(m.ne)]
        for r in range(neregs):
            l = [e for e in range(m.ne) if part[e] == r]
            if l:
                m.eregs[next(names)] = l
    mids = m.midnode()
    bf = m.boundary_faces()
    fn = more(["SIDE1", "side_2", "WALL", "TOPX"], "XSIDE")
    for r in range(nfregs):
        l = [b for b in bf if rng.random() < (.15, .6)[rng.randrange(2)]]
        if not l:
            l = [rng.choice(bf)]
        m.fregs[next(fn)] = [m.face_elem(n, mids) for e, n in l]
    nn = more(["NSET1", "nodes2", "N3"], "XNSET")
    for r in range(nnregs):
        k = rng.choice([1, 2, max(1, len(m.X) // 4)])
        # only used nodes
        used = sorted({q for n in m.en for q in n})
        if rng.random() < .5:  # runs of consecutive nodes
            sel, i = [], 0
            while i < len(used):
                j = i + rng.choice([1, 3, 3, 4, 6])
                sel += used[i:j]
                i = j + rng.choice([1, 1, 2])
            m.nregs[next(nn)] = sel
            continue
        m.nregs[next(nn)] = sorted(rng.sample(used, min(k, len(used))))
    return m


# ---------------------------------------------------------------------------------------------- writers

def _fmt(v):
    return "%.9e" % v


def write_vtk(m, dir, base, data=False, eol="\n", compact=True):
    """One file per region. Returns the path pattern. Every element must be in an ereg."""
    def one(name, cells):
        used = sorted({q for c, n in cells for q in n})
        loc = {q: i for i, q in enumerate(used)}
        L = ["# vtk DataFile Version 2.0", "verif mesh", "ASCII", "DATASET UNSTRUCTURED_GRID", "POINTS %d float" % len(used)]
        L += [" ".join(_fmt(v) for v in m.X[q]) for q in used]
        L.append("")
        L.append("CELLS %d %d" % (len(cells), sum(len(n) + 1 for c, n in cells)))
        L += [" ".join(map(str, [len(n)] + [loc[q] for q in n])) for c, n in cells]
        L.append("")
        L.append("CELL_TYPES %d" % len(cells))
        L += [str(VTK[c]) for c, n in cells]
        L.append("")
        if data:
            L.append("CELL_DATA %d" % len(cells))
            L.append("SCALARS foo float 1"); L.append("LOOKUP_TABLE default")
            L += ["%.5e" % i for i in range(len(cells))]
            L.append("")
        with open(os.path.join(dir, "%s.%s.vtk" % (base, name)), "w", newline="") as f:
            f.write(eol.join(L) + eol)
    for r, l in m.eregs.items():
        one(r, [(m.et[e], m.en[e]) for e in l])
    for r, l in m.fregs.items():
        one(r, l)
    for r, l in m.nregs.items():
        one(r, [(POINT1, (n,)) for n in l])
    return os.path.join(dir, base + ".*.vtk")


def write_ensight(m, dir, base, binary=True, node_id="off", elem_id="off"):
    """EnSight Gold: one part per region; each part has its own coordinates."""
    parts = []
    for r, l in m.eregs.items():
        parts.append((r, [(m.et[e], m.en[e]) for e in l]))
    for r, l in m.fregs.items():
        parts.append((r, list(l)))
    for r, l in m.nregs.items():
        parts.append((r, [(POINT1, (n,)) for n in l]))
    with open(os.path.join(dir, base + ".case"), "w") as f:
        f.write("FORMAT\ntype: ensight gold\n\nGEOMETRY\nmodel:\t%s.geo\n" % base)
    out = bytearray()

    def line(s):
        nonlocal out
        if binary:
            out += s.encode().ljust(80, b"\0")
        else:
            out += (s + "\n").encode()

    def ints(v, cols=1):
        nonlocal out
        if binary:
            out += struct.pack("<%di" % len(v), *v)
        else:
            for i in range(0, len(v), cols):
                out += ("".join("%10d" % q for q in v[i:i + cols]) + "\n").encode()

    if binary:
        line("C Binary")
    line("verif mesh"); line("second line")
    line("node id " + node_id); line("element id " + elem_id)
    gnid = 0
    for p, (name, cells) in enumerate(parts):
        used = sorted({q for c, n in cells for q in n})
        loc = {q: i + 1 for i, q in enumerate(used)}
        line("part"); ints([p + 1]); line(name); line("coordinates"); ints([len(used)])
        if node_id in ("given", "ignore"):
            ints([q + 1 for q in used])
        for d in range(3):
            if binary:
                out += struct.pack("<%df" % len(used), *[m.X[q, d] for q in used])
            else:
                out += "".join("%12.5e\n" % m.X[q, d] for q in used).encode()
        for c in sorted({c for c, n in cells}):
            sel = [n for cc, n in cells if cc == c]
            line(ENS[c]); ints([len(sel)])
            if elem_id in ("given", "ignore"):
                ints(list(range(1, len(sel) + 1)))
            ints([loc[q] for n in sel for q in n], NN[c])
    with open(os.path.join(dir, base + ".geo"), "wb") as f:
        f.write(out)
    return os.path.join(dir, base + ".case")


def write_ansys(m, dir, base, rng, crlf=False, gap=1, ranges=True, upper=False, z0skip=True, iw=9):
    """ANSYS CDB archive. Elements regions/face regions/node regions as CMBLOCK components. iw = integer width."""
    nl = "\r\n" if crlf else "\n"
    iw = 10 if len(m.X) * gap > 10 ** 8 else iw
    nid = np.cumsum([rng.randint(1, gap) for _ in range(len(m.X))]).tolist()
    tot = m.ne + sum(len(l) for l in m.fregs.values())
    eid = np.cumsum([rng.randint(1, gap) for _ in range(tot)]).tolist()
    L = ["/COM, verif archive", "/PREP7"]
    ets = {}
    # ET,n,type : 185 (8 nodes degenerate) 186 (20 nodes) 187 tet10, 182 2D4, 183 2D8

    def ettype(c):
        return {TET4: 185, PYR5: 185, PRI6: 185, HEX8: 185, TET10: rng.choice([186, 187]), PYR13: 186, PRI15: 186, HEX20: 186,
                TRI3: 182, SQ4: 182, TRI6: 183, SQ8: 183}[c]
    types = [ettype(c) for c in m.et]
    if rng.random() < .5:
        types = [(285 if t == 185 and c == TET4 and rng.random() < .5 else t) for t, c in zip(types, m.et)]
    for t in sorted(set(types)):
        ets[t] = len(ets) + 1
    for t, i in ets.items():
        L.append("et,%d,%d" % (i, t))
    nb = "NBLOCK" if upper else "nblock"
    L.append("%s,3,,%d" % (nb, len(m.X)))
    L.append("(1i%d,3e20.9e3)" % iw)
    fe = lambda v: ("%20.9E" % v)
    def f3(v):
        s = "%.9E" % v
        mant, ex = s.split("E")
        return ("%sE%s%03d" % (mant, ex[0], int(ex[1:]))).rjust(20)
    for i, x in enumerate(m.X):
        vals = [x[0], x[1], x[2]]
        if z0skip:
            while vals and vals[-1] == 0:
                vals.pop()
        L.append(("%" + str(iw) + "d") % nid[i] + "".join(f3(v) for v in vals))
    L.append("-1" if rng.random() < .5 else "N,R5.3,LOC,       -1,")

    def conn(t, c, n):
        n = list(n)
        if t in (187, 285):
            return n
        if c == TET4: return [n[0], n[1], n[2], n[2], n[3], n[3], n[3], n[3]]
        if c == PYR5: return n[:4] + [n[4]] * 4
        if c == PRI6: return [n[0], n[1], n[2], n[2], n[3], n[4], n[5], n[5]]
        if c in (HEX8, HEX20, SQ4, SQ8): return n
        if c == TRI3: return [n[0], n[1], n[2], n[2]]
        if c == TRI6: return [n[0], n[1], n[2], n[2], n[3], n[4], n[2], n[5]]
        if c == TET10:
            a, b, cc, d, ab, bc, ca, ad, bd, cd = n
            return [a, b, cc, cc, d, d, d, d, ab, bc, cc, ca, d, d, d, d, ad, bd, cd, cd]
        if c == PYR13:
            return n[:4] + [n[4]] * 4 + n[5:9] + [n[4]] * 4 + n[9:13]
        if c == PRI15:
            a, b, cc, d, e, f = n[:6]
            m1 = n[6:9]; m2 = n[9:12]; m3 = n[12:15]
            return [a, b, cc, cc, d, e, f, f, m1[0], m1[1], cc, m1[2], m2[0], m2[1], f, m2[2], m3[0], m3[1], m3[2], m3[2]]
    fi = lambda v: ("%" + str(iw) + "d") % v
    eb = "EBLOCK" if upper else "eblock"
    L.append("%s,19,solid,,%d" % (eb, m.ne))
    L.append("(19i%d)" % iw)
    for e in range(m.ne):
        cn = [nid[q] for q in conn(types[e], m.et[e], m.en[e])]
        hdr = [m.mat[e], ets[types[e]], 1, 1, 0, 0, 0, 0, len(cn), 0, eid[e]]
        L.append("".join(fi(v) for v in hdr + cn[:8]))
        if len(cn) > 8:
            L.append("".join(fi(v) for v in cn[8:]))
    L.append("-1")
    k = m.ne
    comps = []
    for r, l in m.eregs.items():
        comps.append((r, "ELEM", [eid[e] for e in l]))
    for r, l in m.fregs.items():
        # surface elements without solkey
        L.append("%s,10,,,%d" % (eb, len(l)))
        L.append("(15i%d)" % iw)
        ids = []
        for c, n in l:
            n = list(n)
            if c == TRI3: cn = [n[0], n[1], n[2], n[2]]
            elif c == TRI6: cn = [n[0], n[1], n[2], n[2], n[3], n[4], n[2], n[5]]
            else: cn = n
            ids.append(eid[k])
            L.append("".join(fi(v) for v in [eid[k], 1, 1, 1, 0] + [nid[q] for q in cn]))
            k += 1
        L.append("-1")
        comps.append((r, "ELEM", ids))
    for r, l in m.nregs.items():
        comps.append((r, "NODE", [nid[n] for n in l]))
    cmb = "CMBLOCK" if upper else "cmblock"
    for r, ent, ids in comps:
        ids = sorted(ids)
        items = []
        if ranges:
            i = 0
            while i < len(ids):
                j = i
                while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
                    j += 1
                if j - i >= 2:
                    items += [ids[i], -ids[j]]
                else:
                    items += ids[i:j + 1]
                i = j + 1
        else:
            items = ids
        L.append("%s,%s,%s,%8d" % (cmb, r.ljust(rng.choice([len(r), 8])), ent, len(items)))
        L.append("(8i10)")
        for i in range(0, len(items), 8):
            L.append("".join("%10d" % v for v in items[i:i + 8]))
    L.append("/GO"); L.append("FINISH")
    p = os.path.join(dir, base + ".dat")
    with open(p, "w", newline="") as f:
        f.write(nl.join(L) + nl)
    return p


# ---------------------------------------------------------------------------------------------- readers

def read_vtk(path):
    """-> dict(points, cells[(code, nodes)], pdata{name: array}, cdata{name: array})"""
    tok = open(path).read().split("\n")
    assert tok[0].startswith("# vtk DataFile"), "bad header"
    assert tok[2].strip() == "ASCII" and tok[3].split()[:2] == ["DATASET", "UNSTRUCTURED_GRID"], "bad header"
    it = iter(" \n ".join(tok[4:]).split(" "))
    words = " ".join(tok[4:]).split()
    i = 0
    res = {"points": None, "cells": [], "pdata": {}, "cdata": {}}
    cur = None
    n = 0
    types = None
    while i < len(words):
        w = words[i]
        if w == "POINTS":
            k = int(words[i + 1])
            res["points"] = np.array(words[i + 3:i + 3 + 3 * k], float).reshape(k, 3)
            i += 3 + 3 * k
        elif w == "CELLS":
            k, s = int(words[i + 1]), int(words[i + 2])
            v = list(map(int, words[i + 3:i + 3 + s]))
            j = 0
            cells = []
            for _ in range(k):
                cells.append(tuple(v[j + 1:j + 1 + v[j]]))
                j += 1 + v[j]
            assert j == s, "CELLS size mismatch"
            i += 3 + s
        elif w == "CELL_TYPES":
            k = int(words[i + 1])
            types = list(map(int, words[i + 2:i + 2 + k]))
            i += 2 + k
        elif w in ("POINT_DATA", "CELL_DATA"):
            cur = res["pdata"] if w == "POINT_DATA" else res["cdata"]
            n = int(words[i + 1])
            i += 2
        elif w == "SCALARS":
            name = words[i + 1]
            i += 3
            nc = 1
            if words[i] != "LOOKUP_TABLE":
                nc = int(words[i]); i += 1
            if words[i] == "LOOKUP_TABLE":
                i += 2
            cur[name] = np.array(words[i:i + n * nc], float).reshape(n, nc)
            i += n * nc
        elif w in ("VECTORS", "NORMALS"):
            name = words[i + 1]
            i += 3
            cur[name] = np.array(words[i:i + 3 * n], float).reshape(n, 3)
            i += 3 * n
        elif w == "TENSORS":
            name = words[i + 1]
            i += 3
            cur[name] = np.array(words[i:i + 9 * n], float).reshape(n, 9)
            i += 9 * n
        elif w == "FIELD":
            k = int(words[i + 2])
            i += 3
            for _ in range(k):
                name, nc, nt = words[i], int(words[i + 1]), int(words[i + 2])
                i += 4
                cur[name] = np.array(words[i:i + nc * nt], float).reshape(nt, nc)
                i += nc * nt
        else:
            raise ValueError("unexpected token %r in %s" % (w, path))
    assert types is not None and len(types) == len(cells), "CELL_TYPES mismatch"
    res["cells"] = [(VTKINV[t], c) for t, c in zip(types, cells)]
    for c, nn in res["cells"]:
        assert len(nn) == NN[c], "bad cell size"
    return res


def read_ensight_geo(path):
    """-> list of dict(name, points, cells)"""
    b = open(path, "rb").read()
    parts = []
    if b[:8] == b"C Binary":
        pos = 80 * 5

        def s():
            nonlocal pos
            r = b[pos:pos + 80].split(b"\0")[0].decode().strip(); pos += 80
            return r

        def i(n=1):
            nonlocal pos
            r = struct.unpack_from("<%di" % n, b, pos); pos += 4 * n
            return r

        def f(n):
            nonlocal pos
            r = np.frombuffer(b, "<f4", n, pos).astype(float); pos += 4 * n
            return r
        while pos < len(b):
            w = s()
            assert w == "part", "expected part, got %r" % w
            num = i()[0]
            p = {"num": num, "name": s(), "cells": []}
            assert s() == "coordinates"
            n = i()[0]
            p["points"] = np.array([f(n), f(n), f(n)]).T
            while pos < len(b) and b[pos:pos + 4] != b"part":
                c = ENSINV[s()]
                k = i()[0]
                v = i(k * NN[c])
                p["cells"] += [(c, tuple(q - 1 for q in v[j * NN[c]:(j + 1) * NN[c]])) for j in range(k)]
            parts.append(p)
        assert pos == len(b)
    else:
        L = b.decode().split("\n")
        pos = 4
        while pos < len(L) and L[pos].strip():
            assert L[pos].strip() == "part", "expected part, got %r" % L[pos]
            p = {"num": int(L[pos + 1]), "name": L[pos + 2].strip(), "cells": []}
            assert L[pos + 3].strip() == "coordinates"
            n = int(L[pos + 4])
            pos += 5
            for q in L[pos:pos + 3 * n]:
                assert len(q) == 12
            p["points"] = np.array([float(v) for v in L[pos:pos + 3 * n]]).reshape(3, n).T
            pos += 3 * n
            while pos < len(L) and L[pos].strip() and L[pos].strip() != "part":
                c = ENSINV[L[pos].strip()]
                k = int(L[pos + 1])
                pos += 2
                for q in L[pos:pos + k]:
                    v = [int(q[z * 10:z * 10 + 10]) - 1 for z in range(NN[c])]
                    assert len(q) == 10 * NN[c]
                    p["cells"].append((c, tuple(v)))
                pos += k
            parts.append(p)
    return parts


def write_netgen(m, dir, base):
    """Netgen neutral format; tetrahedra and boundary triangles only. eregs/fregs must be partitions named
    ELEMENTS_k / BOUNDARY_k (k = 1..)."""
    er = {e: int(r.split("_")[1]) for r, l in m.eregs.items() for e in l}
    L = ["%d" % len(m.X)]
    L += [" %s  %s  %s" % tuple("%.10f" % v for v in x) for x in m.X]
    L.append("%d" % m.ne)
    L += ["  %d    %d   %d   %d   %d" % ((er[e],) + tuple(q + 1 for q in m.en[e])) for e in range(m.ne)]
    L.append("%d" % sum(len(l) for l in m.fregs.values()))
    for r, l in m.fregs.items():
        k = int(r.split("_")[1])
        L += ["  %d    %d   %d   %d" % ((k,) + tuple(q + 1 for q in n)) for c, n in l]
    p = os.path.join(dir, base + ".mesh")
    open(p, "w").write("\n".join(L) + "\n")
    return p
