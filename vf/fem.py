"""Independent finite element oracle (numpy/scipy): heat transfer and elasticity on arbitrary meshes.

Nothing here is derived from the repository's kernels: shape functions are the textbook ones.  Only the choice of the quadrature rule
(number of points, and whether a collapsed tensor rule is used) follows what the solver documents by its Gauss-point counts, because on
distorted elements the discrete solution depends on it.
"""
import itertools
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from mesh import *

HEAT_GP = {LINE2: 2, LINE3: 3, TRI3: 6, SQ4: 4, TRI6: 6, SQ8: 9, TET4: 8, PYR5: 8, PRI6: 9, HEX8: 8, TET10: 15, PYR13: 14, PRI15: 9, HEX20: 27}
STRUCT_GP = {LINE2: 2, LINE3: 4, TRI3: 4, SQ4: 4, TRI6: 6, SQ8: 16, TET4: 8, PYR5: 8, PRI6: 8, HEX8: 8, TET10: 15, PYR13: 27, PRI15: 9, HEX20: 27}

_c8 = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
_c20 = _c8 + [(0, -1, -1), (1, 0, -1), (0, 1, -1), (-1, 0, -1), (0, -1, 1), (1, 0, 1), (0, 1, 1), (-1, 0, 1), (-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0)]
_q8 = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)]


def s_line2(p):
    r, = p
    return np.array([(1 - r) / 2, (1 + r) / 2])


def s_line3(p):
    r, = p
    return np.array([r * (r - 1) / 2, r * (r + 1) / 2, 1 - r * r])


def s_sq4(p):
    r, s = p
    return np.array([(1 + a * r) * (1 + b * s) / 4 for a, b in _q8[:4]])


def s_sq8(p):
    r, s = p
    N = []
    for a, b in _q8:
        if a and b: N.append((1 + a * r) * (1 + b * s) * (a * r + b * s - 1) / 4)
        elif a == 0: N.append((1 - r * r) * (1 + b * s) / 2)
        else: N.append((1 - s * s) * (1 + a * r) / 2)
    return np.array(N)


def s_tri3(p):
    r, s = p
    return np.array([1 - r - s, r, s])


def s_tri6(p):
    L = s_tri3(p)
    return np.array([l * (2 * l - 1) for l in L] + [4 * L[0] * L[1], 4 * L[1] * L[2], 4 * L[2] * L[0]])


def s_tet4(p):
    r, s, t = p
    return np.array([1 - r - s - t, r, s, t])


def s_tet10(p):
    L = s_tet4(p)
    return np.array([l * (2 * l - 1) for l in L] + [4 * L[a] * L[b] for a, b in EDGES[TET4]])


def s_hex8(p):
    r, s, t = p
    return np.array([(1 + a * r) * (1 + b * s) * (1 + c * t) / 8 for a, b, c in _c8])


def s_hex20(p):
    r, s, t = p
    N = []
    for a, b, c in _c20:
        if a and b and c: N.append((1 + a * r) * (1 + b * s) * (1 + c * t) * (a * r + b * s + c * t - 2) / 8)
        elif a == 0: N.append((1 - r * r) * (1 + b * s) * (1 + c * t) / 4)
        elif b == 0: N.append((1 - s * s) * (1 + a * r) * (1 + c * t) / 4)
        else: N.append((1 - t * t) * (1 + a * r) * (1 + b * s) / 4)
    return np.array(N)


def s_pri6(p):
    r, s, t = p
    L = [1 - r - s, r, s]
    return np.array([l * (1 - t) / 2 for l in L] + [l * (1 + t) / 2 for l in L])


def s_pri15(p):
    r, s, t = p
    L = [1 - r - s, r, s]
    N = [l / 2 * ((2 * l - 1) * (1 - t) - (1 - t * t)) for l in L] + [l / 2 * ((2 * l - 1) * (1 + t) - (1 - t * t)) for l in L]
    N += [2 * L[a] * L[b] * (1 - t) for a, b in [(0, 1), (1, 2), (2, 0)]] + [2 * L[a] * L[b] * (1 + t) for a, b in [(0, 1), (1, 2), (2, 0)]]
    N += [l * (1 - t * t) for l in L]
    return np.array(N)


def s_pyr13(p):
    """Collapsed pyramid on [-1,1]^3, q = (1-t)/2 is the distance from the apex."""
    r, s, t = p
    q = (1 - t) / 2
    N = [q / 4 * (1 + a * r) * (1 + b * s) * (-1 + q * a * r + q * b * s) for a, b in _q8[:4]]
    N.append((1 - q) * (1 - 2 * q))
    N += [q * q / 2 * (1 - s) * (1 - r * r), q * q / 2 * (1 + r) * (1 - s * s), q * q / 2 * (1 + s) * (1 - r * r), q * q / 2 * (1 - r) * (1 - s * s)]
    N += [q * (1 - q) * (1 + a * r) * (1 + b * s) for a, b in _q8[:4]]
    return np.array(N)


def collapse(f, order, n):
    def g(p):
        h = f(p)
        N = np.zeros(n, dtype=h.dtype)
        for j, i in enumerate(order):
            N[i] += h[j]
        return N
    return g


COLL = {TRI3: collapse(s_sq4, [0, 1, 2, 2], 3), TET4: collapse(s_hex8, [0, 1, 2, 2, 3, 3, 3, 3], 4), PYR5: collapse(s_hex8, [0, 1, 2, 3, 4, 4, 4, 4], 5),
        PRI6: collapse(s_hex8, [0, 1, 2, 2, 3, 4, 5, 5], 6),
        PYR13: collapse(s_hex20, [0, 1, 2, 3, 4, 4, 4, 4, 5, 6, 7, 8, 4, 4, 4, 4, 9, 10, 11, 12], 13)}
SHAPE = {LINE2: s_line2, LINE3: s_line3, TRI3: s_tri3, TRI6: s_tri6, SQ4: s_sq4, SQ8: s_sq8, TET4: s_tet4, TET10: s_tet10, PYR5: COLL[PYR5], PYR13: s_pyr13,
         PRI6: s_pri6, PRI15: s_pri15, HEX8: s_hex8, HEX20: s_hex20}


def tensor(k, dim):
    x, w = np.polynomial.legendre.leggauss(k)
    P, W = [], []
    for idx in itertools.product(range(k), repeat=dim):
        P.append([x[i] for i in idx])
        W.append(np.prod([w[i] for i in idx]))
    return np.array(P), np.array(W)


def quadrature(code, n):
    """(shape function, points, weights)."""
    dim = DIM[code]
    if code in (LINE2, LINE3, SQ4, SQ8, HEX8, HEX20):
        k = round(n ** (1. / dim))
        assert k ** dim == n
        return (SHAPE[code],) + tensor(k, dim)
    if code in COLL and (code, n) in ((TRI3, 4), (TET4, 8), (PYR5, 8), (PRI6, 8), (PYR13, 27)):
        return (COLL[code],) + tensor(round(n ** (1. / dim)), dim)
    if code in (TRI3, TRI6) and n == 6:
        a, wa, b, wb = .445948490915965, .223381589678011, .091576213509771, .109951743655322
        P = [(a, a), (1 - 2 * a, a), (a, 1 - 2 * a), (b, b), (1 - 2 * b, b), (b, 1 - 2 * b)]
        return SHAPE[code], np.array(P), np.array([wa] * 3 + [wb] * 3) / 2
    if code in (PRI6, PRI15) and n == 9:
        x, w = np.polynomial.legendre.leggauss(3)
        P = [(r, s, t) for (r, s) in ((1 / 6., 1 / 6.), (2 / 3., 1 / 6.), (1 / 6., 2 / 3.)) for t in x]
        return SHAPE[code], np.array(P), np.array([v / 6 for _ in range(3) for v in w])
    if code == TET10 and n == 15:
        P = [(.25, .25, .25)]; W = [.1817020685825351]
        a = 1 / 3.; P += [(a, a, a), (0, a, a), (a, 0, a), (a, a, 0)]; W += [.0361607142857143] * 4
        a, b = 1 / 11., 8 / 11.; P += [(a, a, a), (b, a, a), (a, b, a), (a, a, b)]; W += [.0698714945161738] * 4
        a = .0665501535736643; b = .5 - a
        P += [(b, a, a), (a, b, a), (a, a, b), (a, b, b), (b, a, b), (b, b, a)]; W += [.0656948493683187] * 6
        return SHAPE[code], np.array(P), np.array(W) / 6
    if code == PYR13 and n == 14:
        v1, v2, w1, w2 = .758786910639329015, .795822425754222018, .335180055401662, .886426592797784
        P = [tuple(v1 * c for c in q) for q in _c8]; W = [w1] * 8
        for d in range(3):
            for sg in (-1, 1):
                q = [0, 0, 0]; q[d] = sg * v2
                P.append(tuple(q)); W.append(w2)
        return s_pyr13, np.array(P), np.array(W)
    raise KeyError((code, n))


_cache = {}


def rule(code, n):
    """N[g,n], dN[g,n,d], w[g]; derivatives by complex step (exact to rounding)."""
    if (code, n) not in _cache:
        f, P, W = quadrature(code, n)
        d = P.shape[1]
        N = np.array([f(tuple(p)) for p in P])
        dN = np.zeros(N.shape + (d,))
        for k in range(d):
            for g, p in enumerate(P):
                q = np.array(p, dtype=complex)
                q[k] += 1e-30j
                dN[g, :, k] = f(tuple(q)).imag / 1e-30
        _cache[code, n] = (N, dN, W)
    return _cache[code, n]


def groups(et):
    g = {}
    for e, t in enumerate(et):
        g.setdefault(t, []).append(e)
    return g


class Block:
    """All elements of one type: geometry at Gauss points."""

    def __init__(self, X, code, elems, nodes, ngp, dim):
        self.code, self.e, self.nodes, self.dim = code, np.array(elems), np.array(nodes), dim
        N, dN, w = rule(code, ngp)
        self.N = N
        xe = X[self.nodes][:, :, :dim]
        self.x = np.einsum("gn,enj->egj", N, xe)
        J = np.einsum("gni,enj->egij", dN, xe)
        if DIM[code] == dim:
            self.det = np.linalg.det(J)
            self.w = w[None] * self.det
            self.dN = np.einsum("egji,gni->egnj", np.linalg.inv(J), dN)
        else:  # boundary element
            if dim == 3:
                n = np.cross(J[:, :, 0], J[:, :, 1])
            else:
                t = J[:, :, 0]
                n = np.stack([-t[..., 1], t[..., 0]], -1)
            l = np.linalg.norm(n, axis=-1)
            self.normal = n / l[..., None]
            self.w = w[None] * l
            self.det = l


def blocks(X, et, en, gp, dim, sel=None):
    g = {}
    for e in (range(len(et)) if sel is None else sel):
        g.setdefault(et[e], []).append(e)
    return [Block(X, t, l, [en[e] for e in l], gp[t], dim) for t, l in sorted(g.items())]


def assemble(parts, n):
    """parts: [(dofs[e,m], K[e,m,m])] -> csr."""
    I, J, V = [], [], []
    for d, K in parts:
        m = d.shape[1]
        I.append(np.repeat(d, m, axis=1).ravel()); J.append(np.tile(d, (1, m)).ravel()); V.append(K.reshape(len(d), -1).ravel())
    return sp.csr_matrix((np.concatenate(V), (np.concatenate(I), np.concatenate(J))), shape=(n, n))


def addv(f, dofs, v):
    np.add.at(f, dofs, v)


def solve_dirichlet(K, f, fixed):
    """fixed: {dof: value}.  Direct solve with elimination."""
    n = K.shape[0]
    u = np.zeros(n)
    fd = np.array(sorted(fixed), dtype=int)
    if len(fd):
        u[fd] = [fixed[i] for i in fd]
    mask = np.ones(n, bool)
    mask[fd] = False
    free = np.nonzero(mask)[0]
    if len(free):
        b = f[free] - (K[free][:, fd] @ u[fd] if len(fd) else 0)
        u[free] = spl.spsolve(K[free][:, free].tocsc(), b)
    return u


# ------------------------------------------------------------------------------------------------ heat

def rotation(ax, ay, az):
    ax, ay, az = np.radians([ax, ay, az])
    cx, sx, cy, sy, cz, sz = np.cos(ax), np.sin(ax), np.cos(ay), np.sin(ay), np.cos(az), np.sin(az)
    Rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    Ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return Rz @ Ry @ Rx


KNAMES = ["KXX", "KYY", "KZZ", "KXY", "KXZ", "KYZ", "KYX", "KZX", "KZY"]


def conductivity(mat, env, shape, dim):
    """Conductivity tensor [e,g,dim,dim] of material mat (model, K.. values or callables, coordinate system)."""
    def val(k):
        v = mat["K"][k]
        v = v(env) if callable(v) else v
        return np.broadcast_to(np.asarray(v, float), shape)
    D = np.zeros(shape + (3, 3))
    m = mat["model"]
    ix = {"X": 0, "Y": 1, "Z": 2}
    if m == "ISOTROPIC":
        for i in range(dim): D[..., i, i] = val("KXX")
        return D[..., :dim, :dim]
    for k in KNAMES:
        if k not in mat["K"]: continue
        i, j = ix[k[1]], ix[k[2]]
        D[..., i, j] = val(k)
        if m == "SYMMETRIC": D[..., j, i] = val(k)
    D = D[..., :dim, :dim]
    cs = mat.get("cs")
    if cs:
        if cs[0] == "CARTESIAN":
            R = rotation(*cs[1])[:dim, :dim]
            D = R @ D @ R.T
        elif cs[0] == "CYLINDRICAL":
            c = cs[1]
            a = np.arctan2(env["Y"] - c[1], env["X"] - c[0])
            R = np.zeros(shape + (dim, dim))
            R[..., 0, 0] = np.cos(a); R[..., 0, 1] = -np.sin(a); R[..., 1, 0] = np.sin(a); R[..., 1, 1] = np.cos(a)
            if dim == 3: R[..., 2, 2] = 1
            D = R @ D @ np.swapaxes(R, -1, -2)
    return D


def genv(b, T=None, time=0.):
    env = {"X": b.x[..., 0], "Y": b.x[..., 1], "Z": b.x[..., 2] if b.dim == 3 else np.zeros(b.x.shape[:2]), "TIME": time}
    if T is not None:
        env["TEMPERATURE"] = np.einsum("gn,en->eg", b.N, T[b.nodes])
    return env


def ev(v, env, shape):
    v = v(env) if callable(v) else v
    return np.broadcast_to(np.asarray(v, float), shape)


def heat_system(X, bl, matof, mats, dim, T, time, sources=(), bnd=(), thick=1.0, axisym=False, mass=False):
    """bl: volume blocks; matof[e] -> material index; sources: [(element set mask, q)]; bnd: [(blocks, q)].
    Returns K, f (and M)."""
    n = len(X)
    parts, mparts = [], []
    f = np.zeros(n)
    for b in bl:
        env = genv(b, T, time)
        sh = b.x.shape[:2]
        mi = np.array([matof[e] for e in b.e])
        D = np.zeros(sh + (dim, dim)); rc = np.zeros(sh)
        for m in set(mi.tolist()):
            s = mi == m
            es = {k: (v[s] if isinstance(v, np.ndarray) else v) for k, v in env.items()}
            D[s] = conductivity(mats[m], es, (int(s.sum()), sh[1]), dim)
            if mass:
                rc[s] = ev(mats[m]["dens"], es, (int(s.sum()), sh[1])) * ev(mats[m].get("cp", 1.), es, (int(s.sum()), sh[1]))
        scale = thick
        if axisym: scale = 2 * np.pi * b.x[..., 0]
        w = b.w * scale
        parts.append((b.nodes, np.einsum("eg,egni,egij,egmj->enm", w, b.dN, D, b.dN)))
        if mass:
            mparts.append((b.nodes, np.einsum("eg,eg,gn,gm->enm", w, rc, b.N, b.N)))
        for mask, q in sources:
            s = mask[b.e]
            if s.any():
                qv = ev(q, env, sh)
                addv(f, b.nodes[s], np.einsum("eg,eg,gn->en", b.w[s], qv[s], b.N))
        b.D = D
    for bb, q in bnd:
        for b in bb:
            env = genv(b, T, time)
            qv = ev(q, env, b.x.shape[:2])
            scale = 2 * np.pi * b.x[..., 0] if axisym else thick
            addv(f, b.nodes, np.einsum("eg,eg,gn->en", b.w * scale, qv, b.N))
    K = assemble(parts, n)
    return (K, f, assemble(mparts, n)) if mass else (K, f)


def heat_outputs(bl, T, ne, dim):
    """GRADIENT and FLUX per element: means over Gauss points."""
    G = np.zeros((ne, dim)); F = np.zeros((ne, dim))
    for b in bl:
        g = np.einsum("egni,en->egi", b.dN, T[b.nodes])
        G[b.e] = g.mean(1)
        F[b.e] = np.einsum("egij,egj->egi", b.D, g).mean(1)
    return G, F


# ------------------------------------------------------------------------------------------------ elasticity

def elastic_C(E, nu, dim, behaviour):
    """Constitutive matrix [...,s,s]; Voigt order 11,22,33,12,23,13 (3D), 11,22,12 (plane), 11,22,33,12 (axisymmetric)."""
    sh = E.shape
    if dim == 3 or behaviour == "AXISYMMETRIC":
        lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
        n = 6 if dim == 3 else 4
        C = np.zeros(sh + (n, n))
        C[..., :3, :3] = lam[..., None, None]
        for i in range(3): C[..., i, i] += 2 * mu
        for i in range(3, n): C[..., i, i] = mu
        return C
    C = np.zeros(sh + (3, 3))
    if behaviour == "PLANE_STRAIN":
        lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    else:
        lam, mu = E * nu / (1 - nu * nu), E / (2 * (1 + nu))
    C[..., :2, :2] = lam[..., None, None]
    for i in range(2): C[..., i, i] += 2 * mu
    C[..., 2, 2] = mu
    return C


def strain_B(b, dN, N, x, dim, behaviour):
    """B[e,g,s,n*dim] with dofs ordered node-major."""
    e, g, n = dN.shape[:3]
    if dim == 3:
        B = np.zeros((e, g, 6, n, 3))
        B[:, :, 0, :, 0] = dN[..., 0]; B[:, :, 1, :, 1] = dN[..., 1]; B[:, :, 2, :, 2] = dN[..., 2]
        B[:, :, 3, :, 0] = dN[..., 1]; B[:, :, 3, :, 1] = dN[..., 0]
        B[:, :, 4, :, 1] = dN[..., 2]; B[:, :, 4, :, 2] = dN[..., 1]
        B[:, :, 5, :, 0] = dN[..., 2]; B[:, :, 5, :, 2] = dN[..., 0]
    else:
        ax = behaviour == "AXISYMMETRIC"
        B = np.zeros((e, g, 4 if ax else 3, n, 2))
        B[:, :, 0, :, 0] = dN[..., 0]; B[:, :, 1, :, 1] = dN[..., 1]
        B[:, :, -1, :, 0] = dN[..., 1]; B[:, :, -1, :, 1] = dN[..., 0]
        if ax: B[:, :, 2, :, 0] = N[None] / x[..., 0][..., None]
    return B.reshape(e, g, B.shape[2], n * dim)


def dofs(nodes, dim):
    return (nodes[:, :, None] * dim + np.arange(dim)).reshape(len(nodes), -1)


def by_material(matof, mats, key, b, env):
    """Property at Gauss points [e,g] of a block with several materials."""
    sh = b.x.shape[:2]
    mi = np.array([matof[e] for e in b.e])
    out = np.zeros(sh)
    for m in set(mi.tolist()):
        s = mi == m
        es = {k: (v[s] if isinstance(v, np.ndarray) else v) for k, v in env.items()}
        out[s] = ev(mats[m][key], es, (int(s.sum()), sh[1]))
    return out


def struct_system(X, bl, matof, mats, dim, behaviour, time, acc=(), omega=(), bnd=(), nodal=(), mass=False):
    """acc/omega: [(mask, (a_x,a_y,a_z))]; bnd: [(blocks, kind, value, direction)] kind 'p' (vector pressure) or 'n' (normal pressure, compressive);
    nodal: [(nodes, (fx,fy,fz))].  Returns K, f[, M]."""
    n = len(X) * dim
    f = np.zeros(n)
    parts, mparts = [], []
    ax = behaviour == "AXISYMMETRIC" and dim == 2
    for b in bl:
        env = genv(b, None, time)
        sh = b.x.shape[:2]
        E, nu, rho = (by_material(matof, mats, k, b, env) for k in ("E", "nu", "dens"))
        C = elastic_C(E, nu, dim, behaviour)
        B = strain_B(b, b.dN, b.N, b.x, dim, behaviour)
        w = b.w * (2 * np.pi * b.x[..., 0] if ax else 1.)
        parts.append((dofs(b.nodes, dim), np.einsum("eg,egsi,egst,egtj->eij", w, B, C, B, optimize=True)))
        if mass:
            mm = np.einsum("eg,eg,gn,gm->enm", w, rho, b.N, b.N)
            parts_m = np.zeros((sh[0], b.nodes.shape[1], dim, b.nodes.shape[1], dim))
            for d in range(dim): parts_m[:, :, d, :, d] = mm
            mparts.append((dofs(b.nodes, dim), parts_m.reshape(sh[0], dim * b.nodes.shape[1], -1)))
        b.C = C
        for mask, a in acc:
            s = mask[b.e]
            for d in range(dim):
                if a[d] is None: continue
                v = ev(a[d], env, sh)
                addv(f, b.nodes[s] * dim + d, np.einsum("eg,eg,eg,gn->en", w[s], rho[s], v[s], b.N))
        for mask, o in omega:
            s = mask[b.e]
            o = [ev(v, env, sh) if v is not None else np.zeros(sh) for v in o]
            x = np.concatenate([b.x, np.zeros(sh + (1,))], -1) if dim == 2 else b.x
            for d in range(dim):
                if ax:
                    o2 = o[1] ** 2 if d == 0 else np.zeros(sh)
                elif dim == 2:
                    o2 = o[2] ** 2
                else:
                    o2 = sum(o[k] ** 2 for k in range(3) if k != d)
                addv(f, b.nodes[s] * dim + d, np.einsum("eg,eg,eg,gn->en", w[s], rho[s], (o2 * x[..., d])[s], b.N))
    for bb, kind, val, dr in bnd:
        for b in bb:
            env = genv(b, None, time)
            sh = b.x.shape[:2]
            p = ev(val, env, sh)
            w = b.w * (2 * np.pi * b.x[..., 0] if ax else 1.)
            for d in range(dim):
                if kind == "n":
                    v = -p * b.normal[..., d] * b.orient[:, None]
                else:
                    if dr[d] is None: continue
                    v = p * ev(dr[d], env, sh)
                addv(f, b.nodes * dim + d, np.einsum("eg,eg,gn->en", w, v, b.N))
    for nodes, F in nodal:
        nodes = np.array(nodes)
        env = {"X": X[nodes, 0], "Y": X[nodes, 1], "Z": X[nodes, 2], "TIME": time}
        for d in range(dim):
            if F[d] is not None: f[nodes * dim + d] += ev(F[d], env, (len(nodes),))
    K = assemble(parts, n)
    return (K, f, assemble(mparts, n)) if mass else (K, f)


def struct_fields(b, u, dim, C, grad):
    """Stress/strain tensors at points: grad[e,g,i,j] = du_i/dX_j.  Green-Lagrange strain, S = C:E."""
    F = grad + np.eye(dim)
    E = .5 * (np.swapaxes(F, -1, -2) @ F - np.eye(dim))
    ij = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)] if dim == 3 else [(0, 0), (1, 1), (0, 1)]
    v = np.stack([E[..., i, j] * (1 if i == j else 2) for i, j in ij], -1)
    s = np.einsum("egst,egt->egs", C, v)
    S = np.zeros_like(E)
    for k, (i, j) in enumerate(ij): S[..., i, j] = S[..., j, i] = s[..., k]
    return S, E, ij


def mises(w, dim):
    if dim == 2: return np.sqrt(.5 * (w[..., 0] - w[..., 1]) ** 2)
    return np.sqrt(.5 * ((w[..., 0] - w[..., 1]) ** 2 + (w[..., 1] - w[..., 2]) ** 2 + (w[..., 2] - w[..., 0]) ** 2))


def struct_outputs(bl, u, ne, dim, nuof):
    """Per element means over Gauss points of component/principal/von Mises stress and strain."""
    nc = 6 if dim == 3 else 3
    o = {k: np.zeros((ne, n)) for k, n in (("COMPONENT_STRESS", nc), ("COMPONENT_STRAIN", nc), ("PRINCIPAL_STRESS", dim), ("PRINCIPAL_STRAIN", dim),
                                          ("VON_MISES_STRESS", 1), ("VON_MISES_STRAIN", 1))}
    U = u.reshape(-1, dim)
    for b in bl:
        grad = np.einsum("egnj,eni->egij", b.dN, U[b.nodes])
        S, E, ij = struct_fields(b, u, dim, b.C, grad)
        for nm, A in (("STRESS", S), ("STRAIN", E)):
            w = np.linalg.eigvalsh(A)[..., ::-1]
            o["COMPONENT_" + nm][b.e] = np.stack([A[..., i, j].mean(1) for i, j in ij], -1)
            o["PRINCIPAL_" + nm][b.e] = w.mean(1)
            vm = mises(w, dim)
            if nm == "STRAIN": vm = vm / (1 + nuof(b))
            o["VON_MISES_" + nm][b.e, 0] = vm.mean(1)
    return o
