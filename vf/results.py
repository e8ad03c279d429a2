"""Independent readers of what a run left on disk: EnSight Gold results and monitor (.emr) tables."""
import os, glob, re, struct
import numpy as np
from scipy.spatial import cKDTree
import mesh as M


def run_dir(d):
    l = os.path.join(d, "results", "last")
    return os.path.realpath(l)


class Ensight:
    def __init__(self, rd):
        self.rd = rd
        cs = glob.glob(os.path.join(rd, "*.case"))
        assert len(cs) == 1, cs
        txt = open(cs[0]).read()
        self.geo = os.path.join(rd, re.search(r"model:\s*(\S+)", txt).group(1))
        self.vars = {}
        for k, where, ts, name, f in re.findall(r"(scalar|vector|tensor symm|tensor asym) per (node|element):\s*(\d*)\s+(\S+)\s+(\S+)", txt):
            self.vars[name] = (k, where, f)
        m = re.search(r"number of steps:\s*(\d+)", txt)
        self.steps = int(m.group(1)) if m else 0
        m = re.search(r"time values:\s*([-0-9.eE+\s]*)", txt)
        self.times = [float(v) for v in m.group(1).split()] if m else []
        self.parts = M.read_ensight_geo(self.geo)

    def raw(self, name, step=1):
        """[per part: node values [n,c] or element values in cell order]"""
        kind, where, f = self.vars[name]
        f = f.replace("****", "%04d" % step)
        b = open(os.path.join(self.rd, f), "rb").read()
        c = {"scalar": 1, "vector": 3, "tensor symm": 6, "tensor asym": 9}[kind]
        pos = 80
        byn = {p["num"]: p for p in self.parts}
        out = {}
        while pos < len(b):
            assert b[pos:pos + 4] == b"part", b[pos:pos + 80]
            num, = struct.unpack_from("<i", b, pos + 80)
            pos += 84
            p = byn[num]
            if where == "node":
                assert b[pos:pos + 11] == b"coordinates"
                pos += 80
                n = len(p["points"])
                out[num] = np.frombuffer(b, "<f4", n * c, pos).astype(float).reshape(c, n).T
                pos += 4 * n * c
            else:
                v = np.zeros((len(p["cells"]), c))
                i = 0
                while pos < len(b) and b[pos:pos + 4] != b"part":
                    code = M.ENSINV[b[pos:pos + 80].split(b"\0")[0].decode().strip()]
                    pos += 80
                    n = 0
                    while i + n < len(p["cells"]) and p["cells"][i + n][0] == code: n += 1
                    v[i:i + n] = np.frombuffer(b, "<f4", n * c, pos).astype(float).reshape(c, n).T
                    pos += 4 * n * c
                    i += n
                assert i == len(p["cells"])
                out[num] = v
        return out


class Mapped:
    """Results attached to the nodes/elements of a known mesh (matched by coordinates)."""

    def __init__(self, ens, X, et, en, tol=None):
        self.e = ens
        X = np.asarray(X, float)
        ext = max(1e-30, np.ptp(X, axis=0).max())
        self.X = X
        tol = tol or 1e-6 * max(ext, np.abs(X).max()) * 2
        tree = cKDTree(X)
        self.nm = {}
        self.bad = []
        for p in ens.parts:
            if not len(p["points"]):
                self.nm[p["num"]] = np.zeros(0, int); continue
            d, i = tree.query(p["points"])
            if d.max() > tol:
                self.bad.append("part %s holds a node at %s, %.3g from any node of the mesh" % (p["name"], p["points"][d.argmax()], d.max()))
            self.nm[p["num"]] = i
        self.eid = {tuple(sorted(n)): k for k, n in enumerate(en)}
        self.ne = len(en)

    def node(self, name, step=1):
        """values [nn,c] (nan where absent) and list of inconsistencies between parts."""
        raw = self.e.raw(name, step)
        c = next(iter(raw.values())).shape[1]
        V = np.full((len(self.X), c), np.nan)
        bad = []
        for num, v in raw.items():
            i = self.nm[num]
            old = V[i]
            m = ~np.isnan(old)
            if m.any() and not np.array_equal(old[m], v[m]):
                bad.append("parts disagree on %s" % name)
            V[i] = v
        return V, bad

    def elem(self, name, step=1):
        raw = self.e.raw(name, step)
        c = next(iter(raw.values())).shape[1]
        V = np.full((self.ne, c), np.nan)
        bad = []
        for p in self.e.parts:
            if p["num"] not in raw: continue
            i = self.nm[p["num"]]
            for (code, n), v in zip(p["cells"], raw[p["num"]]):
                if M.DIM[code] == 0: continue
                k = self.eid.get(tuple(sorted(i[list(n)])))
                if k is None: continue
                V[k] = v
        return V, bad


def emr(rd):
    """-> header [(region, property, stat)], rows [(loadstep, substep, time, [values])]"""
    f = glob.glob(os.path.join(rd, "*.emr"))
    assert len(f) == 1, f
    L = [l for l in open(f[0]).read().split("\n")]
    h = [[x.strip() for x in l.split(";")][3:-1] for l in L[:3]]
    cols = list(zip(*h))
    rows = []
    for l in L[3:]:
        if not l.strip(): continue
        v = [x.strip() for x in l.split(";")]
        rows.append((int(v[0]), int(v[1]), float(v[2]), [float(x) for x in v[3:] if x]))
    return cols, rows
