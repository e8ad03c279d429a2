"""C03: what mesio stores (the converted database) is the mesh it was given."""
import os, random, re, glob, shutil, struct
import numpy as np
from scipy.spatial import cKDTree
import common, meshcase, mesh as M

REFUSE = re.compile(r"process without any elements detected|adjncy is NULL")
INFMT = {"vtk": "VTK_LEGACY", "ensight": "ENSIGHT", "ansys": "ANSYS_CDB", "netgen": "NETGEN"}


def canon_face(code, n):
    """A boundary element regardless of the rotation/orientation it is stored with."""
    return code, tuple(sorted(n))


def read_netgen(path):
    L = open(path).read().split("\n")
    n = int(L[0])
    X = np.array([[float(v) for v in l.split()] for l in L[1:1 + n]]).reshape(n, 3)
    p = 1 + n
    k = int(L[p]); p += 1
    el = [tuple(map(int, l.split())) for l in L[p:p + k]]; p += k
    b = int(L[p]); p += 1
    bn = [tuple(map(int, l.split())) for l in L[p:p + b]]; p += b
    assert not "".join(L[p:]).strip(), "trailing text"
    assert all(len(e) == 5 for e in el) and all(len(e) == 4 for e in bn), "malformed rows"
    return X, el, bn


def read_out(rd, name, fmt):
    """-> {region: (points, cells)}"""
    if fmt == "VTK_LEGACY":
        out = {}
        for f in glob.glob(os.path.join(rd, glob.escape(name) + ".*.vtk")):
            v = M.read_vtk(f)
            out[os.path.basename(f)[len(name) + 1:-4]] = (v["points"], v["cells"])
        return out
    cs = open(os.path.join(rd, name + ".case")).read()
    geo = os.path.join(rd, re.search(r"model:\s*(\S+)", cs).group(1))
    parts = M.read_ensight_geo(geo)
    nums = [p["num"] for p in parts]
    assert nums == list(range(1, len(parts) + 1)), "part numbers %s" % nums
    assert len({p["name"] for p in parts}) == len(parts), "part names repeat"
    return {p["name"]: (p["points"], p["cells"]) for p in parts}


def judge(m, regs, fmt):
    bad = []
    used = sorted({q for n in m.en for q in n})
    ext = np.abs(m.X[used]).max()
    tol = (6e-6 if fmt == "VTK_LEGACY" else 1.2e-7) * ext + 1e-9
    tree = cKDTree(m.X[used])
    used = np.array(used)
    got = {}
    for r, (P, cells) in regs.items():
        if not len(P):
            got[r] = ([], [])
            continue
        d, i = tree.query(P)
        if d.max() > tol * 2:
            bad.append(("coordinates", "region %s stores a node at %s which is %.3g from any node of the mesh" % (r, P[d.argmax()], d.max())))
            continue
        i = used[i]
        if len(set(i.tolist())) != len(i):
            bad.append(("nodes-dup", "region %s stores a node more than once" % r))
        if any(q < 0 or q >= len(P) for c, n in cells for q in n):
            bad.append(("connectivity", "region %s: element refers to a node that is not stored" % r))
            continue
        got[r] = (i.tolist(), [(c, tuple(int(i[q]) for q in n)) for c, n in cells])
    def nodes_of(cells): return {q for c, n in cells for q in n}
    named = set()
    for r, l in m.eregs.items():
        exp = sorted((m.et[e], tuple(m.en[e])) for e in set(l))
        named |= set(l)
        if r not in regs:
            bad.append(("eregion-missing", "element region %s is not stored (stored: %s)" % (r, sorted(regs))))
        elif r in got:
            if sorted(got[r][1]) != exp:
                bad.append(("eregion", "element region %s: %d stored elements differ from the %d given (%d in common)" % (r, len(got[r][1]), len(exp), len(set(got[r][1]) & set(exp)))))
            if set(got[r][0]) != nodes_of(exp):
                bad.append(("eregion-nodes", "element region %s stores %d nodes, its elements have %d" % (r, len(got[r][0]), len(nodes_of(exp)))))
    rest = [e for e in range(m.ne) if e not in named]
    if rest or "NAMELESS_ELEMENT_SET" in regs:
        exp = sorted((m.et[e], tuple(m.en[e])) for e in rest)
        if "NAMELESS_ELEMENT_SET" not in regs or ("NAMELESS_ELEMENT_SET" in got and sorted(got["NAMELESS_ELEMENT_SET"][1]) != exp):
            bad.append(("eregion-nameless", "%d elements belong to no region; stored %s" % (len(rest), len(got.get("NAMELESS_ELEMENT_SET", ([], []))[1]))))
    for r, l in m.fregs.items():
        exp = sorted({canon_face(c, n) for c, n in l})
        if r not in regs:
            bad.append(("fregion-missing", "boundary region %s is not stored (stored: %s)" % (r, sorted(regs))))
        elif r in got:
            g = sorted(canon_face(c, n) for c, n in got[r][1])
            if g != exp:
                bad.append(("fregion", "boundary region %s: %d stored faces differ from the %d given" % (r, len(g), len(exp))))
            if set(got[r][0]) != nodes_of(exp):
                bad.append(("fregion-nodes", "boundary region %s stores %d nodes, its faces have %d" % (r, len(got[r][0]), len(nodes_of(exp)))))
    for r, l in m.nregs.items():
        exp = sorted(set(l))
        if r not in regs:
            if exp: bad.append(("nregion-missing", "node region %s is not stored (stored: %s)" % (r, sorted(regs))))
        elif r in got:
            if sorted(got[r][0]) != exp:
                bad.append(("nregion", "node region %s stores %d nodes, %d given" % (r, len(got[r][0]), len(exp))))
            if sorted(n[0] for c, n in got[r][1] if len(n) == 1) != exp or any(len(n) != 1 for c, n in got[r][1]):
                bad.append(("nregion-cells", "node region %s: stored cells are not one point per node" % r))
    if "SURFACE" in got and "SURFACE" not in m.fregs:
        exp = sorted(canon_face(M.face_code(len(n)), n) for e, n in m.boundary_faces())
        g = sorted(canon_face(M.LIN.get(c, c), n[:M.COARSE[c]]) for c, n in got["SURFACE"][1])
        if g != exp:
            bad.append(("surface", "stored SURFACE has %d faces, the mesh has %d outer faces" % (len(g), len(exp))))
    allowed = set(m.eregs) | set(m.fregs) | set(m.nregs) | {"SURFACE", "NAMELESS_ELEMENT_SET", "ALL_ELEMENTS", "ALL_NODES"}
    extra = [r for r in regs if r not in allowed]
    if extra:
        bad.append(("region-extra", "stored regions that were not given: %s" % extra))
    return bad


def judge_netgen(m, out):
    X, el, bn = out
    bad = []
    used = np.array(sorted({q for n in m.en for q in n}))
    d, i = cKDTree(m.X[used]).query(X)
    if d.max() > 1.2e-5 * max(1, np.abs(m.X).max()):
        return [("netgen-coordinates", "a stored node is %.3g from any node of the mesh" % d.max())]
    i = used[i]
    if sorted(i.tolist()) != used.tolist():
        bad.append(("netgen-nodes", "%d stored nodes, mesh has %d" % (len(i), len(used))))
    if any(q < 1 or q > len(X) for r in el + bn for q in r[1:]):
        return bad + [("netgen-connectivity", "an element refers to a node that is not stored")]
    grp = {}
    for r in el: grp.setdefault(r[0], []).append(tuple(int(i[q - 1]) for q in r[1:]))
    exp = [sorted(tuple(m.en[e]) for e in set(l)) for l in m.eregs.values()]
    named = {e for l in m.eregs.values() for e in l}
    rest = sorted(tuple(m.en[e]) for e in range(m.ne) if e not in named)
    if rest: exp.append(rest)
    if sorted(sorted(l) for l in grp.values()) != sorted(e for e in exp if e):
        bad.append(("netgen-regions", "stored element groups %s, regions %s" % (sorted(map(len, grp.values())), sorted(map(len, exp)))))
    fg = {}
    for r in bn: fg.setdefault(r[0], []).append(tuple(sorted(int(i[q - 1]) for q in r[1:])))
    exp = [sorted({tuple(sorted(n)) for c, n in l}) for l in m.fregs.values()]
    got = sorted(sorted(l) for l in fg.values())
    surf = sorted(tuple(sorted(n)) for e, n in m.boundary_faces())
    if got != sorted(e for e in exp if e) and got != sorted([e for e in exp if e] + [surf]):
        bad.append(("netgen-boundary", "stored boundary groups %s, regions %s" % (sorted(map(len, got)), sorted(map(len, exp)))))
    return bad


def conversion(rng, d, size):
    """Write a random source database and the configuration converting it -> (case, format, name, description)."""
    out = rng.choice(["ENSIGHT", "VTK_LEGACY", "ENSIGHT", "VTK_LEGACY", "NETGEN"])
    c = meshcase.make(rng, d, size=size, formats=("netgen", "netgen", "vtk", "ensight") if out == "NETGEN" else ("vtk", "ensight", "ansys", "netgen"))
    if out == "NETGEN" and (c.fmt != "netgen" or c.opts):
        out = "ENSIGHT"
    e = {"INPUT_TYPE": "EXTERNAL_FILE", "INPUT": dict(c.ecf["INPUT"], FORMAT=INFMT[c.fmt], PATH=c.path)}
    e["INPUT"]["DECOMPOSITION"] = dict(e["INPUT"].get("DECOMPOSITION", {}), PARALLEL_DECOMPOSER=meshcase.DEC[c.dec], DOMAINS=c.domains)
    o = {"FORMAT": out, "PATH": "results", "WRITER": rng.choice(["MPI", "MPI_COLLECTIVE"])}
    if rng.random() < .5:
        o["STRIPE_SIZE"] = rng.choice([512, 4096, 65536, 1048576])
        o["STRIPE_COUNT"] = rng.choice([0, 1, 2, 3])
    e["OUTPUT"] = o
    name = rng.choice(["x", "convert.me", "Mesh_1"])
    open(os.path.join(d, name + ".ecf"), "w").write(common.ecf(e))
    return c, out, name, "%s -> %s %s" % (c.desc, out, o)


def run(ck):
    ck.rule = "one conversion (source format x target format x ranks x threads x decomposition x writer); distinct by description"
    ck.assumptions = ["oracle: the generator's own mesh, compared with the stored files by readers that share no code with the repository",
                      "VTK legacy and Netgen outputs are compared to the precision they are printed with"]
    base = ck.rng.randrange(10 ** 9)
    N = ck.n(150, 1500)

    def one(i):
        d = ck.casedir()
        c, out, name, desc = conversion(random.Random(base + i), d, 4 if i % 8 else 7)
        r = common.run_twice(lambda: common.run_mpi(d, c.np, [common.BUILD + "/mesio", "-c", name + ".ecf"], threads=c.threads))
        if not r.ok:
            if REFUSE.search(r.out + r.err):
                ck.count(refused=1)
                return
            ck.case(desc)
            ck.violate("convert-failed-" + c.fmt + "-" + out + ("-crash" if common.crashed(r) else ""), "%s: %s" % (desc, r.errmsg()), d)
            return
        rd = os.path.realpath(os.path.join(d, "results", "last"))
        ck.case(desc, sample=desc)
        try:
            if out == "NETGEN":
                bad = judge_netgen(c.mesh, read_netgen(os.path.join(rd, name + ".mesh")))
            else:
                regs = read_out(rd, name, out)
                bad = judge(c.mesh, regs, out)
                ck.count(regions=len(regs), cells=sum(len(x[1]) for x in regs.values()), points=sum(len(x[0]) for x in regs.values()))
        except (AssertionError, ValueError, KeyError, IndexError, OSError, UnicodeDecodeError, struct.error) as x:
            bad = [("unreadable-" + out, "the stored database cannot be read: %s: %s" % (type(x).__name__, x))]
        ck.count(**{c.fmt + "_to_" + out: 1, "elements": c.mesh.ne})
        for k, v in bad:
            ck.violate(k, "%s: %s" % (desc, v), d)
        if not bad:
            shutil.rmtree(d, ignore_errors=True)

    ck.pmap(one, range(N))
    if ck.counters.get("refused", 0) > N // 5:
        ck.violate("too-many-refusals", "%d of %d conversions were refused" % (ck.counters["refused"], N))


if __name__ == "__main__":
    common.main("C03", run)
