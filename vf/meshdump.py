"""Parse dumps of harness/meshdump and the oracles over them."""
import numpy as np
import mesh as M


class Rank:
    pass


def load(prefix, np_):
    out = []
    for r in range(np_):
        R = Rank()
        R.eregs, R.bregs = [], []
        R.ec = {}
        cur = None
        ok = False
        for line in open("%s.%d" % (prefix, r)):
            w = line.split()
            k = w[0]
            if k == "nodes":
                R.nhalo, R.noff, R.nsize, R.ntot = map(int, w[1:])
            elif k == "coo":
                R.X = np.array(w[2:], float).reshape(-1, 3)
            elif k == "elements":
                R.eoff, R.esize, R.etot = map(int, w[1:])
            elif k == "bodies":
                R.bodies = int(w[1])
            elif k == "ecounter":
                R.ec[int(w[1])] = (int(w[2]), int(w[3]))
            elif k == "eregion":
                cur = {"name": line.rstrip("\n")[8:], "c": {}}
                R.eregs.append(cur)
            elif k == "bregion":
                cur = {"name": line.rstrip("\n")[8:], "c": {}}
                R.bregs.append(cur)
            elif k == "rcounter":
                cur["c"][int(w[1])] = (int(w[2]), int(w[3]))
            elif k == "bdim":
                cur["dim"], cur["size"] = int(w[1]), int(w[2])
            elif k == "rnodes":
                cur["ninfo"] = tuple(map(int, w[1:]))
            elif k in ("relems", "rnode", "rnpos", "btype", "bparent", "bdist", "bnode"):
                cur[k] = np.array(w[2:], int)
            elif k == "end":
                ok = True
            else:
                setattr(R, k, np.array(w[2:], int))
        assert ok, "incomplete dump"
        out.append(R)
    return out


def key_arrays(R, digits=4):
    return [tuple(v) for v in np.rint(R.X * 10 ** digits).astype(np.int64).tolist()]


def norm_face(nodes, code):
    """orientation/rotation independent key of a boundary element: corner set + all-nodes set"""
    c = M.COARSE[code]
    return (code, frozenset(nodes[:c]), frozenset(nodes[c:]))


def check_fidelity(m, ranks, digits=4, fmt=""):
    """Union of what the ranks report == the mesh database. Returns list of (key, message)."""
    bad = []
    X = m.keys(digits)
    used = sorted({q for n in m.en for q in n})
    exp_nodes = {X[q] for q in used}
    got = {}
    for r, R in enumerate(ranks):
        kk = key_arrays(R, digits)
        err = np.abs(R.X * 10 ** digits - np.array(kk)).max() if len(kk) else 0
        if err > 0.1:
            bad.append(("coordinates", "rank %d: coordinates off the lattice by %g" % (r, err)))
        for i in range(R.nhalo, R.nhalo + R.nsize):
            got.setdefault(kk[i], 0)
            got[kk[i]] += 1
    if set(got) != exp_nodes:
        bad.append(("nodes", "node sets differ: missing %d, extra %d" % (len(exp_nodes - set(got)), len(set(got) - exp_nodes))))
    if any(v != 1 for v in got.values()):
        bad.append(("nodes-dup", "%d nodes owned more than once" % sum(v != 1 for v in got.values())))
    if sum(R.nsize for R in ranks) != len(exp_nodes) or any(R.ntot != len(exp_nodes) for R in ranks):
        bad.append(("nodes-count", "node totals %s, expected %d" % ([R.ntot for R in ranks], len(exp_nodes))))
    # elements
    exp = {}
    for t, n in zip(m.et, m.en):
        k = (t, tuple(X[q] for q in n))
        exp[k] = exp.get(k, 0) + 1
    gotE = {}
    ekeys = []  # global index -> key
    for R in ranks:
        kk = key_arrays(R, digits)
        for e in range(R.esize):
            nodes = tuple(kk[q] for q in R.enode[R.edist[e]:R.edist[e + 1]])
            k = (int(R.etype[e]), nodes)
            gotE[k] = gotE.get(k, 0) + 1
            ekeys.append(k)
    if gotE != exp:
        mis = [k for k in exp if gotE.get(k, 0) != exp[k]]
        ext = [k for k in gotE if k not in exp]
        bad.append(("elements", "element multisets differ: %d missing/wrong multiplicity, %d unexpected (of %d); e.g. %s vs %s" % (
            len(mis), len(ext), len(exp), mis[:1], ext[:1])))
    # element regions
    exp_er = {r: sorted((m.et[e], tuple(X[q] for q in m.en[e])) for e in set(l)) for r, l in m.eregs.items()}
    got_er = {}
    off = 0
    for R in ranks:
        for reg in R.eregs:
            got_er.setdefault(reg["name"], []).extend(ekeys[off + e] for e in reg["relems"])
        off += R.esize
    for r, l in exp_er.items():
        if r not in got_er:
            bad.append(("eregion-missing", "element region %s lost (have %s)" % (r, sorted(got_er))))
        elif sorted(got_er[r]) != l:
            bad.append(("eregion", "element region %s: %d elements, expected %d" % (r, len(got_er[r]), len(l))))
    if "ALL_ELEMENTS" in got_er and sorted(got_er["ALL_ELEMENTS"]) != sorted(ekeys):
        bad.append(("eregion-all", "ALL_ELEMENTS does not contain each element once"))
    extra = [r for r in got_er if r not in exp_er and r not in ("ALL_ELEMENTS", "NAMELESS_ELEMENT_SET") and got_er[r]]
    if extra:
        bad.append(("eregion-extra", "unexpected element regions %s" % extra))
    nameless = set(ekeys) - {k for l in exp_er.values() for k in l}
    if nameless != set(got_er.get("NAMELESS_ELEMENT_SET", [])):
        bad.append(("eregion-nameless", "elements in no region: %d reported, %d expected" % (len(set(got_er.get("NAMELESS_ELEMENT_SET", []))), len(nameless))))
    # boundary regions
    gotF, gotN, dims = {}, {}, {}
    for R in ranks:
        kk = key_arrays(R, digits)
        for reg in R.bregs:
            dims.setdefault(reg["name"], set()).add(reg["dim"])
            if reg["dim"]:
                for e in range(reg["size"]):
                    nodes = [kk[q] for q in reg["bnode"][reg["bdist"][e]:reg["bdist"][e + 1]]]
                    gotF.setdefault(reg["name"], []).append(norm_face(nodes, int(reg["btype"][e])))
            h, o, s, t = reg["ninfo"]
            gotN.setdefault(reg["name"], []).extend(kk[q] for q in reg["rnode"][h:h + s])
    for r, l in m.fregs.items():
        e = {norm_face([X[q] for q in n], c) for c, n in l}
        if r not in dims:
            bad.append(("bregion-missing", "boundary region %s lost" % r))
            continue
        g = gotF.get(r, [])
        if len(g) != len(set(g)) or set(g) != e:
            bad.append(("bregion", "boundary region %s: %d elements (%d distinct), expected %d; missing %d extra %d" % (
                r, len(g), len(set(g)), len(e), len(e - set(g)), len(set(g) - e))))
        en = {X[q] for c, n in l for q in n}
        gn = gotN.get(r, [])
        if sorted(gn) != sorted(en):
            bad.append(("bregion-nodes", "nodes of boundary region %s: %d, expected %d" % (r, len(gn), len(en))))
    for r, l in m.nregs.items():
        e = sorted({X[q] for q in l})
        if r not in dims:
            bad.append(("nregion-missing", "node region %s lost" % r))
        elif sorted(gotN.get(r, [])) != e:
            bad.append(("nregion", "node region %s: %d nodes, expected %d" % (r, len(gotN.get(r, [])), len(e))))
    if "ALL_NODES" in dims and sorted(gotN["ALL_NODES"]) != sorted(exp_nodes):
        bad.append(("nregion-all", "ALL_NODES does not contain each node once"))
    extra = [r for r in dims if r not in m.fregs and r not in m.nregs and r not in ("ALL_NODES", "SURFACE") and (gotF.get(r) or gotN.get(r))]
    if extra:
        bad.append(("bregion-extra", "unexpected boundary regions %s" % extra))
    return bad


def check_consistency(ranks, reclustered=True):
    """Distributed-structure invariants that hold for every mesh and every number of ranks."""
    bad = []
    P = len(ranks)

    def b(k, msg):
        bad.append((k, msg))
    # process distributions
    off = 0
    for r, R in enumerate(ranks):
        if R.eoff != off:
            b("element-offset", "rank %d element offset %d, expected %d" % (r, R.eoff, off))
        off += R.esize
    if any(R.etot != off for R in ranks):
        b("element-total", "element totals %s, expected %d" % ([R.etot for R in ranks], off))
    off = 0
    for r, R in enumerate(ranks):
        if R.noff != off:
            b("node-offset", "rank %d node offset %d, expected %d" % (r, R.noff, off))
        off += R.nsize
    if any(R.ntot != off for R in ranks):
        b("node-total", "node totals %s, expected %d" % ([R.ntot for R in ranks], off))
    # node id <-> coordinates bijection, sharing, ownership, positions
    where = {}
    gpos = {}
    coo = {}
    for r, R in enumerate(ranks):
        n = R.nhalo + R.nsize
        ids = R.nid[:n].tolist()
        if len(set(ids)) != n:
            b("node-id-unique", "rank %d: repeated node ids" % r)
        for i, q in enumerate(ids):
            where.setdefault(q, []).append((r, i))
            c = tuple(R.X[i])
            if coo.setdefault(q, c) != c:
                b("node-coordinates", "node %d has different coordinates on different ranks" % q)
            if i >= R.nhalo:
                if q in gpos:
                    b("node-owner", "node %d owned twice" % q)
                gpos[q] = R.noff + i - R.nhalo
    for r, R in enumerate(ranks):
        n = R.nhalo + R.nsize
        for i in range(n):
            q = int(R.nid[i])
            rr = R.nrank[R.nrankdist[i]:R.nrankdist[i + 1]].tolist()
            if rr != [w[0] for w in where[q]]:
                b("node-ranks", "rank %d node %d lists ranks %s, present on %s" % (r, q, rr, [w[0] for w in where[q]]))
            own = rr[0] if rr else -1
            if (i >= R.nhalo) != (own == r):
                b("node-halo", "rank %d node %d (owner %d) on the wrong side of the halo" % (r, q, own))
            if gpos.get(q) != R.npos[i]:
                b("node-position", "rank %d node %d position %d, owner says %s" % (r, q, R.npos[i], gpos.get(q)))
    if len({c for c in coo.values()}) != len(coo):
        b("node-coordinates-unique", "distinct node ids share coordinates")
    # every local node used by a local element, all element nodes local
    elems = []
    for r, R in enumerate(ranks):
        n = R.nhalo + R.nsize
        if len(R.enode) and (R.enode.min() < 0 or R.enode.max() >= n):
            b("element-nodes", "rank %d element node index out of range" % r)
            return bad
        if reclustered and set(R.enode.tolist()) != set(range(n)):
            b("node-unused", "rank %d holds nodes that no local element uses" % r)
        for e in range(R.esize):
            nodes = R.enode[R.edist[e]:R.edist[e + 1]]
            if len(nodes) != M.NN[int(R.etype[e])]:
                b("element-size", "element with wrong number of nodes")
            elems.append((r, e, int(R.etype[e]), tuple(int(R.nid[q]) for q in nodes)))
    if not elems:
        b("empty", "no elements")
        return bad
    # dual graph
    faces = {}
    for g, (r, e, t, n) in enumerate(elems):
        lt = M.LIN.get(t, t)
        for k, f in enumerate(M.FACES[lt]):
            faces.setdefault(frozenset(n[i] for i in f), []).append(g)
    g = 0
    for r, R in enumerate(ranks):
        for e in range(R.esize):
            t, n = elems[g][2], elems[g][3]
            lt = M.LIN.get(t, t)
            exp = []
            for f in M.FACES[lt]:
                s = faces[frozenset(n[i] for i in f)]
                o = [q for q in s if q != g]
                exp.append(o[0] if len(o) else -1)
            got = R.neigh[R.neighdist[e]:R.neighdist[e + 1]].tolist()
            if sorted(got) != sorted(exp):
                b("neighbors", "element %d (%s): face neighbours %s, expected %s" % (g, M.NAMES[t], got, exp))
            g += 1
    # element domains: partition; ids contiguous globally, each rank a contiguous block, all non-empty
    last = 0
    for r, R in enumerate(ranks):
        ds = sorted(set(R.edom.tolist()))
        if R.esize and ds != list(range(last, last + len(ds))):
            b("domains", "rank %d has domains %s, expected a block from %d" % (r, ds, last))
        if len(R.edom) != R.esize or (R.esize and (np.diff(R.edom) < 0).any()):
            b("domains-order", "rank %d element domains not sorted / incomplete" % r)
        last += len(ds)
    # node domains = union of domains of elements containing the node, over all ranks
    if hasattr(ranks[0], "ndom"):
        nd = {}
        dom = np.concatenate([R.edom for R in ranks])
        for g, (r, e, t, n) in enumerate(elems):
            for q in n:
                nd.setdefault(q, set()).add(int(dom[g]))
        for r, R in enumerate(ranks):
            for i in range(R.nhalo + R.nsize):
                got = R.ndom[R.ndomdist[i]:R.ndomdist[i + 1]].tolist()
                if got != sorted(nd[int(R.nid[i])]):
                    b("node-domains", "rank %d node %d domains %s, expected %s" % (r, R.nid[i], got, sorted(nd[int(R.nid[i])])))
    # bodies: face-connected components
    par = list(range(len(elems)))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for s in faces.values():
        for q in s[1:]:
            par[find(q)] = find(s[0])
    comps = {find(i) for i in range(len(elems))}
    body = np.concatenate([R.ebody for R in ranks])
    c2b = {}
    for i in range(len(elems)):
        c2b.setdefault(find(i), set()).add(int(body[i]))
    if any(R.bodies != len(comps) for R in ranks):
        b("bodies-count", "bodies %s, face-connected components %d" % ([R.bodies for R in ranks], len(comps)))
    if any(len(v) != 1 for v in c2b.values()) or len({tuple(v) for v in c2b.values()}) != len(comps):
        b("bodies", "body labels do not match face-connected components")
    # counters per type
    def counters(get, types, what):
        for t in range(16):
            acc = 0
            tot = sum(sum(1 for x in types[r] if x == t) for r in range(P))
            for r in range(P):
                o, s = get(r)[t]
                mine = sum(1 for x in types[r] if x == t)
                if s != tot:
                    b("counter-total", "%s: type %d total %d, expected %d" % (what, t, s, tot))
                if mine and o != acc:
                    b("counter-offset", "%s: type %d rank %d offset %d, expected %d" % (what, t, r, o, acc))
                acc += mine
    counters(lambda r: ranks[r].ec, [R.etype.tolist() for R in ranks], "elements")
    names = [reg["name"] for reg in ranks[0].eregs]
    bn = [reg["name"] for reg in ranks[0].bregs]
    for r, R in enumerate(ranks):
        if [g_["name"] for g_ in R.eregs] != names or [g_["name"] for g_ in R.bregs] != bn:
            b("region-names", "ranks disagree on the list of regions")
            return bad

    def nodeinfo(get, what, expnodes):
        """expnodes[r]: set of local node ids in the region on rank r"""
        acc = 0
        pos = {}
        for r, R in enumerate(ranks):
            reg = get(R)
            h, o, s, t = reg["ninfo"]
            loc = reg["rnode"].tolist()
            if loc != sorted(set(loc)):
                b("region-nodes-order", "%s rank %d nodes not sorted/unique" % (what, r))
            ids = [int(R.nid[q]) for q in loc]
            if expnodes is not None and set(ids) != expnodes[r]:
                b("region-nodes", "%s rank %d: nodes %d, expected %d" % (what, r, len(ids), len(expnodes[r])))
            if o != acc and s:
                b("region-nodes-offset", "%s rank %d offset %d expected %d" % (what, r, o, acc))
            for k, q in enumerate(ids):
                if k >= h:
                    pos[q] = acc + k - h
            acc += s
        for r, R in enumerate(ranks):
            reg = get(R)
            h, o, s, t = reg["ninfo"]
            if t != acc:
                b("region-nodes-total", "%s rank %d total %d expected %d" % (what, r, t, acc))
            for k, q in enumerate(reg["rnode"].tolist()):
                i = int(R.nid[q])
                if pos.get(i) != reg["rnpos"][k]:
                    b("region-nodes-position", "%s rank %d node %d position %s, owner says %s" % (what, r, i, reg["rnpos"][k], pos.get(i)))
                if (k >= h) != (where[i][0][0] == r) and expnodes is not None:
                    b("region-nodes-halo", "%s rank %d node %d on the wrong side of halo" % (what, r, i))
    # nodes of regions: present on all ranks that hold the node
    for k, name in enumerate(names):
        types = [[int(R.etype[e]) for e in R.eregs[k]["relems"]] for R in ranks]
        counters(lambda r: ranks[r].eregs[k]["c"], types, "region " + name)
        glob = set()
        for R in ranks:
            for e in R.eregs[k]["relems"]:
                glob |= {int(R.nid[q]) for q in R.enode[R.edist[e]:R.edist[e + 1]]}
        exp = [{int(q) for q in R.nid[:R.nhalo + R.nsize]} & glob for R in ranks]
        nodeinfo(lambda R: R.eregs[k], "element region " + name, exp)
    for k, name in enumerate(bn):
        dims = {R.bregs[k]["dim"] for R in ranks}
        if len(dims) != 1:
            b("bregion-dim", "ranks disagree on dimension of %s" % name)
            continue
        if dims != {0}:
            types = [R.bregs[k]["btype"].tolist() for R in ranks]
            counters(lambda r: ranks[r].bregs[k]["c"], types, "boundary region " + name)
            glob = set()
            for r, R in enumerate(ranks):
                reg = R.bregs[k]
                for e in range(reg["size"]):
                    nodes = reg["bnode"][reg["bdist"][e]:reg["bdist"][e + 1]]
                    t = int(reg["btype"][e])
                    glob |= {int(R.nid[q]) for q in nodes}
                    if len(nodes) != M.NN[t]:
                        b("bregion-element", "wrong number of nodes in %s" % name)
                        continue
                    if "bparent" in reg and len(reg["bparent"]) >= reg["size"]:
                        p = int(reg["bparent"][e])
                        if not (0 <= p < R.esize):
                            b("bregion-parent", "%s rank %d: parent %d is not a local element" % (name, r, p))
                        else:
                            pn = set(R.enode[R.edist[p]:R.edist[p + 1]].tolist())
                            if not set(nodes.tolist()) <= pn:
                                b("bregion-parent", "%s rank %d: boundary element %d is not a face of its parent %d" % (name, r, e, p))
            exp = [{int(q) for q in R.nid[:R.nhalo + R.nsize]} & glob for R in ranks]
            nodeinfo(lambda R: R.bregs[k], "boundary region " + name, exp)
        else:
            glob = set()
            for R in ranks:
                glob |= {int(R.nid[q]) for q in R.bregs[k]["rnode"]}
            exp = [{int(q) for q in R.nid[:R.nhalo + R.nsize]} & glob for R in ranks]
            nodeinfo(lambda R: R.bregs[k], "node region " + name, exp)
    return bad
