"""C08: steady linear elasticity equals the Galerkin solution computed by an independent oracle."""
import random, os
from common import *
import physcase as P
import results as R


def one(ck, i):
    rng = random.Random("C08-%d-%d" % (ck.seed, i))
    d = ck.casedir()
    kind = ["ext", "gen2", "ext", "gen3"][i % 4]
    c = P.struct(rng, d, kind)
    go = lambda: run_twice(lambda: run_mpi(d, c.np, [BUILD + "/espreso", "-c", "espreso.ecf"], c.threads, 90))
    r = go()
    if P.trivial_residual(r):
        ck.count(trivial=1)
        return
    if P.refused(r) and c.feti["PRECONDITIONER"] == "LUMPED":
        ck.count(refused=1)
        ck.refused.append(c.desc)
        return
    if not r.ok:
        ck.case(c.desc)
        ck.violate("run-" + kind, "%s: the run failed: %s" % (c.desc, r.errmsg()), d)
        return
    bad, n = P.tighter(d, go, lambda: P.struct_judge(c, d), P.struct_judge(c, d))
    ck.case(c.desc, sample=c.desc)
    ck.count(runs=1, values_compared=n, elements=c.mesh.ne, ranks=c.np)
    for k, m in bad:
        ck.violate("%s-%s" % (k, kind), "%s: %s" % (c.desc, m), d)
    if not os.environ.get("VF_KEEP"): shutil.rmtree(d, ignore_errors=True)


def shared_force(ck):
    """FORCE on nodes that lie on the border of two processes: the same mesh has to give the same displacements with 1 and 2 processes."""
    mat = {"DENS": 1, "ELASTICITY_PROPERTIES": {"MATERIAL_MODEL": "KIRCHHOFF", "MODEL": "ISOTROPIC", "MIXY": .3, "EX": 100}}
    ls = {"DURATION_TIME": 1, "TYPE": "STEADY_STATE", "MODE": "LINEAR", "SOLVER": "FETI", "FETI": dict(P.feti_options(random.Random(1), simple=True), PRECONDITIONER="DIRICHLET"),
          "DISPLACEMENT": {"FIX": {"X": 0, "Y": 0, "Z": 0}}, "FORCE": {"MID": {"Z": -.25}}}
    def run(np):
        d = ck.casedir()
        g = {"ELEMENT_TYPE": "HEXA8", "LENGTH_X": 1, "LENGTH_Y": 1, "LENGTH_Z": 1}
        for a, c, n in zip("XYZ", (np, 1, 1), (2 // np, 1, 1)): g.update({"CLUSTERS_" + a: c, "DOMAINS_" + a: n, "ELEMENTS_" + a: 3})
        g["NODES"] = {"FIX": "<0 , 0> <0 , 1> <0 , 1>", "MID": "<0.4 , 0.6> <0 , 1> <1 , 1>"}
        e = {"INPUT_TYPE": "GENERATOR", "GENERATOR": {"SHAPE": "GRID", "GRID": g}, "PHYSICS": "STRUCTURAL_MECHANICS",
             "STRUCTURAL_MECHANICS": {"LOAD_STEPS": 1, "MATERIALS": {"1": mat}, "MATERIAL_SET": {"ALL_ELEMENTS": 1}, "LOAD_STEPS_SETTINGS": {"1": ls}},
             "OUTPUT": P.output_block(random.Random(1))}
        open(d + "/espreso.ecf", "w").write(ecf(e))
        r = run_twice(lambda: run_mpi(d, np, [BUILD + "/espreso", "-c", "espreso.ecf"], 1, 90))
        return r, d
    (r1, d1), (r2, d2) = run(1), run(2)
    if not (r1.ok and r2.ok):
        ck.violate("run-force", "FORCE on a node region: the run failed: %s" % (r2 if r1.ok else r1).errmsg(), d2)
        return
    m = [max(abs(v).max() for v in R.Ensight(R.run_dir(d)).raw("DISPLACEMENT").values()) for d in (d1, d2)]
    ck.case("force-shared", sample="FORCE on the border of two processes: max displacement %g / %g" % tuple(m))
    if abs(m[0] - m[1]) > 1e-3 * m[0]:
        ck.violate("force-shared", "FORCE on nodes shared by two processes: max displacement is %g with 2 processes and %g with 1" % (m[1], m[0]), d2)


def run(ck):
    ck.rule = "one case = one random mesh + materials + loads + parallel/solver setup, solved by espreso and by the oracle"
    ck.refused = []
    n = ck.n(200, 2000)
    shared_force(ck)
    ck.pmap(lambda i: one(ck, i), range(n))
    if len(ck.refused) > max(3, n // 40): ck.violate("refused", "the solver refused %d of %d solvable problems, e.g. %s" % (len(ck.refused), n, ck.refused[0]))


if __name__ == "__main__":
    main("C08", run)
