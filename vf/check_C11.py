"""C11: every FETI variant of the solver returns the solution of the same discretised problem (independent FEM oracle)."""
import random, os, re
from common import *
import physcase as P

SCHUR = ["AUTO", "MANUAL_SIMPLE", "TRIANGULAR", "MKLPARDISO", "SPARSE_SOLVER"]

EMPTY_REFUSED = re.compile(r"wrong submatrix|pardiso error -1: input inconsistent")


def options(rng):
    o = {"METHOD": rng.choice(["TOTAL_FETI", "HYBRID_FETI"]), "PRECISION": "1E-10", "MAX_ITERATIONS": 3000}
    o["REGULARIZATION"] = "ANALYTIC" if rng.random() < .8 else rng.choice(["ALGEBRAIC", "SVD"])
    if o["REGULARIZATION"] == "SVD": o["METHOD"] = "TOTAL_FETI"
    ops = ["IMPLICIT", "EXPLICIT", "EXPLICIT_GENERALSCHUR_CPU", "IMPLICIT_GENERALSPARSESOLVER_CPU"]
    if o["METHOD"] == "HYBRID_FETI": ops.remove("EXPLICIT")
    o["DUAL_OPERATOR"] = rng.choice(ops)
    o["PROJECTOR"] = "ORTHOGONAL"
    if rng.random() < .4: o["PROJECTOR_OPT"] = rng.choice(["DEFAULT", "WITH_FACTORS", "FULL", "WITH_FACTORS|FULL"])
    o["PRECONDITIONER"] = rng.choice(["LUMPED", "DIRICHLET", "DIRICHLET_IMPLICIT", "DIRICHLET_GENERALSCHUR_CPU"])
    o["ITERATIVE_SOLVER"] = rng.choice(["PCG", "orthogonalPCG", "PCG", "orthogonalPCG"])
    if rng.random() < .3: o["FIX_POINTS"] = rng.choice(["METIS_CENTERS", "RANDOM"])
    order = ["AUTO", "ROW_MAJOR", "COL_MAJOR"]
    if o["DUAL_OPERATOR"] == "EXPLICIT_GENERALSCHUR_CPU":
        o["DUALOP_%s_EXPLICIT_GENERALSCHUR_CPU_CONFIG" % o["METHOD"].replace("_FETI", "FETI")] = {
            "SCHUR_IMPL": rng.choice(SCHUR), "ORDER_F": rng.choice(order), "MAINLOOP_UPDATE_SPLIT": rng.choice(["AUTO", "COMBINED", "SEPARATE"])}
    if o["DUAL_OPERATOR"] == "IMPLICIT_GENERALSPARSESOLVER_CPU":
        o["DUALOP_%s_IMPLICIT_GENERALSPARSESOLVER_CPU_CONFIG" % o["METHOD"].replace("_FETI", "FETI")] = {
            "SPARSE_SOLVER_IMPL": rng.choice(["AUTO", "MKLPARDISO", "SUITESPARSE"])}
    if o["PRECONDITIONER"] == "DIRICHLET_GENERALSCHUR_CPU":
        o["DIRICHLET_GENERALSCHUR_CONFIG"] = {"SCHUR_IMPL_CPU": rng.choice(SCHUR), "ORDER_SC": rng.choice(order)}
    return o


def flat(o):
    return " ".join("%s=%s" % (k[:14], flat(v).replace(" ", ",") if isinstance(v, dict) else v) for k, v in o.items() if k not in ("PRECISION", "MAX_ITERATIONS"))


def one(ck, i):
    rng = random.Random("C11-%d-%d" % (ck.seed, i))
    d = ck.casedir()
    phys = ["heat", "struct"][i % 2]
    kind = ["ext", "gen3", "gen2"][i // 2 % 3]
    c = P.struct(rng, d, kind) if phys == "struct" else (P.heat2d if kind == "gen2" else P.heat3d)(rng, d)
    desc = "%s | %s" % (c.desc, flat(c.feti))
    r = run_twice(lambda: run_mpi(d, c.np, [BUILD + "/espreso", "-c", "espreso.ecf"], c.threads, 90))
    if P.trivial_residual(r):
        ck.count(trivial=1)
        return
    if P.refused(r) and c.feti["PRECONDITIONER"] == "LUMPED":
        ck.count(refused=1)
        ck.refused.append(desc)
        return
    if c.feti["PRECONDITIONER"] == "DIRICHLET_GENERALSCHUR_CPU" and EMPTY_REFUSED.search(r.err + r.out) and \
            c.feti["DIRICHLET_GENERALSCHUR_CONFIG"]["SCHUR_IMPL_CPU"] in ("TRIANGULAR", "SPARSE_SOLVER"):
        ck.count(empty_interior_refused=1)  # these implementations say that they cannot handle domains without interior DOFs
        return
    if not r.ok:
        ck.case(desc)
        ck.violate("run-" + phys, "%s: the run failed: %s" % (desc, r.errmsg()), d)
        return
    nr = re.search(r"NORM\(F - BT \* LAMBDA\)\s+(\S+)", r.out)
    if os.environ.get("VF_TIME"): print("norm", nr and nr.group(1), desc)
    bad, n = P.struct_judge(c, d) if phys == "struct" else P.heat_judge(c, d)
    ck.case(desc, sample=desc)
    ck.count(runs=1, values_compared=n, ranks=c.np)
    for k, m in bad[:1]:
        ck.violate("%s-%s" % (k, phys), "%s: %s" % (desc, m), d)
    if not os.environ.get("VF_KEEP"): shutil.rmtree(d, ignore_errors=True)


def run(ck):
    P.KNOB["feti"] = options
    ck.rule = "one case = one random problem solved with one random FETI variant and by the oracle"
    ck.refused = []
    n = ck.n(240, 2400)
    ck.pmap(lambda i: one(ck, i), range(n))
    if ck.counters.get("empty_interior_refused", 0) > n // 16: ck.violate("refused-empty", "%d of %d problems refused by Schur implementations" % (ck.counters["empty_interior_refused"], n))
    if len(ck.refused) > max(3, n // 40): ck.violate("refused", "the solver refused %d of %d solvable problems, e.g. %s" % (len(ck.refused), n, ck.refused[0]))


if __name__ == "__main__":
    main("C11", run)
