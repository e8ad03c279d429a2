"""C10: nonlinear heat transfer and finite-strain elasticity converge to the solution of the nonlinear problem."""
import random, os
from common import *
import physcase as P
import nonlinear as N


def one(ck, i):
    rng = random.Random("C10-%d-%d" % (ck.seed, i))
    d = ck.casedir()
    kind = "heat" if i % 3 == 0 else "struct"
    c = (N.heat if kind == "heat" else N.struct)(rng, d)
    go = lambda: run_twice(lambda: run_mpi(d, c.np, [BUILD + "/espreso", "-c", "espreso.ecf"], c.threads, 120))
    r = go()
    if P.trivial_residual(r):
        ck.count(trivial=1)
        return
    # HYBRID_FETI: gluing of tiny domains by few nodes is redundant (F0 is singular)
    if P.refused(r) or "physical solver failed" in r.out + r.err or (c.feti["METHOD"] == "HYBRID_FETI" and "zero pivot" in r.out + r.err):
        ck.count(refused=1)
        ck.refused.append("%d %s" % (i, c.desc))
        return
    if not r.ok:
        ck.case(c.desc)
        ck.violate("run-" + kind, "%d %s: the run failed: %s" % (i, c.desc, r.errmsg()), d)
        return
    judge = lambda: N.heat_judge(c, d) + (1,) if kind == "heat" else N.struct_judge(c, d)
    bad, n, steps = P.tighter(d, go, judge, judge())
    if bad is None:
        ck.inconcl("%d %s: the oracle's iteration did not converge" % (i, c.desc))
        return
    ck.case(c.desc, sample=c.desc)
    ck.count(runs=1, values_compared=n, substeps=steps, newton_iterations=len(re.findall("EQUILIBRIUM ITERATION", r.out)), ranks=c.np, **{kind: 1})
    for k, m in bad:
        ck.violate("%s-%s" % (k, kind), "%d %s: %s" % (i, c.desc, m), d)
    if not os.environ.get("VF_KEEP"): shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.rule = "one case = one random nonlinear problem + parallel/solver setup, solved by espreso and by an independent Newton/Picard oracle"
    ck.refused = []
    n = ck.n(150, 1500)
    ck.pmap(lambda i: one(ck, i), range(n))
    if len(ck.refused) > max(6, n // 16): ck.violate("refused", "espreso did not converge in %d of %d solvable problems, e.g. %s" % (len(ck.refused), n, ck.refused[0]))


if __name__ == "__main__":
    main("C10", run)
