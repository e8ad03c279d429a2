"""C07: steady linear heat transfer equals the Galerkin solution computed by an independent oracle."""
import random, os
from common import *
import physcase as P


def one(ck, i):
    rng = random.Random("C07-%d-%d" % (ck.seed, i))
    d = ck.casedir()
    c = (P.heat2d if i % 3 == 2 else P.heat3d)(rng, d)
    go = lambda: run_twice(lambda: run_mpi(d, c.np, [BUILD + "/espreso", "-c", "espreso.ecf"], c.threads, 90))
    r = go()
    kind = "2d" if c.dim == 2 else "3d"
    if P.trivial_residual(r):
        ck.count(trivial=1)
        return
    if not r.ok:
        ck.case(c.desc)
        ck.violate("run-" + kind, "%s: the run failed: %s" % (c.desc, r.errmsg()), d)
        return
    bad, n = P.tighter(d, go, lambda: P.heat_judge(c, d), P.heat_judge(c, d))
    ck.case(c.desc, sample=c.desc)
    ck.count(runs=1, values_compared=n, elements=c.mesh.ne, ranks=c.np)
    for k, m in bad:
        ck.violate("%s-%s" % (k, kind), "%s: %s" % (c.desc, m), d)
    if not os.environ.get("VF_KEEP"): shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.rule = "one case = one random mesh + materials + loads + parallel/solver setup, solved by espreso and by the oracle"
    ck.pmap(lambda i: one(ck, i), range(ck.n(240, 2400)))


main("C07", run)
