"""C09: transient heat transfer and elastodynamics, sequences of load steps and TIME-dependent data follow the configured time integration."""
import random, os
from common import *
import physcase as P
import transient as T


def one(ck, i):
    rng = random.Random("C09-%d-%d" % (ck.seed, i))
    d = ck.casedir()
    kind = ["heat", "struct"][i % 5 == 4 or i % 5 == 2]
    c = (T.heat if kind == "heat" else T.struct)(rng, d)
    go = lambda: run_twice(lambda: run_mpi(d, c.np, [BUILD + "/espreso", "-c", "espreso.ecf"], c.threads, 90))
    r = go()
    if P.trivial_residual(r):
        ck.count(trivial=1)
        return
    if P.refused(r):
        ck.count(refused=1)
        ck.refused.append("%d %s" % (i, c.desc))
        return
    if not r.ok:
        ck.case(c.desc)
        ck.violate("run-" + kind, "%d %s: the run failed: %s" % (i, c.desc, r.errmsg()), d)
        return
    judge = lambda: (T.heat_judge if kind == "heat" else T.struct_judge)(c, d)
    bad, n, steps = P.tighter(d, go, judge, judge())
    ck.case(c.desc, sample=c.desc)
    ck.count(runs=1, values_compared=n, time_steps=steps, load_steps=len(c.steps), ranks=c.np, **{kind: 1})
    for k, m in bad:
        ck.violate("%s-%s" % (k, kind), "%d %s: %s" % (i, c.desc, m), d)
    if not os.environ.get("VF_KEEP"): shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.rule = "one case = one random mesh + materials + sequence of load steps + parallel/solver setup; every substep is compared with the oracle's time integration"
    ck.refused = []
    n = ck.n(200, 2000)
    ck.pmap(lambda i: one(ck, i), range(n))
    if len(ck.refused) > max(8, n // 16): ck.violate("refused", "the solver refused %d of %d solvable problems, e.g. %s" % (len(ck.refused), n, ck.refused[0]))


if __name__ == "__main__":
    main("C09", run)
