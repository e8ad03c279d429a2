physcase.KNOB["feti"] = lambda rng: {"METHOD": "TOTAL_FETI", "PRECISION": "1E-10", "MAX_ITERATIONS": 3000, "REGULARIZATION": "ANALYTIC", "PRECONDITIONER": "DIRICHLET",
    "DUAL_OPERATOR": "EXPLICIT_GENERALSCHUR_CPU", "DUALOP_TOTALFETI_EXPLICIT_GENERALSCHUR_CPU_CONFIG": {"SCHUR_IMPL": "TRIANGULAR"}}
def one(i):
    d = os.path.join(top, str(i)); os.makedirs(d)
    c = physcase.heat2d(random.Random("@SEED@-%d" % i), d)
    r = common.run_twice(lambda: common.run_mpi(d, c.np, ["/repo/build/espreso", "-c", "espreso.ecf"], c.threads, 90))
    if physcase.trivial_residual(r): return None
    if not r.ok: return c.desc + " failed: " + r.errmsg()
    bad, n = physcase.heat_judge(c, d)
    return c.desc + str(bad[0]) if bad else None
