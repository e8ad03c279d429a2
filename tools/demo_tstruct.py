def one(i):
    d = os.path.join(top, str(i)); os.makedirs(d)
    c = transient.struct(random.Random("@SEED@-%d" % i), d)
    r = common.run_twice(lambda: common.run_mpi(d, c.np, ["/repo/build/espreso", "-c", "espreso.ecf"], c.threads, 90))
    if physcase.trivial_residual(r) or physcase.refused(r): return None
    if not r.ok: return c.desc + " failed: " + r.errmsg()
    bad, n, steps = transient.struct_judge(c, d)
    return c.desc + str(bad[0]) if bad else None
