def one(i):
    d = os.path.join(top, str(i)); os.makedirs(d)
    c = physcase.struct(random.Random("@SEED@-%d" % i), d, ["ext", "gen2", "gen3"][i % 3])
    r = common.run_twice(lambda: common.run_mpi(d, c.np, ["/repo/build/espreso", "-c", "espreso.ecf"], c.threads, 90))
    if physcase.trivial_residual(r) or physcase.refused(r): return None
    if not r.ok: return c.desc + " failed: " + r.errmsg()
    bad, n = physcase.struct_judge(c, d)
    return c.desc + str(bad[0]) if bad else None
