def one(i):
    d = os.path.join(top, str(i)); os.makedirs(d)
    c = nonlinear.struct(random.Random("@SEED@-%d" % i), d)
    r = common.run_twice(lambda: common.run_mpi(d, c.np, ["/repo/build/espreso", "-c", "espreso.ecf"], c.threads, 90))
    if not r.ok: return None
    bad, n, steps = nonlinear.struct_judge(c, d)
    return c.desc + str(bad[0]) if bad else None
