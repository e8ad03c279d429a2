def one(i):
    d = os.path.join(top, str(i)); os.makedirs(d)
    c, out, name, desc = check_C03.conversion(random.Random("@SEED@-%d" % i), d, 4)
    r = common.run_twice(lambda: common.run_mpi(d, c.np, [common.BUILD + "/mesio", "-c", name + ".ecf"], threads=c.threads))
    if not r.ok: return None if check_C03.REFUSE.search(r.out + r.err) else desc + " failed: " + r.errmsg()
    rd = os.path.realpath(os.path.join(d, "results", "last"))
    try:
        if out == "NETGEN": bad = check_C03.judge_netgen(c.mesh, check_C03.read_netgen(os.path.join(rd, name + ".mesh")))
        else: bad = check_C03.judge(c.mesh, check_C03.read_out(rd, name, out), out)
    except Exception as x: return desc + " cannot be read: %r" % x
    return desc + str(bad[0]) if bad else None
