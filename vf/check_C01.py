"""C01: the mesh in memory after loading is the mesh in the database."""
import random, re
import common, meshcase, meshdump

REFUSE = re.compile(r"process without any elements detected|adjncy is NULL")


def body(ck, mode, n=(200, 1600)):
    exe = common.build_harness("meshdump")
    N = ck.n(*n)
    base = ck.rng.randrange(10 ** 9)
    size = ck.n(4, 6)

    def one(i):
        rng = random.Random(base + i)
        d = ck.casedir()
        c = meshcase.make(rng, d, size=size if i % 8 else size + 3)
        r = common.run_twice(lambda: meshcase.run(exe, c, d))
        if not r.ok:
            if REFUSE.search(r.out + r.err):
                ck.count(refused=1)
                return
            ck.case(c.desc)
            ck.violate("load-failed-" + c.fmt + ("-crash" if common.crashed(r) else ""), "%s: %s" % (c.desc, r.errmsg()), d)
            return
        rk = meshdump.load(d + "/out", c.np)
        if mode == "fidelity":
            bad = meshdump.check_fidelity(c.mesh, rk)
        else:
            bad = meshdump.check_consistency(rk, reclustered=c.dec != 0)
        ck.case(c.desc, sample=c.desc)
        ck.count(**{"fmt_" + c.fmt: 1, "elements": c.mesh.ne, "nodes": len(c.mesh.X), "ranks": c.np,
                    "eregions": len(c.mesh.eregs), "fregions": len(c.mesh.fregs), "nregions": len(c.mesh.nregs)})
        for o in c.opts:
            ck.count(**{"opt_" + o: 1})
        for k, v in bad:
            ck.violate(k, "%s: %s" % (c.desc, v), d)
        if not bad:
            import shutil
            shutil.rmtree(d, ignore_errors=True)

    ck.pmap(one, range(N))
    if ck.counters.get("refused", 0) > N // 5:
        ck.violate("too-many-refusals", "%d of %d well-formed databases were refused" % (ck.counters["refused"], N))


def run(ck):
    ck.rule = "one loaded database x (format, ranks, threads, decomposer, domains, loader, options); distinct by description"
    ck.assumptions = ["oracle: the generator's own mesh, written by writers that share no code with the repository"]
    body(ck, "fidelity")


if __name__ == "__main__":
    common.main("C01", run)
