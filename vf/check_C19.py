"""C19: no run of espreso or mesio reads or writes memory it does not own or depends on uninitialised memory (valgrind memcheck)."""
import random, os, glob, re
import common
from common import *
import physcase as P, transient as T, nonlinear as N, check_C03, check_C11

SRC = re.compile(r"espreso::|\((\w+)\.(cpp|h|hpp):\d+\)")
FOREIGN = re.compile(r"ompi_|opal_|mca_|PMPI_|pmix|orte_|libucx|ucp_|uct_|libevent|hwloc", re.I)


STEADY = threading.local()


def blocks(path):
    """The error records of a valgrind log."""
    cur = None
    for l in open(path, errors="replace"):
        m = re.match(r"==\d+== ?(.*)", l)
        t = m.group(1).rstrip() if m else ""
        if not t:
            if cur: yield cur
            cur = None
        elif cur is None:
            cur = [t.strip()]
        else:
            cur.append(t.strip())
    if cur: yield cur


def split(b):
    """-> (headline, stack of the access, remaining lines: what is known about the address or the origin)"""
    i = 1
    while i < len(b) and re.match(r"(at|by) 0x", b[i]): i += 1
    return b[0], b[1:i], b[i:]


def frame(l):
    return re.sub(r"^(at|by) 0x\w+: ", "", l)


def sources():
    out = set()
    for _, _, fs in os.walk(common.REPO + "/src"): out.update(fs)
    return out


def judge(b, names):
    """The violated fact of an error record or None (errors of the MPI and math libraries themselves are not espreso's)."""
    head, stack, rest = split(b)
    if not stack or FOREIGN.search(stack[0]): return None

    def own(l):
        m = re.search(r"\((\S+?):\d+\)$", l)
        return bool(m and m.group(1) in names)

    mine = [l for l in stack if own(l)]
    if not mine: return None
    top = stack[0]
    std = bool(re.search(r"\((stl_\w+|basic_string|vector|\w+)\.(h|tcc):\d+\)$", top)) and not re.search(r"\.so", top)
    replaced = "vg_replace_" in top
    if re.match(r"(Invalid free|Mismatched free|Source and destination overlap|Process terminating|Jump to the invalid)", head):
        kind = "free"
    elif head.startswith("Invalid write"):
        kind = "write"                      # also from inside a math library that was given a too small buffer
        if not (own(top) or std or replaced or any(own(l) for l in rest)): return None
    elif head.startswith("Invalid read"):
        kind = "read"
        if not (own(top) or std or replaced): return None
    elif re.match(r"Conditional jump|Use of uninit", head):
        kind = "uninitialised"
        if not (own(top) or std): return None
    else:
        return None
    m = re.search(r"\((\S+?):\d+\)$", mine[0])
    return "%s-%s" % (kind, m.group(1)), "%s: %s" % (head, " <- ".join(frame(l)[:110] for l in mine[:3])) + (" | " + rest[0] if rest else "")


def steady_feti(rng):
    if not STEADY.on or rng.random() < .2: return None
    o = check_C11.options(rng)
    if o["REGULARIZATION"] == "SVD" and STEADY.on == 3: o["REGULARIZATION"] = "ALGEBRAIC"  # dense, hence very slow under valgrind
    return o


def make(rng, d, k):
    STEADY.on = {"heat3d": 3, "heat2d": 2, "ext": 3, "gen3": 3, "gen2": 2}.get(k, 0)
    if k == "mesio":
        c, out, name, desc = check_C03.conversion(rng, d, rng.choice([4, 5]))
        return c.np, c.threads, ["mesio", "-c", name + ".ecf"], desc
    f = {"heat3d": P.heat3d, "heat2d": P.heat2d, "ext": lambda r, x: P.struct(r, x, "ext"), "gen3": lambda r, x: P.struct(r, x, "gen3"),
         "gen2": lambda r, x: P.struct(r, x, "gen2"), "theat": T.heat, "tstruct": T.struct, "nheat": N.heat, "nstruct": N.struct}[k.split("/")[0]]
    c = f(rng, d)
    return c.np, c.threads, ["espreso", "-c", "espreso.ecf"], k + " " + c.desc


KINDS = ["ext", "mesio", "heat3d", "nstruct", "theat", "mesio", "heat2d", "tstruct", "gen3", "mesio", "nheat", "heat3d", "gen2", "mesio", "nstruct", "ext"]


def one(ck, i, names):
    k = KINDS[i % len(KINDS)]
    d = ck.casedir()
    np_, threads, cmd, desc = make(random.Random("C19-%d-%d" % (ck.seed, i)), d, k)
    vg = ["valgrind", "-q", "--num-callers=16", "--error-limit=no", "--log-file=vg.%p", common.BUILD + "/" + cmd[0]]
    r = run_mpi(d, np_, vg + cmd[1:], threads, 400, weight=np_)
    if os.environ.get('VF_TIME'): print('%5.0f s %s %s' % (r.wall, r.ok, desc))
    ck.case(desc, sample=desc)
    ck.count(ranks=np_, **{k: 1, "finished" if r.ok else "refused": 1})
    logs = glob.glob(d + "/vg.*")
    n = 0
    for f in logs:
        for b in blocks(f):
            n += 1
            v = judge(b, names)
            if v: ck.violate(v[0], "%s: %s" % (desc, v[1]), d)
    ck.count(logs=len(logs), records=n)
    if crashed(r): ck.violate("crash-" + k, "%s: %s" % (desc, r.errmsg()), d)
    elif r.timed_out: ck.inconcl("%s: timed out under valgrind" % desc)
    if not os.environ.get("VF_KEEP"): shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.rule = "one case = one random run of espreso or mesio under memcheck; every process' error records are classified"
    names = sources()
    n = ck.n(24, 320)
    common.SLOTS = Slots(int(os.environ.get("VF_SLOTS", "9")))
    P.KNOB["feti"] = steady_feti
    ck.pmap(lambda i: one(ck, i, names), range(n))
    if ck.counters.get("finished", 0) < n // 2: ck.violate("refused", "only %d of %d runs finished" % (ck.counters.get("finished", 0), n))


if __name__ == "__main__":
    main("C19", run)
