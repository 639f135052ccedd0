"""Modules that check the library's building blocks (internal headers) against their specification."""
import json, math, os, random, re
import vlib
from vlib import *
from engine import SPEC, tlc_traces
from mods import configs, pick

BAD = 999999999        # value that is not an integer


def ints(x):
    """JSON numbers as integers (TLC has no reals)"""
    if isinstance(x, list):
        return [ints(y) for y in x]
    if isinstance(x, bool) or isinstance(x, int):
        return x if isinstance(x, bool) or abs(x) < 2**31 else BAD
    if isinstance(x, float):
        return int(x) if x == x and abs(x) < 2**31 and x == int(x) else BAD
    return BAD if isinstance(x, str) or x is None else x


def run_kern(ctx, cases, tag, nranks=1, env=None):
    """cases: list of dict(id, ops); returns {id: [per op: list of the ranks' results]} and the directory"""
    out = ctx.scr.sub("kern-%s-%d" % (tag, len(os.listdir(ctx.scr.dir))))
    res = run_scenarios(ctx.exe("kern"), cases, out, nranks=nranks, env=env)
    r = {}
    for c in cases:
        ranks = [[e for e in res[c["id"]][k] if e["e"] == "op"] for k in range(nranks)]
        ok = all(len(x) == len(c["ops"]) for x in ranks)
        r[c["id"]] = [[x[i] for x in ranks] for i in range(len(c["ops"]))] if ok else None
    return r, out


def unsupported(ctx, rs):
    if any("unsupported" in x for x in rs):
        n = "operation not available (internal interface changed): %s" % rs[0]["op"]
        if n not in ctx.notes:
            ctx.notes.append(n)
        return True
    return False


def judge(ctx, module, cases, mk, tag, nranks=1, prop=None):
    """run cases, build items with mk(case, results), judge by TLC; violations are confirmed by a second run"""
    def go(cs, t):
        r, out = run_kern(ctx, cs, t, nranks)
        items = []
        dead = []
        for c in cs:
            if r[c["id"]] is None:
                dead.append(c)
            else:
                it = mk(c, r[c["id"]], out)
                if it is not None:
                    items.append(it)
        return tlc_traces(ctx, module, items, tag=t), dead
    ver, dead = go(cases, tag)
    byid = {c["id"]: c for c in cases}
    bad = [i for i, v in ver.items() if v[0]]
    again = [byid[i] for i in bad[:8]] + dead[:4]
    if again:
        v2, d2 = go(again, tag + "-confirm")
        for c in again:
            if c in d2 and c in dead:
                ctx.violation("ANY", "operation does not return normally", dict(module=module, case=c, nranks=nranks))
            elif c["id"] in v2 and c["id"] in ver:
                for p, why in sorted(v2[c["id"]][0] & ver[c["id"]][0]):
                    ctx.violation(p, why, dict(module=module, case=c, nranks=nranks))
    ctx.extra.setdefault("operations", {})[tag] = sum(len(c["ops"]) for c in cases)


# ------------------------------------------------------------------ C12
def gather_case(rng, cid, nr, owner, ln):
    big = rng.choice([1, 1, 1, 1, 997, 70001])
    labels = rng.sample([(k * big, s) for k in range(-1, 9) for s in range(3)], len(owner))
    data = [[] for _ in range(nr)]
    for o, n, l in zip(owner, ln, labels):
        data[o].append([l[0], l[1], [rng.randint(-99, 99) for _ in range(n)]])
    # the harness enumerates in random order; scalars always carry a value
    for d in data:
        rng.shuffle(d)
    full = [[[e[0], e[1], e[2] or [rng.randint(-99, 99)]] for e in d] for d in data]
    vals = [rng.randint(-99, 99) for _ in range(nr)]
    ops = []
    def add(op, **kw):
        ops.append(dict(op=op, **kw))
    for own, over in (("world", "null"), ("self", "world"), ("rev", "null"), ("world", "world"), ("self", "rev")):
        if rng.random() < 0.6:
            add("gather-" + rng.choice(["int", "double"]), own=own, over=over, data=full)
        if rng.random() < 0.8:
            add("gather-" + rng.choice(["vec", "vec", "veccomplex", "vecint"]), own=own, over=over, data=data)
        if rng.random() < 0.4:
            add("sum-" + rng.choice(["double", "int", "complex", "lazy"]), own=own, over=over, data=full)
    for own in ("world", "rev"):
        add("list-" + rng.choice(["int", "double", "char", "pairii", "pairdd", "pairid", "pairdi"]), own=own, data=data)
        add("reduce-" + rng.choice(["int", "double"]), own=own, red=rng.choice(["sum", "min", "max"]), vals=vals)
    add("reduce-complex", own="world", red="sum", vals=vals)
    if nr > 1:
        o = rng.choice(["gather-int", "gather-vec", "sum-double"])
        add(o, own="world", over="self", data=full, refuse=True)
    return dict(id=cid, ops=ops)


def gather_item(ctx, c, rs, out):
    its = []
    for op, r in zip(c["ops"], rs):
        if unsupported(ctx, r):
            continue
        kind = op["op"].split("-")[0]
        n = len(r)
        o = dict(kind=kind, refuse=op.get("refuse", False), exc=["exc" in x for x in r],
                 data=op.get("data") or [[] for _ in range(n)], ord=list(range(1, n + 1)), scalar=False)
        if op.get("own") == "rev":
            o["ord"].reverse()
        if kind == "gather":
            o.update(got=[ints(x.get("got", [])) for x in r], size=[x.get("size", 1) for x in r],
                     src=[ints(x.get("src", [])) for x in r], scalar="vec" not in op["op"])
        elif kind == "sum":
            o.update(got=[ints(x.get("got")) for x in r])
        elif kind == "reduce":
            o.update(got=[ints(x.get("got")) for x in r], red=op["red"], vals=op["vals"])
        else:
            o.update(got=[ints(x.get("lists", [])) for x in r])
        its.append(o)
    return dict(id=c["id"], ops=its)


def mod_gather(ctx):
    rng = random.Random(ctx.seed * 191 + 3)
    ctx.sample(dict(spec="Gather"))
    plan = [(1, 3, 2), (2, 3, 2), (3, 3, 2), (4, 3, 1)] if ctx.quick else [(1, 4, 3), (2, 4, 3), (3, 4, 2), (4, 4, 2)]
    for nr, nk, ml in plan:
        cs = configs(ctx, "Gather", "NR=%d NK=%d MaxLen=%d" % (nr, nk, ml), ["Complete", "NoOverlap"], what="Gather-%d" % nr)
        cs = pick(rng, cs, 150 if ctx.quick else 1200)
        # every rank empty, and long vectors
        cases = [gather_case(rng, "g%d-%d" % (nr, i), nr, c["owner"], c["len"]) for i, c in enumerate(cs)]
        cases.append(gather_case(rng, "g%d-none" % nr, nr, [], []))
        for i in range(6):
            n = rng.randint(3, 8)
            cases.append(gather_case(rng, "g%d-l%d" % (nr, i), nr, [rng.randrange(nr) for _ in range(n)],
                                     [rng.choice([0, 1, 7, 40, 300]) for _ in range(n)]))
        cases.append(gather_case(rng, "g%d-m" % nr, nr, [rng.randrange(nr) for _ in range(26)], [rng.choice([0, 2, 40]) for _ in range(26)]))
        cases.append(gather_case(rng, "g%d-x" % nr, nr, [0, nr - 1, nr - 1], [rng.choice([1100, 3000]), 0, 700]))
        judge(ctx, "GatherCheck", cases, lambda c, r, o: gather_item(ctx, c, r, o), "gather%d" % nr, nranks=nr)
        if ctx.viols:
            return


# ------------------------------------------------------------------ C18
def rmat(rng, m, n, lo=-5, hi=5):
    return dict(m=m, n=n, v=[[[rng.randint(lo, hi), rng.randint(lo, hi)] for _ in range(n)] for _ in range(m)])


def mm(A, B, ah=False):
    c = lambda z: complex(z[0], z[1])
    a = [[c(z) for z in r] for r in A["v"]]
    b = [[c(z) for z in r] for r in B["v"]]
    if ah:
        a = [[a[i][j].conjugate() for i in range(A["m"])] for j in range(A["n"])]
    r = [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(B["n"])] for i in range(len(a))]
    return dict(m=len(r), n=B["n"], v=[[[int(z.real), int(z.imag)] for z in q] for q in r])


def kern_op(rng, c):
    m, k, n = c["m"], c["k"], c["n"]
    o = dict(op=c["op"], la=c["la"], lb=c["lb"], lc=c["lc"], alpha=c["al"], beta=c["be"])
    if c["op"] == "inner":
        o.update(A=rmat(rng, k, m), B=rmat(rng, k, n), C=rmat(rng, m, n))
    elif c["op"] == "outer":
        o.update(A=rmat(rng, m, k), B=rmat(rng, n, k), C=rmat(rng, m, n))
    elif c["op"] == "transform":
        o.update(A=rmat(rng, m, k), B=rmat(rng, k, n), C=rmat(rng, m, n))
    else:
        o.update(A=rmat(rng, m, n), C=rmat(rng, m, n), x=[rng.randint(-4, 4) for _ in range(n)])
        if rng.random() < 0.3:      # default factors
            o.update(dflt=True, beta=[1, 0] if c["op"] in ("add", "_add") else [0, 0])
    return o


def kern_misc(rng, md):
    m, n, k = (rng.randint(1, md) for _ in range(3))
    L = lambda: rng.choice(["dense", "pad"])
    op = rng.choice(["diag", "copy", "zeros", "empty", "gram", "deepcopy", "inneralloc", "transformalloc", "makediag", "trace",
                     "reduce2", "linspace", "eigh", "solve", "loewdin", "loewdin"])
    o = dict(op=op, la=L(), lb=L(), lc=L(), alpha=rng.choice([[1, 0], [2, -1], [0, 0]]))
    if op in ("diag", "zeros", "empty", "gram"):
        o.update(A=rmat(rng, m, n))
        if op in ("diag", "empty", "zeros"):
            o["la"] = rng.choice(["dense", "pad", "row"])
    elif op in ("copy", "deepcopy"):
        o.update(A=rmat(rng, m, n), C=rmat(rng, m, n), la=rng.choice(["dense", "pad", "row"]), lc=rng.choice(["dense", "pad", "row"]))
    elif op == "inneralloc":
        o.update(A=rmat(rng, k, m), B=rmat(rng, k, n))
    elif op == "transformalloc":
        o.update(A=rmat(rng, m, k), B=rmat(rng, k, n))
    elif op == "makediag":
        o.update(x=[rng.randint(-9, 9) for _ in range(n)])
    elif op == "trace":
        o.update(A=rmat(rng, m, n), B=rmat(rng, m, n), la=rng.choice(["dense", "pad", "row"]))
    elif op == "reduce2":
        o.update(A=rmat(rng, m, n), B=rmat(rng, m, n), nk=rng.randint(0, 4))
    elif op == "linspace":
        st = rng.randint(-3, 3)
        a = rng.randint(-5, 5)
        o.update(n=n, a=a, b=a + st * (n - 1), step=st)
    elif op == "eigh":
        g = rmat(rng, n, n)
        if rng.random() < 0.3:   # degenerate
            g = rmat(rng, 1, n)
        h = mm(g, g, True)
        sg = rng.choice([1, -1])
        o.update(A=dict(m=n, n=n, v=[[[sg * z[0], sg * z[1]] for z in r] for r in h["v"]]))
    elif op == "solve":
        g = rmat(rng, n, n)
        a = mm(g, g, True)
        for i in range(n):
            a["v"][i][i][0] += rng.randint(1, 30)
        o.update(A=a, B=rmat(rng, n, k), la=rng.choice(["dense", "dense", "pad", "pad", "row"]))
    elif op == "loewdin":
        mrow = n + rng.randint(0, 3)
        x = rmat(rng, mrow, n)
        for i in range(n):       # full rank: large diagonal
            x["v"][i][i][0] += 40
        us = rng.random() < 0.6
        g = rmat(rng, mrow, mrow, -1, 1)
        s = mm(g, g, True)
        for i in range(mrow):
            s["v"][i][i][0] += 5
        o.update(X=x, S=s, SX=mm(s, x), us=us)
    return o


def kern_item(ctx, c, rs, out):
    its = []
    for op, r in zip(c["ops"], rs):
        if unsupported(ctx, r):
            continue
        x = r[0]
        o = dict(op=op["op"], alpha=op.get("alpha", [1, 0]), beta=op.get("beta", [0, 0]), exc="exc" in x,
                 kept=all(v for k, v in x.items() if k.startswith("kept")), stray=x.get("stray", 0),
                 mayRefuse="row" in (op.get("la"), op.get("lb"), op.get("lc")), good=True)
        for k in ("A", "B", "C", "x", "nk", "n", "a", "step"):
            if k in op:
                o[k] = op[k]
        if "out" in x:
            o["out"] = ints(x["out"])
            sh = op.get("C")
            o["shape"] = [x["m"], x["n"]] if "m" in x else [sh["m"], sh["n"]]
        else:
            o["out"] = []
            o["shape"] = [x.get("m", -1), x.get("n", -1)]
        if op["op"] in ("diag", "trace", "linspace"):
            o["vec"] = ints(x.get("vec", []))
        if op["op"] == "reduce2":
            o["vec"] = [ints(x["tr"]), round(x["n2"]) if x["n2"] == x["n2"] and abs(x["n2"]) < 1e9 else BAD]
        if op["op"] in ("eigh", "solve", "loewdin"):
            o["dg"] = x.get("dg", [0])
            o["good"] = x.get("asc", True) and "exc" not in x
        if op["op"] == "copy":
            o["good"] = x.get("deep", False)
        if op["op"] == "makediag":
            o["good"] = x.get("realsame", False)
        its.append(o)
    return dict(id=c["id"], ops=its)


def mod_kernels(ctx):
    rng = random.Random(ctx.seed * 193 + 7)
    configs(ctx, "Kernels", 'Mode="laws" MaxDim=2 Full=FALSE', ["Laws"], dump=False, what="Kernels-laws")
    cs = configs(ctx, "Kernels", 'Mode="space" MaxDim=%d Full=%s' % (3 if ctx.quick else 4, "FALSE" if ctx.quick else "TRUE"), [],
                 what="Kernels-space")
    prod = ("inner", "outer", "transform")
    cs = pick(rng, [c for c in cs if c["op"] in prod], 5000 if ctx.quick else 60000) + \
        pick(rng, [c for c in cs if c["op"] not in prod], 3000 if ctx.quick else 30000)
    ops = [kern_op(rng, c) for c in cs]
    for _ in range(300 if ctx.quick else 3000):     # larger and unequal shapes
        c = dict(rng.choice(cs))
        c.update(m=rng.randint(1, 9), n=rng.randint(1, 9), k=rng.randint(1, 9) if c["op"] in ("inner", "outer", "transform") else 1)
        ops.append(kern_op(rng, c))
    for _ in range(30 if ctx.quick else 400):       # shapes of real calculations
        c = dict(rng.choice(cs))
        c.update(m=rng.randint(10, 70), n=rng.randint(10, 36), k=rng.randint(8, 40) if c["op"] in prod else 1)
        ops.append(kern_op(rng, c))
    ops += [kern_misc(rng, rng.choice([20, 34])) for _ in range(60 if ctx.quick else 600)]
    ops += [kern_misc(rng, rng.choice([2, 4, 7])) for _ in range(2500 if ctx.quick else 20000)]
    rng.shuffle(ops)
    cases = [dict(id="k%d" % i, ops=ops[i:i + 20]) for i in range(0, len(ops), 20)]
    judge(ctx, "KernCheck", cases, lambda c, r, o: kern_item(ctx, c, r, o), "kernels")


# ------------------------------------------------------------------ C19
def log_case(rng, cid, cmds, single=False):
    cs = []
    for c in cmds:
        c = list(c)
        if c[0] in ("out2", "cout2"):
            c[2] = int(c[2])
        cs.append(c)
    return dict(id=cid, ops=[dict(op="logsingle" if single else "log", cmds=cs)])


def log_item(ctx, c, rs, out, nr):
    if unsupported(ctx, rs[0]):
        return None
    d = os.path.join(out, c["id"] + ".d")
    con, files = [], []
    for r in range(nr):
        with open(os.path.join(d, "stdout.r%d" % r), errors="replace") as fh:
            con.append(fh.read())
    for n in sorted(os.listdir(d)):
        if not n.startswith("stdout.r"):
            with open(os.path.join(d, n), errors="replace") as fh:
                files.append([n, fh.read()])
    return dict(id=c["id"], nr=nr, con=con, files=files,
                cmds=[[str(x) for x in k] for k in c["ops"][0]["cmds"]])


LOGINV, LOGPROP = ["ConsoleMaster"], ["OthersUntouched", "OpensEmpty", "DetachedStays"]


def mod_logger(ctx):
    rng = random.Random(ctx.seed * 197 + 11)
    invs, props = LOGINV, LOGPROP
    for nr, depth in ((1, 4 if ctx.quick else 5), (3, 3 if ctx.quick else 4)):
        cs = configs(ctx, "LogDesign", "NR=%d Depth=%d" % (nr, depth), invs, props, what="LogDesign-%d" % nr, timeout=800)
        cs = pick(rng, cs, (1200 if nr == 1 else 300) if ctx.quick else (12000 if nr == 1 else 3000))
        cases = [log_case(rng, "l%d-%d" % (nr, i), c["cmds"]) for i, c in enumerate(cs)]
        # longer sequences by simulation of the specification
        long_ = simulate(ctx, "LogDesign", "NR=%d Depth=%d" % (nr, 14), 200 if ctx.quick else 2000, 14)
        cases += [log_case(rng, "L%d-%d" % (nr, i), c["cmds"]) for i, c in enumerate(long_)]
        judge(ctx, "LogCheck", cases, lambda c, r, o: log_item(ctx, c, r, o, nr), "log%d" % nr, nranks=nr)
        # the process-wide instance (first command opens a file)
        sc = [log_case(rng, "s%d-%d" % (nr, i), [["file", "a", ".log"]] + [x for x in c["cmds"] if x[0] != "master" or nr == 1],
                       True) for i, c in enumerate(pick(rng, long_, 60))]
        judge(ctx, "LogCheck", sc, lambda c, r, o: log_item(ctx, c, r, o, nr), "logsingle%d" % nr, nranks=nr)
        if ctx.viols:
            return


def simulate(ctx, module, consts, n, depth):
    """random behaviours of a specification, dumped when complete"""
    c = "SPECIFICATION Spec\nCONSTANTS %s Dump=TRUE BUG=\"none\"\nINVARIANT DumpInv\n" % consts
    wd = ctx.scr.sub("sim-%s-%d" % (module, len(os.listdir(ctx.scr.dir))))
    r = tlc(SPEC, module, c, wd, workers=1, timeout=600, mem="3g",
            extra=["-simulate", "num=%d" % n, "-depth", str(depth + 2), "-seed", str(ctx.seed)])
    out = []
    for ln in r["out"].splitlines():
        if ln.startswith('"CONFIG '):
            out.append(json.loads(json.loads(ln)[len("CONFIG "):]))
    if not out:
        raise ToolError("no behaviours from %s: %s" % (module, r["out"][-1500:]))
    return out


NUM = re.compile(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?")


def norm_lines(fn):
    """text lines without white space (column formatting is not at stake) and with timings masked"""
    if not os.path.exists(fn):
        return None
    with open(fn, errors="replace") as fh:
        txt = fh.read()
    out = []
    for ln in txt.split("\n"):
        if "seconds" in ln:
            ln = ln.split(":")[0]
        ln = " ".join(NUM.sub(lambda m: " %.10e " % (float(m.group(0)) + 0.0), ln).split())
        ln = re.sub(r"\s*([^\w\s.+-])\s*", r"\1", ln)
        if ln:
            out.append(ln)
    return out


def align(lines, ref):
    """numbers that agree with the reference's up to the printed precision are replaced by the reference's"""
    def same(a, b):
        return abs(float(a) - float(b)) <= 5e-3 * max(abs(float(a)), abs(float(b))) + 1e-6

    def one(a, b):
        if NUM.sub("#", a) != NUM.sub("#", b):
            return a
        x, y = NUM.findall(a), NUM.findall(b)
        return b if all(same(p, q) for p, q in zip(x, y)) else a
    return [one(a, ref[i]) if i < len(ref) else a for i, a in enumerate(lines)]


def mod_textlog(ctx):
    import mods as mo
    import scen
    rng = random.Random(ctx.seed * 199 + 23)
    cs = configs(ctx, "Session", 'Hosts={"A", "B"} Kinds={"fd", "mp", "fail", "t0", "tauerr"} Depth=%d' % (2 if ctx.quick else 3),
                 ["NonInterference"], what="Session-log")
    cs = [c["calls"] for c in cs if c["calls"][-1][0] == "B" and all(x[0] == "A" for x in c["calls"][:-1]) and c["calls"][-1][1] != "t0"]
    probs = {}
    for h in "AB":
        b = scen.base(rng, smear=0, maxiter=4 if h == "A" else 3, nk=2, nspin=1, occ=2, nb=3, npw=[6, 5], ne=4, restart=3)
        b.update(tol=1e-5, T=3000.0)
        b.pop("id", None)
        if h == "B":
            b.update(amp=0.3, freq=300, npw=[7, 5])
        probs[h] = b
    full, solo = [], {}
    for i, c in enumerate(cs):
        calls = [tuple(x) for x in c]
        full.append((dict(id="tx%d" % i, calls=mo.session_calls(calls, probs), poststate=False), calls))
        if calls[-1] not in solo:
            solo[calls[-1]] = dict(id="txs%d" % len(solo), calls=mo.session_calls([calls[-1]], probs), poststate=False)

    def run(scs, tag, nr=1):
        out = ctx.scr.sub("text-%s-%d" % (tag, len(os.listdir(ctx.scr.dir))))
        e = run_env()
        if nr == 1:
            with vlib.ThreadPoolExecutor(NCPU) as ex:
                for x in [ex.submit(vlib._run_batch, ctx.exe(), [s], out, 1, e, 120) for s in scs]:
                    x.result()
        else:
            run_scenarios(ctx.exe(), scs, out, nranks=nr)
        return out

    def lines(out, sid, nr=1):
        with open(os.path.join(out, sid + ".r0.ndjson")) as fh:
            t = fh.read()
        if "harness-error" in t:
            raise ToolError(t[-500:])
        d = os.path.join(out, sid + ".d")
        return norm_lines(os.path.join(d, "nlcg.out")), [norm_lines(os.path.join(d, "stdout.%d" % r)) or [] for r in range(nr)]
    ref = {k: lines(run([s], "solo"), s["id"])[0] for k, s in solo.items()}

    def item(s, calls, out):
        f, con = lines(out, s["id"])
        # console text of earlier calls is not in the log of the last one: judge it on single calls only
        rf = ref[calls[-1]] or []
        return dict(id=s["id"], exists=f is not None, file=align(f or [], rf), con=[[]], hasRef=True, ref=rf)
    out = run([s for s, _ in full], "ses")
    items = [(item(s, c, out), s, c) for s, c in full]
    # single calls, also distributed
    singles = []
    for nr in (1, 2, 3):
        scs = []
        for i in range(10 if ctx.quick else 60):
            nk = rng.choice([1, 2, 3])
            b = scen.base(rng, smear=rng.randrange(5), maxiter=rng.choice([0, 2, 4]), nk=nk, nspin=1, occ=2, nb=3,
                          npw=[6] * nk, ne=4, restart=rng.choice([2, 5]))
            b.update(id="tn%d-%d" % (nr, i), tol=rng.choice([1e-12, 10.0, 1e-3]), T=rng.choice([1000.0, 6000.0]), layoutC="padcol", layoutH="dense")
            b["dist"] = [rng.randrange(nr) for _ in range(nk)]
            scs.append(b)
        o = run(scs, "n%d" % nr, nr)
        for s in scs:
            f, con = lines(o, s["id"], nr)
            singles.append((dict(id=s["id"], exists=f is not None, file=f or [], con=con, hasRef=False, ref=[]), s, nr))
    ver = tlc_traces(ctx, "TextCheck", [x[0] for x in items] + [x[0] for x in singles], tag="text")
    for it, s, c in items:
        if ver[it["id"]][0]:
            i2 = item(s, c, run([s], "confirm"))
            v2 = tlc_traces(ctx, "TextCheck", [i2], tag="text-c")
            for p, why in v2[it["id"]][0] & ver[it["id"]][0]:
                ctx.violation(p, why, dict(scenario=s, item=i2))
    for it, s, nr in singles:
        if ver[it["id"]][0]:
            f, con = lines(run([s], "confirm", nr), s["id"], nr)
            i2 = dict(it, exists=f is not None, file=f or [], con=con)
            v2 = tlc_traces(ctx, "TextCheck", [i2], tag="text-c")
            for p, why in v2[it["id"]][0] & ver[it["id"]][0]:
                ctx.violation(p, why, dict(scenario=s, nranks=nr, item=i2))
    ctx.extra["textlogs"] = dict(sessions=len(items), single_calls=len(singles))


# ------------------------------------------------------------------ C20
def lazy_small(prog, lim=10**7):
    """values of a program stay small (C++ and TLC integers)"""
    R = []
    for c in prog:
        k, n = c["c"], len(R) + 1
        g = lambda i: R[i - 1]
        if k == "src":
            R.append({(e[0], e[1]): e[2] for e in c["v"]})
        elif k in ("map", "async"):
            R.append({q: 3 * x + n for q, x in g(c["a"]).items()})
        elif k in ("map2", "async2", "mul"):
            y = g(c["b"])
            R.append({q: x * y[q] if k == "mul" else 7 * x + 2 * y[q] + n for q, x in g(c["a"]).items()})
        elif k in ("force", "dup"):
            R.append(dict(g(c["a"])))
        elif k == "set":
            g(c["a"])[tuple(c["k"])] = c["v"]
        if any(abs(x) > lim for r in R for x in r.values()):
            return False
    return True


def lazy_vary(rng, prog):
    """other keys, values and communicators of the sources (key 0 of both stays: programs assign to it)"""
    extra = rng.sample([(k, s) for k in range(-1, 7) for s in range(3) if (k, s) != (0, 0)], 6)
    ka = [(0, 0)] + extra[:rng.randint(0, 3)]
    kb = ka + extra[3:3 + rng.randint(0, 3)]
    owns = [rng.choice(["world", "self"]) for _ in range(2)]
    out = []
    for i, c in enumerate(prog):
        c = dict(c)
        if c["c"] == "src":
            ks = list((ka, kb)[i])
            rng.shuffle(ks)
            c.update(own=owns[i], v=[[k, s, rng.randint(-50, 50)] for k, s in ks])
        elif c["c"] == "set":
            c["v"] = rng.randint(-90, 90)
        out.append(c)
    return out


def lazy_item(ctx, c, rs, out, nr):
    if unsupported(ctx, rs[0]):
        return None
    its = []
    for r in rs[0]:        # every rank must satisfy the specification; one item per rank is folded below
        ok = "exc" not in r and "steps" in r
        st = [dict(calls=s.get("calls", []), vals=s.get("vals", []), keys=s.get("keys", []), size=s.get("size", 0),
                   sum=ints(s.get("sum", 0))) for s in r.get("steps", [])]
        its.append(dict(id=c["id"], nr=nr, ok=ok, prog=c["ops"][0]["prog"], steps=st))
    first = its[0]
    # collections, calls and sums are the same on all ranks here: a differing rank is judged instead
    for x in its[1:]:
        if x != first:
            return x
    return first


def mod_lazy(ctx):
    rng = random.Random(ctx.seed * 211 + 29)
    cs = configs(ctx, "Lazy", "Depth=3", ["Values", "Calls"], what="Lazy", timeout=800)
    deep = simulate(ctx, "Lazy", "Depth=9", 1500 if ctx.quick else 15000, 9)
    progs = [c["prog"] for c in pick(rng, cs, 4000 if ctx.quick else 40000)] + [c["prog"] for c in deep]
    progs += [lazy_vary(rng, p) for p in pick(rng, progs, 2000 if ctx.quick else 20000)]
    progs = [p for p in progs if lazy_small(p)]
    ctx.sample(dict(program=progs[-1]))
    for nr in (1, 3):
        ps = progs if nr == 1 else pick(rng, progs, 500 if ctx.quick else 4000)
        cases = [dict(id="z%d-%d" % (nr, i), ops=[dict(op="lazy", prog=p)]) for i, p in enumerate(ps)]
        judge(ctx, "LazyCheck", cases, lambda c, r, o: lazy_item(ctx, c, r, o, nr), "lazy%d" % nr, nranks=nr)
        cases = []
        for i in range(150 if ctx.quick else 1000):
            ks = rng.sample([(k, s) for k in range(-1, 6) for s in range(3)], rng.randint(0, 5))
            v = [[k, s, rng.randint(-99, 99)] for k, s in ks]
            cases.append(dict(id="u%d-%d" % (nr, i), ops=[dict(op="unzip", own=rng.choice(["world", "self"]), v=v),
                                                          dict(op="opmap", v=v, times=rng.randint(1, 3)), dict(op="evalcomm")]))
        judge(ctx, "CollOps", cases, lambda c, r, o: collop_item(ctx, c, r, nr), "collops%d" % nr, nranks=nr)
        if ctx.viols:
            return


def collop_item(ctx, c, rs, nr):
    its = []
    for op, r in zip(c["ops"], rs):
        if unsupported(ctx, r):
            continue
        for x in r:
            o = dict(op=op["op"], exc="exc" in x, v=op.get("v", []), times=op.get("times", 0), got=[], n=[], c=[], forces=[], calls=[], copy=[], eval=[])
            if not o["exc"]:
                if op["op"] == "unzip":
                    o.update(got=[ints([e[:4] for e in x["plain"]]), ints([e[:4] for e in x["comm"]])],
                             n=x["plainn"] + x["commn"], c=x["commc"], good=all(e[4] for e in x["plain"] + x["comm"]))
                elif op["op"] == "opmap":
                    o.update(forces=ints(x["vals"]), calls=ints(x["calls"]), copy=ints(x["copy"]), c=[x["size"]], n=[x["ncreate"]])
                else:
                    o.update(eval=ints([x["own"], x["lazy"], x["total"], x["local"]]), c=[])
            o.setdefault("good", True)
            its.append(o)
    return dict(id=c["id"], nr=nr, ops=its)


# ------------------------------------------------------------------ C07, C08: chemical potential, occupations, entropy
KB = 0.00000316681156340226


def s_f(t, x):
    """occupation of a level with (mu - e)/kT = x, from the definitions"""
    q = math.sqrt(2)
    if t == 0:
        return 1 / (1 + math.exp(-x)) if x > 0 else math.exp(x) / (1 + math.exp(x)) if x > -700 else 0.0
    if t == 1:
        return 0.5 * math.exp(x * (q - x)) if x <= 0 else 1 - 0.5 * math.exp(-x * (q + x))
    if t == 2:
        return 0.5 * math.erfc(-x)
    if t == 3:
        return 0.5 * math.erfc(-x) + x * math.exp(-x * x) / (2 * math.sqrt(math.pi))
    z = x - 1 / q
    return 0.5 * math.erfc(-z) + math.exp(-z * z) / math.sqrt(2 * math.pi)


def s_d(t, x):
    q = math.sqrt(2)
    if t == 0:
        return s_f(0, x) * s_f(0, -x)
    if t == 1:
        return 0.5 * math.exp(-abs(x) * (q + abs(x))) * (q + 2 * abs(x))
    if t == 2:
        return math.exp(-x * x) / math.sqrt(math.pi)
    if t == 3:
        return math.exp(-x * x) * (1.5 - x * x) / math.sqrt(math.pi)
    return math.exp(-(x - 1 / q) ** 2) * (2 - q * x) / math.sqrt(math.pi)


def s_s(t, x):
    q = math.sqrt(2)
    if t == 0:
        return sum(-p * math.log(p) for p in (s_f(0, x), s_f(0, -x)) if p > 0)
    if t == 1:
        y = abs(x)
        return 0.25 * (2 * y * math.exp(-y * (q + y)) + math.sqrt(math.pi) * math.exp(0.5) * math.erfc(1 / q + y))
    if t == 2:
        return math.exp(-x * x) / (2 * math.sqrt(math.pi))
    if t == 3:
        return math.exp(-x * x) * (1 - 2 * x * x) / (4 * math.sqrt(math.pi))
    return math.exp(-(x - 1 / q) ** 2) * (1 - q * x) / (2 * math.sqrt(math.pi))


def sdig(x):
    return 0 if not x == x else 16 if x <= 1e-16 else max(0, min(16, int(math.floor(-math.log10(x)))))


def smear_op(rng, nr, ks, ws, t, T, occ, ne, **kw):
    """ks: spectra, ws: weights (not normalised)"""
    tot = sum(ws)
    keys = rng.sample([(k, s) for k in range(len(ks) + 2) for s in (0, 1)], len(ks))
    data = [[] for _ in range(nr)]
    for i, k in enumerate(ks):
        data[rng.randrange(nr)].append([keys[i][0], keys[i][1], ws[i] / tot, list(k)])
    return dict(op="occ", smear=t, T=T, occ=occ, ne=ne, data=data, **kw)


def smear_item(ctx, c, rs, out):
    its = []
    for op, r in zip(c["ops"], rs):
        if unsupported(ctx, r):
            continue
        t, T, occ, ne = op["smear"], op["T"], op["occ"], op["ne"]
        kT = KB * T
        lev = [(k[2], e) for d in op["data"] for k in d for e in k[3]]
        cap = occ * sum(w for w, _ in lev)
        mono = t < 3
        o = dict(mono=mono, exc=["exc" in x for x in r], exists="any", ne=16, fb=True, st=True, fd=16, ss=16, keys=True,
                 same=True, kept=all(x.get("kept", True) for x in r))
        N = lambda mu: occ * sum(w * s_f(t, (mu - e) / kT) for w, e in lev)
        if mono:
            if ne < -1e-8 or ne > cap + 1e-8:
                o["exists"] = "no"
            elif 1e-8 < ne < cap - 1e-8:
                es = [e for _, e in lev]
                big = max(abs(min(es)), abs(max(es))) + 45 * kT
                # resolution of the count in double precision
                if big * 2.3e-16 / kT * cap * 0.5 < 1e-12 and cap < 1000:
                    o["exists"] = "yes"
            elif max(abs(e) for _, e in lev) < 10 * 1.25 ** 100:
                o["exists"] = "yes" if cap < 1000 else "any"
        if not any(o["exc"]):
            mu = float(r[0]["mu"])
            S = float(r[0]["S"])
            o["same"] = all(x["mu"] == r[0]["mu"] and abs(float(x["S"]) - S) <= 1e-12 * max(1, abs(S)) for x in r)
            cnt = 0.0
            err = 0.0
            for d, x in zip(op["data"], r):
                want = {(k[0], k[1]): k for k in d}
                got = {(k[0], k[1]): k[2] for k in x["f"]}
                if set(want) != set(got) or any(len(got[k]) != len(want[k][3]) for k in want):
                    o["keys"] = False
                    continue
                for k in want:
                    for e, fv in zip(want[k][3], got[k]):
                        fv = float(fv)
                        cnt += want[k][2] * fv
                        ref = occ * s_f(t, (mu - e) / kT)
                        # rounding of (mu - e)/kT
                        slack = occ * (abs(mu) + abs(e)) / kT * 4e-16 + 1e-15 * occ
                        err = max(err, abs(fv - ref) - slack) if fv == fv else float("nan")
                        if mono and not (-1e-12 * occ <= fv <= occ * (1 + 1e-12)):
                            o["fb"] = False
            if o["keys"]:
                o["ne"] = sdig(abs(cnt - ne) * (1 - 1e-6) if mono else abs(cnt - ne) * 0.999)
                o["st"] = abs(occ * sum(w * s_d(t, (mu - e) / kT) for w, e in lev)) < 1e-2 * max(1, ne)
                o["fd"] = sdig(err / occ)
                ref = -occ * sum(w * s_s(t, (mu - e) / kT) for w, e in lev)
                sl = occ * sum(w * (abs(mu) + abs(e)) / kT for w, e in lev) * 4e-16
                o["ss"] = sdig(max(0.0, abs(S - ref) - sl) / max(1.0, cap))
        its.append(o)
    return dict(id=c["id"], ops=its)


def mod_smear(ctx):
    """chemical potential, occupations and entropy for the spectra enumerated by Fermi.tla and for large ones"""
    rng = random.Random(ctx.seed * 211 + 9)
    q = ctx.quick
    ctx.sample(dict(spec="Fermi"))
    cs = configs(ctx, "Fermi", "NK=2 NB=2 L=%d Mono=TRUE" % (2 if q else 3), ["Balanced", "OnlyIfNone"],
                 props=() if q else ("Ends",), what="Fermi-mono", timeout=800)
    configs(ctx, "Fermi", "NK=1 NB=3 L=%d Mono=FALSE" % (2 if q else 4), ["Balanced"], props=() if q else ("Ends",), dump=False,
            what="Fermi-overshoot", timeout=800)
    uniq = {}
    for c in cs:
        uniq[json.dumps([c["e"], c["w"]])] = (c["e"], c["w"])
    cs = pick(rng, [uniq[k] for k in sorted(uniq)], 500 if q else 6000)
    Ts = [50, 300, 1000, 3000, 10000, 30000]
    for nr in (1, 3):
        cases = []
        for i, (e, w) in enumerate(cs if nr == 1 else cs[::5]):
            ops = []
            for _ in range(4):
                t = rng.randrange(5)
                T = rng.choice(Ts)
                occ = rng.choice([1, 2])
                h = rng.choice([0.0, 1e-9, 1e-3, 0.02, 0.3, 2.0]) if rng.random() < 0.5 else KB * T * rng.choice([0.1, 1, 3, 8, 20, 38, 60])
                if t < 3 and rng.random() < 0.15:   # so cold that the count jumps between neighbouring numbers
                    T = 10 ** rng.uniform(-7, 0)
                    h = rng.choice([0.0, 0.02, 0.3])
                sh = rng.choice([0.0, 0.0, -3.0, 0.7, 20.0])
                ks = [[sh + h * x for x in l] for l in e]
                cap = occ * len(e[0])
                ne = rng.randint(0, cap) if t < 3 else rng.randint(1, cap - 1) if cap > 1 else 1
                if t < 3 and rng.random() < 0.06:
                    ne = rng.choice([-1, cap + 1, 1000])
                ops.append(smear_op(rng, nr, ks, w, t, T, occ, ne))
            cases.append(dict(id="sm%d-%d" % (nr, i), ops=ops))
        # wide spectra: every range of the smearing functions is visited
        for i in range(20 if q else 120):
            ops = []
            for t in range(5):
                T = rng.choice(Ts)
                kT = KB * T
                occ = rng.choice([1, 2])
                n = rng.choice([40, 101, 333])
                wd = rng.choice([3, 9, 12, 42, 50, 120, 800])
                ks = []
                for _ in range(rng.choice([1, 2, 5])):
                    o = rng.uniform(-1, 1)
                    ks.append(sorted(kT * (o + wd * (2 * (j + rng.random()) / n - 1)) for j in range(n)))
                ne = rng.randint(1, occ * n - 1) if rng.random() < 0.5 else occ * n // 2
                ops.append(smear_op(rng, nr, ks, [rng.randint(1, 5) for _ in ks], t, T, occ, ne))
            cases.append(dict(id="sw%d-%d" % (nr, i), ops=ops))
        judge(ctx, "SmearCheck", cases, lambda c, r, o: smear_item(ctx, c, r, o), "smear%d" % nr, nranks=nr)
        ctx.extra["spectra_%d_ranks" % nr] = sum(len(c["ops"]) for c in cases)
        if ctx.viols:
            return


# ------------------------------------------------------------------ C25 the Newton switch
def s_dd(t, x):
    if t == 3:
        return math.exp(-x * x) * x * (2 * x * x - 5) / math.sqrt(math.pi)
    q = math.sqrt(2)
    return math.exp(-(x - 1 / q) ** 2) * (q - 6 * x + 2 * q * x * x) / math.sqrt(math.pi)


def mu_search(fun, tol=1e-11):
    mu, de, s = 0.0, 0.1, 1
    for _ in range(1000):
        v = fun(mu)
        if abs(v) <= tol:
            break
        sp, s = s, 1 if v > 0 else -1
        de *= 1.25 if s == sp else 0.25
        mu += s * de
    return mu if abs(fun(mu)) < tol else None


def mu_newton(lev, t, kT, occ, ne):
    """documented procedure: Newton minimisation of (N - ne)^2 from the potential of Gauss smearing; None: failed"""
    S = lambda g, m: occ * sum(w * g((m - e) / kT) for w, e in lev)
    mu = mu_search(lambda m: ne - S(lambda x: s_f(2, x), m))
    if mu is None:
        return None
    N = lambda m: S(lambda x: s_f(t, x), m)
    for _ in range(1001):
        n, d, dd = N(mu) - ne, S(lambda x: s_d(t, x), mu) / kT, S(lambda x: s_dd(t, x), mu) / kT / kT
        ddF = 2 * d * d + 2 * n * dd
        if abs(ddF) < 1e-10:
            return None
        st = 2 * n * d / abs(ddF)
        mu -= st
        if abs(st) < 1e-11 or abs(n) < 1e-11:
            return None if abs(N(mu) - ne) > 1e-2 else mu
    return None


def switch_case(rng):
    """a spectrum for which the two procedures give different potentials (reproducibly under rounding)"""
    while True:
        t = rng.choice([3, 4])
        T = rng.choice([300, 1000, 3000])
        kT = KB * T
        occ = rng.choice([1, 2])
        n, nk = rng.choice([2, 3, 4, 6]), rng.choice([1, 2, 3])
        ks = [sorted(rng.uniform(-6, 6) * kT for _ in range(n)) for _ in range(nk)]
        ne = rng.randint(1, occ * n - 1)
        ref = []
        for eps in (0, 1e-13, -1e-13):
            lev = [(1.0 / nk, e + eps * kT * (i + 1)) for k in ks for i, e in enumerate(k)]
            a = mu_newton(lev, t, kT, occ, ne)
            b = mu_search(lambda m: ne - occ * sum(w * s_f(t, (m - e) / kT) for w, e in lev))
            if a is None or b is None:
                break
            ref.append((a, b))
        if len(ref) == 3 and abs(ref[0][0] - ref[0][1]) > 0.05 * kT and \
                all(abs(r[j] - ref[0][j]) < 1e-6 * kT for r in ref for j in (0, 1)):
            return dict(ks=ks, w=[1] * nk, t=t, T=T, occ=occ, ne=ne, mun=ref[0][0], mub=ref[0][1])


def switch_item(ctx, c, rs, setting):
    its = []
    for op, r in zip(c["ops"], rs):
        if unsupported(ctx, r):
            continue
        k = op["ref"]
        o = dict(setting=setting, mono=op["smear"] < 3, exc=any("exc" in x for x in r), ne=0, dn=0, ds=0)
        if not o["exc"]:
            mu = float(r[0]["mu"])
            kT = KB * op["T"]
            cnt = op["occ"] * sum(q[2] * s_f(op["smear"], (mu - e) / kT) for d in op["data"] for q in d for e in q[3])
            o["ne"] = sdig(abs(cnt - op["ne"]))
            if not o["mono"]:
                o["dn"] = sdig(abs(mu - k["mun"]) / kT)
                o["ds"] = sdig(abs(mu - k["mub"]) / kT)
            else:
                o["dn"] = o["ds"] = sdig(abs(mu - k["mu"]) / kT)
        its.append(o)
    return dict(id=c["id"], ops=its)


SETTINGS = {"unset": None, "zero": "0", "one": "1", "empty": "", "word": "yes", "double": "00"}


def mod_switch(ctx):
    """chemical potentials with every setting of the environment switch"""
    rng = random.Random(ctx.seed * 223 + 31)
    q = ctx.quick
    cs = configs(ctx, "Switch", "", ["OnIsExact", "OffIsNear", "ErrorOnlyIfNone", "MonotoneUnaffected"], what="Switch")
    settings = sorted({c["setting"] for c in cs})
    ops = []
    for _ in range(60 if q else 600):
        k = switch_case(rng)
        ops.append(dict(smear_op(rng, 1, k["ks"], k["w"], k["t"], k["T"], k["occ"], k["ne"]), ref=dict(mun=k["mun"], mub=k["mub"])))
    for _ in range(30 if q else 200):
        t, T, occ, n = rng.randrange(3), rng.choice([300, 3000]), rng.choice([1, 2]), rng.choice([2, 4])
        ks = [sorted(rng.uniform(-3, 3) * KB * T for _ in range(n))]
        ne = rng.randint(1, occ * n - 1)
        mu = mu_search(lambda m: ne - occ * sum(s_f(t, (m - e) / (KB * T)) for e in ks[0]))
        if mu is not None:
            ops.append(dict(smear_op(rng, 1, ks, [1], t, T, occ, ne), ref=dict(mu=mu)))
    ctx.sample(dict(settings=settings, spectrum=ops[0]["data"]))
    for st in settings:
        v = SETTINGS[st]
        env = {} if v is None else {"NLCGLIB_DISABLE_NEWTON_EFERMI": v}
        cases = [dict(id="sw-%s-%d" % (st, i), ops=ops[i::10]) for i in range(10)]

        def go(cl, tag):
            r, _ = run_kern(ctx, cl, tag, env=env)
            return tlc_traces(ctx, "SwitchCheck", [switch_item(ctx, c, r[c["id"]], st) for c in cl if r[c["id"]] is not None], tag=tag), \
                [c for c in cl if r[c["id"]] is None]
        ver, dead = go(cases, "switch-" + st)
        again = [c for c in cases if c in dead or ver[c["id"]][0]][:4]
        if again:
            v2, d2 = go(again, "switch-c")
            for c in again:
                if c in dead and c in d2:
                    ctx.violation("ANY", "operation does not return normally", dict(case=c, env=env))
                elif c["id"] in ver and c["id"] in v2:
                    for p, why in sorted(v2[c["id"]][0] & ver[c["id"]][0]):
                        ctx.violation(p, why, dict(case=c, env=env))
    ctx.extra["switch"] = dict(settings=settings, spectra=len(ops))
