"""Modules that compare equivalent runs: layouts, key order, distributions, entry points, call histories."""
import itertools, json, math, os, random
import vlib
from vlib import *
import abstract as ab
import mbt
import scen
from engine import SPEC, tlc_traces, judge_pool

f = ab.f


# ------------------------------------------------------------------ configurations from TLC
def configs(ctx, module, consts, invs, props=(), dump=True, workers=4, timeout=600, what=None):
    """model-check a specification and return the configurations it dumps"""
    c = "SPECIFICATION Spec\nCONSTANTS %s Dump=%s BUG=\"none\"\n" % (consts, str(dump).upper())
    for i in list(invs) + (["DumpInv"] if dump else []):
        c += "INVARIANT %s\n" % i
    for p in props:
        c += "PROPERTY %s\n" % p
    wd = ctx.scr.sub("cfg-%s-%d" % (module, len(os.listdir(ctx.scr.dir))))
    r = tlc(SPEC, module, c, wd, workers=workers, timeout=timeout, mem="4g")
    ctx.model(r, what or module)
    out, seen = [], set()
    for ln in r["out"].splitlines():
        if ln.startswith('"CONFIG '):
            s = json.loads(ln)[len("CONFIG "):]
            if s not in seen:
                seen.add(s)
                out.append(json.loads(s))
    return sorted(out, key=lambda x: json.dumps(x, sort_keys=True))


def pick(rng, xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return rng.sample(xs, n)


# ------------------------------------------------------------------ observations of a run
def state_of(res, call=0):
    """final host state of all ranks, by original k-point"""
    st = {}
    for r, evs in res.items():
        for e in evs:
            if e["e"] == "state" and e["i"] == call:
                for k in e.get("k", []) or []:
                    st[k["orig"]] = [float(x) for x in k["P"]] + [float(x) for x in k["f"]]
    return st


def obs(res, call=0):
    """sequence of (kind, values) of one call, from rank 0, and the final state of all ranks"""
    cs = ab.calls_of(res[0])
    out = []
    if call >= len(cs):
        return [("crash", [])]
    for e in cs[call]:
        k = e["e"]
        if k == "eval":
            out.append(("evaluation", [f(e["E"])]))
        elif k == "setmu":
            out.append(("chemical potential", [f(e["mu"])]))
        elif k == "rec":
            out.append(("record", [f(e.get("F")), f(e.get("S")), f(e.get("slope")), f(e.get("mu"))]))
            if e.get("bands"):
                out.append(("band data of a record", [f(x) for x in e.get("bandv", [])]))
        elif k == "ret":
            out.append(("result iter=%d conv=%s" % (e["iter"], e["conv"]), [f(e["F"]), f(e["S"]), f(e["tol"])]))
        elif k == "exc":
            out.append(("exception", []))
        elif k in ("timeout", "crash", "abnormal", "garbled"):
            out.append((k, []))
    st = state_of(res, call)
    for o in sorted(st):
        out.append(("final state of k-point %d" % o, st[o]))
    return out


def digits(a, b):
    """digits to which two value lists agree, relative to max(1, magnitude)"""
    if len(a) != len(b):
        return -1
    d = 17
    for x, y in zip(a, b):
        if x != x and y != y:
            continue
        d = min(d, ab.dig(abs(x - y) / max(1.0, abs(x), abs(y)) if x == x and y == y else float("nan")))
    return d


def pair_item(ident, prop, what, ref, run, pert, cap=9, slack=3):
    """reference, run and perturbed copies of the reference -> item for PairCheck"""
    n = max(len(ref), len(run))
    dg, sg, ok = [], [], True
    for i in range(n):
        r = ref[i] if i < len(ref) else None
        x = run[i] if i < len(run) else None
        dg.append(digits(r[1], x[1]) if r and x else -1)
        s = 17
        for p in pert:
            q = p[i] if i < len(p) else None
            if (q is None) != (r is None) or (q and r and q[0] != r[0]):
                ok = False
            elif q and r:
                s = min(s, digits(r[1], q[1]))
        sg.append(s if ok else -1)
    return dict(id=ident, ref=[r[0] for r in ref], run=[x[0] for x in run], dg=dg, sg=sg,
                cfg=dict(exact=False, prop=prop, what=what, cap=cap, slack=slack))


def exact_item(ident, prop, what, ref, run):
    return dict(id=ident, ref=ref, run=run, dg=[], sg=[], cfg=dict(exact=True, prop=prop, what=what, cap=9, slack=3))


def perts(s, n=2, eps=3e-14):
    return [dict(s, id="%s~%d" % (s["id"], i), eps=eps, epsseed=i + 1) for i in range(n)]


def run_batch(ctx, scs, tag, nranks=1, env=None, fresh=False, exe="nrun"):
    out = ctx.scr.sub("run-%s-%d" % (tag, len(os.listdir(ctx.scr.dir))))
    res = run_scenarios(ctx.exe(exe), scs, out, nranks=nranks, env=env, par=len(scs) if fresh else None)
    for s in scs:
        for r in res[s["id"]].values():
            for e in r:
                if e["e"] == "harness-error":
                    raise ToolError("harness error in %s: %s" % (s["id"], e["what"]))
    return res


def judge_pairs(ctx, prop, what, pairs, tag, rerun):
    """pairs: list of (item, replay); rerun(replay) -> item of a second execution (confirmation)"""
    ver = tlc_traces(ctx, "PairCheck", [p[0] for p in pairs], tag=tag)
    bad = [(it, rp) for it, rp in pairs if ver[it["id"]][0]]
    live = sum(v[2] for v in ver.values())
    ctx.extra.setdefault("pairs", {})[tag] = dict(compared=len(pairs), to_the_end=live,
                                                  observations=sum(v[1] for v in ver.values()))
    for it, rp in bad[:6]:
        it2 = rerun(rp)
        v2 = tlc_traces(ctx, "PairCheck", [it2], tag=tag + "-confirm")
        got = v2[it2["id"]][0]
        if got:
            for p, why in sorted(got):
                ctx.violation(p, why, dict(scenario=rp, trace={k: it2[k] for k in ("ref", "run", "dg", "sg")}))
        else:
            ctx.notes.append("unconfirmed (not repeated on a second run): %s" % it["id"])


def variant_pairs(ctx, prop, what, bases, tag, nranks=1, env=None):
    """bases: list of (reference scenario, [variant scenarios]); runs everything, compares each variant
    with its reference; the reference always runs serially"""
    refs, per = [], {}
    for b, vs in bases:
        refs.append(b)
        per[b["id"]] = perts(b)
        refs += per[b["id"]]
    rr = run_batch(ctx, refs, tag + "-ref", env=env)
    vv = [v for _, vs in bases for v in vs]
    groups = {}
    for v in vv:
        groups.setdefault(v.get("nranks", nranks), []).append(v)
    rv = {}
    for n, g in groups.items():
        rv.update(run_batch(ctx, g, tag + "-var%d" % n, nranks=n, env=env))
    pairs = []
    for b, vs in bases:
        o = obs(rr[b["id"]])
        ps = [obs(rr[p["id"]]) for p in per[b["id"]]]
        for v in vs:
            pairs.append((pair_item(v["id"], prop, what, o, obs(rv[v["id"]]), ps), dict(ref=b, run=v)))

    def rerun(rp):
        b, v = rp["ref"], rp["run"]
        r1 = run_batch(ctx, [b] + perts(b), tag + "-c", env=env)
        r2 = run_batch(ctx, [v], tag + "-c", nranks=v.get("nranks", nranks), env=env)
        return pair_item(v["id"], prop, what, obs(r1[b["id"]]), obs(r2[v["id"]]), [obs(r1[p["id"]]) for p in perts(b)])
    judge_pairs(ctx, prop, what, pairs, tag, rerun)
    return rr, rv


def pbase(rng, ident, **kw):
    """a base scenario for comparisons: moderate length, all smearings"""
    s = scen.base(rng, **kw)
    s.update(id=ident, poststate=True, layoutC=kw.get("layoutC", "dense"), layoutH=kw.get("layoutH", "dense"))
    s["tol"] = min(s["tol"], 1e-5)
    return s


# ------------------------------------------------------------------ C14 buffer layouts
def mod_buffers(ctx):
    rng = random.Random(ctx.seed * 101 + 3)
    shapes = [(3, 2), (2, 1), (4, 3)] if ctx.quick else [(3, 2), (2, 1), (4, 3), (4, 2), (5, 3), (3, 1), (6, 4)]
    bases = []
    nconf = 0
    for m, n in shapes:
        cs = configs(ctx, "Buffers", "M=%d N=%d S0MAX=%d S1MAX=%d" % (m, n, 5, 2 * m + 3), ["PaddingIntact", "ReadBack", "Injective"],
                     what="Buffers %dx%d" % (m, n)) if m * n <= 6 else \
            [dict(m=m, n=n, s0=a, s1=b) for a in range(1, 6) for b in range(1, 4 * m)
             if a * (m - 1) < b or b * (n - 1) < a]
        nconf += len(cs)
        lay = ["s:%d:%d" % (c["s0"], c["s1"]) for c in cs]
        nspin = rng.choice([1, 2])
        b = pbase(rng, "buf%dx%d" % (m, n), nb=n, npw=[m], nk=2, nspin=nspin, occ=1 if nspin == 2 else 2,
                  ne=max(1, (2 * n) // 2), maxiter=4, smear=rng.randrange(5), restart=3)
        if m == n:
            continue
        b["ne"] = min(b["ne"], b["occ"] * n * nspin - 1) or 1
        vs = []
        for i, l in enumerate(pick(rng, lay, 60 if ctx.quick else 400)):
            vs.append(dict(b, id="%s-c%d" % (b["id"], i), layoutC=l))
            vs.append(dict(b, id="%s-h%d" % (b["id"], i), layoutH=rng.choice(lay), layoutC=rng.choice(lay + ["dense"])))
        bases.append((b, vs))
    # larger problems in the named layouts
    for i in range(4 if ctx.quick else 30):
        b = pbase(rng, "bufg%d" % i, smear=i % 5)
        bases.append((b, [dict(b, id="%s-%s-%s" % (b["id"], lc, lh), layoutC=lc, layoutH=lh)
                          for lc, lh in [("padcol", "row"), ("rowpad", "padcol"), ("every2", "dense"), ("dense", "every2"),
                                         ("row", "rowpad"), ("padcol1", "padcol1")]]))
    # spacing of the vectors; hosts that keep their data elsewhere after an evaluation
    ms = configs(ctx, "HostMemory", "Trials=%d Iters=%d" % ((3, 2) if ctx.quick else (4, 4)), ["Sound"], ["Ends"],
                 what="HostMemory: hosts whose buffers move")
    for i in range(4 if ctx.quick else 30):
        kw = [dict(), dict(amp=0.1, freq=300), dict(maxiter=40, tol=1e-3), dict(amp=1.0, freq=3000)][i % 4]
        b = pbase(rng, "bufm%d" % i, **dict(dict(smear=(i + ctx.seed) % 5, maxiter=5), **kw))
        vs = [dict(b, id="%s-s%d%d" % (b["id"], f_, e_), strideF=f_, strideE=e_) for f_, e_ in ((2, 1), (1, 3), (3, 2))]
        for j, c in enumerate(pick(rng, ms, 20 if ctx.quick else len(ms))):
            vs.append(dict(b, id="%s-m%d" % (b["id"], j), moving=dict(bufs="".join(sorted(c["mv"])), when=c["when"]),
                           layoutC=rng.choice(["dense", "padcol", "row"]), strideF=rng.choice([1, 2])))
        bases.append((b, vs))
    variant_pairs(ctx, "C14", "the run depends on the buffer layout", bases, "buffers")
    # padding and input buffers, by the acceptor
    judge_pool(ctx, [v for _, vs in bases for v in vs][::3], "buffers-tr")
    ctx.extra["layouts"] = nconf


# ------------------------------------------------------------------ C15 keys
def mod_keys(ctx):
    rng = random.Random(ctx.seed * 103 + 5)
    cs = configs(ctx, "Keys", "NK=3 LabelSet=1", ["Matched"], what="Keys 3")
    cs4 = configs(ctx, "Keys", "NK=4 LabelSet=2", ["Matched"], what="Keys 4",
                  timeout=300)
    bases = []
    for i in range(3 if ctx.quick else 12):
        # three k-points of different size
        b = pbase(rng, "key3-%d" % i, nk=3, nspin=1, occ=2, nb=3, npw=[5, 8, 6], ne=4, maxiter=4, smear=(i + ctx.seed) % 5,
                  restart=rng.choice([2, 3]))
        vs = [dict(b, id="%s-%d" % (b["id"], j), order=c["order"], keys=c["keys"])
              for j, c in enumerate(pick(rng, cs, 45 if ctx.quick else len(cs)))]
        bases.append((b, vs))
    for i in range(2 if ctx.quick else 6):
        b = pbase(rng, "key4-%d" % i, nk=2, nspin=2, occ=1, nb=3, npw=[7, 5], ne=4, maxiter=4, smear=(i * 2 + ctx.seed) % 5,
                  restart=rng.choice([2, 3]))
        vs = [dict(b, id="%s-%d" % (b["id"], j), order=c["order"], keys=c["keys"])
              for j, c in enumerate(pick(rng, cs4, 45 if ctx.quick else len(cs4)))]
        bases.append((b, vs))
    # many keys, random orders and labels (also negative and large ones)
    for i in range(3 if ctx.quick else 15):
        b = pbase(rng, "keyn-%d" % i, nk=6, nspin=2, occ=1, nb=2, npw=[5, 7, 4], ne=2, maxiter=3, smear=i % 5)
        vs = []
        for j in range(4):
            o = list(range(12))
            rng.shuffle(o)
            labs = rng.sample([(a, c) for a in (-5, 0, 1, 2, 9, 1000, 2147483647) for c in (-1, 0, 1, 2)], 12)
            vs.append(dict(b, id="%s-%d" % (b["id"], j), order=o, keys=[list(x) for x in labs]))
        bases.append((b, vs))
    variant_pairs(ctx, "C15", "the run depends on enumeration order or key labels", bases, "keys")
    judge_pool(ctx, [v for _, vs in bases for v in vs][::4], "keys-tr")


# ------------------------------------------------------------------ C10 / C11 distributions
def rank_consistency(ctx, scs, res, nr):
    """all ranks report the same result (exactly the same decisions, values to rounding)"""
    items = []
    for s in scs:
        o0 = [x for x in obs(res[s["id"]]) if not x[0].startswith("final state") and "record" not in x[0]]
        for r in range(1, nr):
            o = [x for x in obs({0: res[s["id"]][r]}) if not x[0].startswith("final state") and "record" not in x[0]]
            it = pair_item("%s@%d" % (s["id"], r), "C10", "ranks disagree", o0, o, [], cap=12)
            items.append((it, s))
    return items


def coll_item(s, res, nr, ranks=None, tag=""):
    prog = []
    for r in (ranks if ranks is not None else range(nr)):
        p = []
        for e in res[s["id"]].get(r, []):
            if e["e"] == "coll":
                n = e["cnt"] * e["tsz"]
                p.append(dict(op=e["op"], n=n if e["op"] != "bcast" else 0, x=e["x"], c=e["cls"], s=e["tsz"]))
        prog.append(p)
    return dict(id=s["id"] + tag, prog=prog)


def rank_scenarios(ctx, n_per):
    """base problems with distributions chosen by TLC"""
    rng = random.Random(ctx.seed * 107 + 11)
    space = {}
    plans = [(2, 3), (3, 3), (2, 4)] if ctx.quick else [(2, 3), (3, 3), (2, 4), (3, 4), (4, 4), (4, 3)]
    for nr, nk in plans:
        big = nr * nk > 9
        space[(nr, nk)] = configs(ctx, "Ranks", "NR=%d NK=%d NRounds=%d" % (nr, nk, 2),
                                  ["Matching", "MasterOnly", "SameEnd"], props=() if big else ("AllEnd",),
                                  what="Ranks %d ranks %d keys" % (nr, nk))
    bases = []
    i = 0
    for (nr, nk), cs in sorted(space.items()):
        kinds = ["g", "p", "c", "g10"]
        for kd in kinds:
            i += 1
            nspin = 2 if nk % 2 == 0 else 1
            kw = dict(nk=nk // nspin, nspin=nspin, occ=1 if nspin == 2 else 2, nb=3, npw=[6, 5, 8], ne=3,
                      smear=(i + ctx.seed) % 5, restart=rng.choice([2, 3, 10]), maxiter=4)
            if kd == "p":
                kw.update(amp=rng.choice([0.01, 0.1, 1.0]), freq=rng.choice([30, 300]), maxiter=5)
            if kd == "c":
                kw.update(tol=1e-3, maxiter=40, T=8000)
            if kd == "g10":
                kw.update(maxiter=12, restart=3)
            b = pbase(rng, "rk%d-%d-%s%d" % (nr, nk, kd, i), **kw)
            if kd == "c":
                b["tol"] = 1e-3
            ds = pick(rng, cs, n_per)
            # always: everything on the last rank
            vs = [dict(b, id="%s-d%d" % (b["id"], j), dist=c["dist"], nranks=nr, logcoll=True,
                       jitter=rng.choice([0, 0, 50, 300]), jseed=rng.randrange(10**6))
                  for j, c in enumerate(ds + [dict(dist=[nr - 1] * nk)])]
            bases.append((b, vs))
    # non-monotone smearing with failing Newton, scripted single key
    return bases


def mod_ranks(ctx):
    bases = rank_scenarios(ctx, 4 if ctx.quick else 12)
    rr, rv = variant_pairs(ctx, "C10", "the run depends on the distribution of k-points", bases, "ranks")
    vs = [v for _, l in bases for v in l]
    for nr in sorted({v["nranks"] for v in vs}):
        sub = [v for v in vs if v["nranks"] == nr]
        items = rank_consistency(ctx, sub, rv, nr)

        def rerun(s, nr=nr):
            r = run_batch(ctx, [s], "rk-c", nranks=nr)
            its = rank_consistency(ctx, [s], r, nr)
            ver = tlc_traces(ctx, "PairCheck", [i for i, _ in its], tag="rk-c2")
            for i, _ in its:
                if ver[i["id"]][0]:
                    return i
            return its[0][0]
        judge_pairs(ctx, "C10", "ranks disagree", items, "ranks-agree%d" % nr, rerun)
        judge_pool(ctx, sub, "ranks-tr%d" % nr, nranks=nr)
    ctx.extra["distributions"] = len(vs)


def split_scenarios(ctx):
    """the world is split into groups with problems of their own (the library must use the host's communicator only)"""
    rng = random.Random(ctx.seed * 109 + 13)
    out = []
    for i in range(4 if ctx.quick else 24):
        nr = rng.choice([3, 4]) if not ctx.quick else [3, 4, 3, 4][i]
        color = [rng.randrange(2) for _ in range(nr)]
        color[rng.randrange(nr)] = 0
        if 1 not in color:
            color[nr - 1] = 1
        gs = []
        for g in range(2):
            n = color.count(g)
            b = pbase(rng, "x", nk=rng.choice([2, 3]), nspin=1, occ=2, nb=3, npw=[6, 5], ne=3, smear=rng.randrange(5),
                      maxiter=rng.choice([2, 3, 5, 11]), restart=rng.choice([2, 3]))
            b.pop("id")
            b["dist"] = [rng.randrange(n) for _ in range(b["nk"])]
            gs.append(b)
        out.append(dict(id="split%d" % i, color=color, groups=gs, nranks=nr, logcoll=True, jitter=rng.choice([0, 200]),
                        jseed=i, poststate=True))
    return out


def mod_split(ctx):
    """each group's run equals the serial run of its problem, and its collectives match"""
    scs = split_scenarios(ctx)
    refs, per = [], {}
    for s in scs:
        for g, b in enumerate(s["groups"]):
            r = {k: v for k, v in b.items() if k != "dist"}
            r["id"] = "%s-g%d" % (s["id"], g)
            refs.append(r)
            per[r["id"]] = perts(r)
    allr = refs + [p for l in per.values() for p in l]
    rr = run_batch(ctx, allr, "split-ref")
    res = {}
    for nr in {s["nranks"] for s in scs}:
        res.update(run_batch(ctx, [s for s in scs if s["nranks"] == nr], "split", nranks=nr))

    def items(s, res):
        its, cit = [], []
        for g in range(2):
            ranks = [r for r, c in enumerate(s["color"]) if c == g]
            sub = {i: res[s["id"]].get(r, []) for i, r in enumerate(ranks)}
            rid = "%s-g%d" % (s["id"], g)
            it = pair_item(rid, ctx.prop, "a group of ranks with its own communicator gets another result",
                           obs(rr[rid]), obs(sub), [obs(rr[p["id"]]) for p in per[rid]])
            its.append((it, s))
            cit.append(coll_item(s, res, s["nranks"], ranks, "-g%d" % g))
        return its, cit
    allp, allc = [], []
    for s in scs:
        a, c = items(s, res)
        allp += a
        allc += c

    def rerun(s):
        r = run_batch(ctx, [s], "split-c", nranks=s["nranks"])
        its, _ = items(s, r)
        ver = tlc_traces(ctx, "PairCheck", [i for i, _ in its], tag="split-c2")
        for i, _ in its:
            if ver[i["id"]][0]:
                return i
        return its[0][0]
    judge_pairs(ctx, ctx.prop, "split", allp, "split", rerun)
    if ctx.prop == "C11":
        ver = tlc_traces(ctx, "CollCheck", allc, tag="split-coll")
        back = {c["id"]: s for s in scs for c in items(s, res)[1]}
        for i, v in ver.items():
            for p, why in v[0]:
                ctx.violation(p, why, dict(scenario=back[i]))


STALE = ['{"type":"cg_iteration","F":-1.0,"step":%d}\n' % i for i in range(30)]


def mod_log(ctx):
    """the step log of distributed runs, in directories with left-overs of earlier runs"""
    rng = random.Random(ctx.seed * 139 + 23)
    bases = rank_scenarios(ctx, 2 if ctx.quick else 8)
    left = ["".join(STALE[:3]), "".join(STALE), "not json {", "\n", '{"type":"cg_iteration","step":0']
    for b, vs in bases:
        for v in vs:
            if rng.random() < 0.5:
                v["stale"] = rng.choice(left)
    variant_pairs(ctx, "C13", "the step log depends on the distribution of k-points", bases, "log")
    vs = [v for _, l in bases for v in l]
    for nr in sorted({v["nranks"] for v in vs}):
        judge_pool(ctx, [v for v in vs if v["nranks"] == nr], "log-tr%d" % nr, nranks=nr)
    one = []
    for i in range(25 if ctx.quick else 200):
        s = scen.base(rng, smear=i % 5, maxiter=rng.choice([0, 1, 3, 11, 12]), tol=rng.choice([1e-1, 1e-30]))
        s.update(id="st%d" % i, stale=rng.choice(left))
        one.append(s)
    judge_pool(ctx, one, "log-stale")


def mod_coll(ctx):
    bases = rank_scenarios(ctx, 5 if ctx.quick else 14)
    vs = [v for _, l in bases for v in l]
    for nr in sorted({v["nranks"] for v in vs}):
        sub = [v for v in vs if v["nranks"] == nr]
        res, ver, items = judge_pool(ctx, sub, "coll-tr%d" % nr, nranks=nr)
        cits = [coll_item(s, res, nr) for s in sub]
        ver = tlc_traces(ctx, "CollCheck", cits, tag="coll%d" % nr)
        byid = {s["id"]: s for s in sub}
        ctx.extra.setdefault("collectives", {})[str(nr)] = sum(v[1] for v in ver.values())
        for i, v in ver.items():
            if v[0]:
                r2 = run_batch(ctx, [byid[i]], "coll-c", nranks=nr)
                v2 = tlc_traces(ctx, "CollCheck", [coll_item(byid[i], r2, nr)], tag="coll-c")
                for p, why in v2[i][0]:
                    ctx.violation(p, why, dict(scenario=byid[i]))


# ------------------------------------------------------------------ C16 requests
def mod_requests(ctx):
    rng = random.Random(ctx.seed * 113 + 17)
    cs = configs(ctx, "Requests", "", ["Decided", "NoWorkBefore"], props=("Ends",), what="Requests")
    TV = dict(pos=3000.0, zero=0.0, neg=-300.0, nan="nan")
    scs, eq = [], []
    for i, c in enumerate(cs):
        q = c["req"]
        if q["temp"] == "nan":
            continue      # not expressible in the scenario file
        s = pbase(rng, "rq%d" % i, nk=1, nspin=1, occ=2, nb=2, npw=[4], ne=2, maxiter=3, restart=2, smear=0)
        s.update(api=q["api"], smearArg=q["smear"], T=TV[q["temp"]], memtype=q["mem"])
        if c["refused"]:
            s.update(expectExc="", excEvals=1)
        scs.append(s)
    keep = [s for s in scs if "expectExc" not in s]
    ref = [s for s in scs if "expectExc" in s]
    scs = keep + (pick(rng, ref, 260) if ctx.quick else ref)

    def accepted(res):
        bad = {}
        for s in scs:
            if s["id"] not in res:
                continue
            cs_ = ab.calls_of(res[s["id"]][0])
            end = [e["e"] for e in (cs_[0] if cs_ else []) if e["e"] in ab.TERMINAL]
            if "expectExc" in s and end[:1] == ["ret"]:
                bad[s["id"]] = {("C16", "an invalid request was carried out")}
            if "expectExc" not in s and end[:1] == ["exc"]:
                bad[s["id"]] = {("C16", "a valid request was refused")}
        return bad
    judge_pool(ctx, scs, "requests", extra_check=accepted)
    # several ranks sharing one k-point's wave functions
    sl = []
    for i in range(3):
        s = pbase(rng, "slab%d" % i, nk=2, nspin=1, occ=2, nb=2, npw=[4], ne=2, maxiter=3, smear=i)
        s.update(slabcomm="world", expectExc="", excEvals=2)
        sl.append(s)

    def acc2(res):
        return {s["id"]: {("C16", "an invalid request was carried out")} for s in sl if s["id"] in res and
                any(e["e"] == "ret" for e in res[s["id"]][0])}
    judge_pool(ctx, sl, "slab", nranks=2, extra_check=acc2)
    # the combined entry point is the CPU one; every smearing selects its own method
    a = []
    for i in range(40 if ctx.quick else 160):
        s = pbase(rng, "api%d" % i, smear=i % 5, maxiter=[3, 6, 12][i % 3], restart=[20, 2, 1][i // 5 % 3])
        s.update(kappa=[0.3, 1.1][i // 15 % 2], tau=[0.45, 0.11][i % 2])
        if i % 3 == 1:
            s.update(amp=1.0, freq=300)
        a += [dict(s, id=s["id"] + "-cpu", api="us_cpu"), dict(s, id=s["id"] + "-dc", api="us_device_cpu")]
    res, ver, _ = judge_pool(ctx, a, "apis")
    byid = {x["id"]: x for x in a}
    kinds = {}
    for iid, (v, n, nr) in ver.items():
        for x in v:
            kinds.setdefault(x, {}).setdefault(byid[iid.split("#")[0]]["smear"], iid)
    for (p, why), ks in sorted(kinds.items()):
        # what goes wrong for some of the smearings only: their request is not carried out as it was made
        if ctx.prop != "C16" or (p != "C08" and not (p in ("C03", "C21", "C22", "C23") and len(ks) < 5)):
            continue
        for iid in sorted(ks.values())[:2]:
            s = byid[iid.split("#")[0]]
            r2, v2, _ = judge_pool(ctx, [s], "apis-c")
            if any(x == (p, why) for x in v2[iid][0]):
                ctx.violation("C16", ("the smearing that was asked for is not the one used: " if p == "C08" else
                                      "a parameter of the request is not the one used with this smearing: ") + why, dict(scenario=s))
    prs = [(exact_item(a[j]["id"], "C16", "the combined entry point behaves differently from the CPU one",
                       tokens(res[a[j]["id"]]), tokens(res[a[j + 1]["id"]])), dict(ref=a[j], run=a[j + 1]))
           for j in range(0, len(a), 2)]

    def rerun(rp):
        r = run_batch(ctx, [rp["ref"], rp["run"]], "apis-c2")
        return exact_item(rp["ref"]["id"], "C16", "the combined entry point behaves differently from the CPU one",
                          tokens(r[rp["ref"]["id"]]), tokens(r[rp["run"]["id"]]))
    judge_pairs(ctx, "C16", "api", prs, "apis", rerun)


# ------------------------------------------------------------------ C17 sessions
def tokens(res, call=0, rank=0):
    cs = ab.calls_of(res[rank])
    if call >= len(cs):
        return ["missing"]
    out = []
    for e in cs[call]:
        k = e["e"]
        if k == "eval":
            out.append("evaluation E=%s ne=%s" % (e["E"], e["ne"]))
        elif k == "setmu":
            out.append("mu=%s" % e["mu"])
        elif k == "rec":
            out.append("record %s F=%s S=%s slope=%s mu=%s" % (e.get("step"), e.get("F"), e.get("S"), e.get("slope"), e.get("mu")))
        elif k == "ret":
            out.append("result F=%s S=%s tol=%s iter=%d conv=%s state=%s" % (e["F"], e["S"], e["tol"], e["iter"], e["conv"],
                                                                            e["st"]["hash"]))
        elif k == "exc":
            out.append("exception %s state=%s" % (e["what"][:80], e["st"]["hash"]))
        elif k in ("timeout", "crash", "abnormal"):
            out.append(k)
    return out


def session_calls(cfg, probs, rng=None):
    K = dict(fd=dict(smear=0, smearArg=0), spline=dict(smear=1, smearArg=1), mp=dict(smear=3, smearArg=3),
             cold=dict(smear=4, smearArg=4), fail=dict(smear=2, smearArg=2, maxiter=40, tau=0.5, restart=2),
             dev=dict(api="us_device", expectExc="", excEvals=0),
             t0=dict(T=0.0, expectExc="", excEvals=1), mvp2=dict(api="mvp2_cpu", expectExc="", excEvals=0),
             smear9=dict(smearArg=9, expectExc="", excEvals=0), hot=dict(smear=0, smearArg=0, T=20000.0, maxiter=3),
             tauerr=dict(smear=0, smearArg=0, tau=1.5, maxiter=12, expectExc="", excEvals=10**6))
    return [dict(K[k], host=h, **{a: b for a, b in probs[h].items() if a not in K[k]}) for h, k in cfg]


def mod_session(ctx):
    rng = random.Random(ctx.seed * 127 + 19)
    quickK = '{"fd", "mp", "fail", "t0", "dev"}'
    thorK = '{"fd", "spline", "mp", "cold", "fail", "dev", "t0", "smear9", "hot"}'
    cs = configs(ctx, "Session", 'Hosts={"A", "B"} Kinds=%s Depth=3' % (quickK if ctx.quick else thorK),
                 ["NonInterference", "RefusedLeaveNoTrace"], what="Session")
    cs = pick(rng, cs, 90 if ctx.quick else 900)
    probs = {}
    for h, sd in (("A", 1), ("B", 2)):
        b = scen.base(rng, smear=0, maxiter=4, nk=2, nspin=1, occ=2, nb=3, npw=[6, 5], ne=4, restart=3)
        b.update(tol=1e-5, T=3000.0)
        if h == "B":
            b.update(amp=0.3, freq=300, npw=[7, 5], nspin=2, occ=1)
        b.pop("id", None)
        probs[h] = b
    full, solo = [], {}
    for i, c in enumerate(cs):
        calls = [tuple(x) for x in c["calls"]]
        full.append((dict(id="ses%d" % i, calls=session_calls(calls, probs), poststate=False), calls))
        for h in "AB":
            p = tuple(x for x in calls if x[0] == h)
            if p and p not in solo:
                solo[p] = dict(id="solo%d" % len(solo), calls=session_calls(p, probs), poststate=False)
    rs = run_batch_fresh(ctx, list(solo.values()), "solo")
    rf = run_batch(ctx, [s for s, _ in full], "session")

    def items(s, calls, rf):
        its = []
        for h in "AB":
            p = tuple(x for x in calls if x[0] == h)
            if not p:
                continue
            idx = [i for i, x in enumerate(calls) if x[0] == h]
            for n, i in enumerate(idx):
                its.append(exact_item("%s-%s%d" % (s["id"], h, n), "C17",
                                      "result depends on earlier calls in the process",
                                      tokens(rs[solo[p]["id"]], n), tokens(rf[s["id"]], i)))
        return its
    pairs = []
    for s, calls in full:
        pairs += [(it, dict(s=s, calls=calls)) for it in items(s, calls, rf)]

    def rerun(rp):
        r = run_batch(ctx, [rp["s"]], "ses-c")
        its = items(rp["s"], rp["calls"], r)
        ver = tlc_traces(ctx, "PairCheck", its, tag="ses-c2")
        for i in its:
            if ver[i["id"]][0]:
                return i
        return its[0]
    judge_pairs(ctx, "C17", "session", pairs, "session", rerun)
    # repeating runs: all scenarios of the pool in one process (in two different orders) against fresh ones
    pl = pick(rng, scen.pool(ctx.seed + 77, "quick", 1.0), 48 if ctx.quick else 160)
    for s in pl:
        s.pop("pair", None)
    # (and with other contents of uninitialised memory)
    rev = [dict(s, heap=0x3F, dirty=0x11) for s in reversed(pl)]
    r1 = run_batch_fresh(ctx, pl, "pool-fresh")
    r2 = run_batch(ctx, rev, "pool-rev")

    def pit(s, a, b):
        return exact_item(s["id"], "C17", "repeating a run gives another result", tokens(a[s["id"]]), tokens(b[s["id"]]))
    judge_pairs(ctx, "C17", "repeat", [(pit(s, r1, r2), s) for s in pl], "repeat",
                lambda s: pit(s, run_batch_fresh(ctx, [s], "rep-c"), run_batch(ctx, rev, "rep-c2")))
    # the sequences themselves are accepted call by call
    judge_pool(ctx, [s for s, _ in full][::3], "session-tr")
    scripted_sessions(ctx, rng)


def scripted_sessions(ctx, rng):
    """behaviours of the design one after another in one process, in two orders: every end meets every beginning"""
    bs, _ = mbt.behaviours(SPEC, ctx.scr.sub("ses-mbt"), [1, 2, 3, 5], [1, 2, 3], simulate=1600 if ctx.quick else 16000, seed=ctx.seed + 31)
    scs = [mbt.concretise(b, rng, "sq%d" % i) for i, b in enumerate(bs)]
    scs = [s for s in scs if s is not None]
    other = list(scs)
    rng.shuffle(other)

    def chunks(x):
        return [x[i::NCPU] for i in range(NCPU)]

    def go(cl, tag):
        out = ctx.scr.sub("sq-%s-%d" % (tag, len(os.listdir(ctx.scr.dir))))
        with vlib.ThreadPoolExecutor(NCPU) as ex:
            for x in [ex.submit(vlib._run_batch, ctx.exe(), c, out, 1, run_env(), 300) for c in cl if c]:
                x.result()
        return {s["id"]: {0: load_trace(os.path.join(out, "%s.r0.ndjson" % s["id"]))} for c in cl for s in c}
    o1, o2 = chunks(scs), chunks(other)
    r1, r2 = go(o1, "a"), go(o2, "b")
    why = "result depends on earlier calls in the process"
    prs = [(exact_item(s["id"], "C17", why, tokens(r1[s["id"]]), tokens(r2[s["id"]])), s) for s in scs]
    ver = tlc_traces(ctx, "PairCheck", [it for it, _ in prs], tag="sq")

    def dev(s, r):
        c = ab.calls_of(r[s["id"]][0])
        return not c or (sum(e["e"] == "eval" for e in c[0]), sum(e["e"] == "rec" for e in c[0])) != (s["expect"]["n"], s["expect"]["nrec"])
    cand = [s for s in scs if ver[s["id"]][0] or dev(s, r1) or dev(s, r2)]
    ctx.extra.setdefault("pairs", {})["scripted"] = dict(compared=len(scs), orders=2, suspicious=len(cand))
    for s in cand[:8]:
        alone = tokens(run_batch_fresh(ctx, [s], "sq-f")[s["id"]])
        for o in (o1, o2):
            c = next(x for x in o if s in x)
            c = c[:c.index(s) + 1]
            again = go([c], "c")
            it = exact_item(s["id"], "C17", why, alone, tokens(again[s["id"]]))
            for p, w in sorted(tlc_traces(ctx, "PairCheck", [it], tag="sq-c")[it["id"]][0]):
                ctx.violation(p, w, dict(sequence=c, deviating=s["id"]))


def run_batch_fresh(ctx, scs, tag):
    """every scenario in a process of its own"""
    out = ctx.scr.sub("fresh-%s-%d" % (tag, len(os.listdir(ctx.scr.dir))))
    exe = ctx.exe()
    e = run_env()
    with vlib.ThreadPoolExecutor(NCPU) as ex:
        for x in [ex.submit(vlib._run_batch, exe, [s], out, 1, e, 120) for s in scs]:
            x.result()
    return {s["id"]: {0: load_trace(os.path.join(out, "%s.r0.ndjson" % s["id"]))} for s in scs}


# ------------------------------------------------------------------ C24 failing host callbacks
CBS = dict(read=["etot", "comps", "getfn", "getek", "getwk", "getmu", "hphi", "getC", "matrix", "ne", "occ", "pinfo"],
           op=["S", "P"], give=["setfn", "setmu"], eval=["compute"])
MUTS = ("setfn", "setmu", "compute", "S", "P")


def fault_item(s, ref, res):
    evs = res[s["id"]][0]
    cs = ab.calls_of(evs)
    c = cs[0] if cs else []
    end = [e for e in c if e["e"] in ab.TERMINAL]
    dead = not end or end[0]["e"] not in ("ret", "exc") or len(cs) < 2
    fired = any(e["e"] == "fault" for e in c)
    t = dict(id=s["id"], ref=tokens(ref), fired=fired, dead=dead, want=s["calls"][0]["fault"]["type"], muts=0, same=True,
             got="none", run=[], next=[])
    if fired:
        i = next(k for k, e in enumerate(c) if e["e"] == "fault")
        t["run"] = tokens({0: c[:i]}) if i else []
        t["muts"] = sum(e["e"] == "after" and e["cb"] in MUTS for e in c[i:])
    elif not dead:
        t["run"] = tokens({0: c})
    if not dead:
        e = end[0]
        t["got"] = "result" if e["e"] == "ret" else e.get("type", "other") if e.get("code") == 4711 else "other"
        t["same"] = not fired or (bool(e["st"]["cSame"]) and bool(e["st"]["intact"]) and e["st"]["stray"] == 0)
        t["next"] = tokens(res[s["id"]], 1)
    return t


def mod_faults(ctx):
    """the host fails at a chosen callback of the run"""
    rng = random.Random(ctx.seed * 149 + 29)
    q = ctx.quick
    cs = configs(ctx, "Faults", "MaxIt=%d MaxEval=%d" % ((2, 3) if q else (3, 4)), ["Delivered", "NoErrorInvented", "NothingAfter"],
                 what="Faults")
    want = {(c["cb"], c["at"]) for c in cs}
    bases = []
    for i in range(8 if q else 30):
        kw = [dict(maxiter=3), dict(maxiter=4, amp=1.0, freq=300), dict(maxiter=40, tol=1e-2, T=8000), dict(maxiter=12, amp=0.1, freq=3000),
              dict(maxiter=6, dropN=2, dropA=1.0)][i % 5]
        b = scen.base(rng, **dict(dict(smear=i % 5, nk=rng.choice([1, 2]), restart=rng.choice([1, 2, 3])), **kw))
        bases.append(dict(b, id="fl%d" % i))
    ref = run_batch(ctx, bases, "fault-ref")
    scs, back = [], {}
    for b in bases:
        end = [e for e in ab.calls_of(ref[b["id"]][0])[0] if e["e"] in ("ret", "exc")]
        if not end:
            continue
        n = end[0]["cbs"]
        for kind in sorted(k for k in n if any(k in CBS[c] for c, _ in want)):
            ns = {1, n[kind]} | {rng.randint(1, n[kind]) for _ in range(3 if q else 14)} | {n[kind] + 1}
            for k in sorted(ns):
                p = {x: y for x, y in b.items() if x != "id"}
                s = dict(id="%s-%s-%d" % (b["id"], kind, k), poststate=False,
                         calls=[dict(p, host="A", fault=dict(cb=kind, n=k, type=rng.choice("abc"))), dict(p, host="B")])
                scs.append(s)
                back[s["id"]] = b
    res = run_batch(ctx, scs, "fault")
    items = [fault_item(s, ref[back[s["id"]]["id"]], res) for s in scs]
    ver = tlc_traces(ctx, "FaultCheck", items, tag="fault")
    ctx.sample(dict(scenario=scs[0]["id"], fault=scs[0]["calls"][0]["fault"]))
    ctx.extra["faults"] = dict(injected=sum(t["fired"] for t in items), not_reached=sum(not t["fired"] for t in items),
                               by_callback={k: sum(t["fired"] and s["calls"][0]["fault"]["cb"] == k for t, s in zip(items, scs))
                                            for l in CBS.values() for k in l})
    byid = {s["id"]: s for s in scs}
    for i in sorted(ver):
        v = {x for x in ver[i][0] if ctx.relevant(x[0])}
        if not v or len(ctx.viols) > 20:
            continue
        s, b = byid[i], back[i]
        r1 = run_batch(ctx, [b], "fault-c")
        r2 = run_batch(ctx, [s], "fault-c")
        it = fault_item(s, r1[b["id"]], r2)
        v2 = tlc_traces(ctx, "FaultCheck", [it], tag="fault-c")[i][0]
        for p, why in sorted(v & v2):
            ctx.violation(p, why, dict(scenario=s, trace=it))


# ------------------------------------------------------------------ C26 resources
def res_item(s, res, rank=0):
    ks = ("heap", "bytes", "fd", "thread", "type", "comm", "group", "op", "handle")
    what = "resi" if s.get("resEval") else "res"
    pts = [dict({k: e[k] for k in ks}, kept=e.get("kept", True)) for e in res[s["id"]][rank] if e["e"] == what]
    n = s["want"] if what == "res" else len(pts)
    return dict(id="%s.%d" % (s["id"], rank), kind="calls" if what == "res" else "evals", pts=pts, cyc=s["cyc"], warm=s["warm"], want=n)


def mod_resources(ctx):
    rng = random.Random(ctx.seed * 151 + 31)
    q = ctx.quick
    cs = configs(ctx, "Resources", "MaxCyc=%d Rounds=3 MaxIt=2" % (2 if q else 3), ["Nothing", "Bounded", "Flat"], what="Resources")
    cs = pick(rng, [c["cyc"] for c in cs], 30 if q else 150)
    K = dict(done=[dict(maxiter=3), dict(maxiter=1), dict(maxiter=0)],
             conv=[dict(maxiter=60, tol=1e-2, T=8000)],
             nodescent=[dict(smear=2, smearArg=2, maxiter=40, tau=0.5, restart=2), dict(maxiter=12, amp=1.0, freq=3000)],
             hosterr=[dict(maxiter=4, fault=dict(cb=cb, n=n, type=t)) for cb, n in
                      (("compute", 1), ("compute", 3), ("S", 4), ("P", 3), ("hphi", 3), ("setfn", 2), ("getC", 2), ("getwk", 1), ("getek", 3))
                      for t in "ab"],
             refused=[dict(smearArg=9), dict(T=0.0), dict(api="us_device"), dict(api="mvp2_cpu")])
    for nr, sel in ((1, cs), (2, [c for c in cs if "hosterr" not in c and "refused" not in c][:6] + [["done"]])):
        rounds = 20
        scs = []
        for i, c in enumerate(sel):
            b = pbase(rng, "res%d-%d" % (nr, i), nk=2, nspin=rng.choice([1, 2]), nb=3, ne=rng.choice([2, 3]), smear=i % 5, maxiter=3, restart=3)
            ch = [dict(rng.choice(K[e]), host="A", newhost=True) for e in c]
            b.update(res=True, poststate=False, timeout=100, calls=ch * rounds, cyc=len(c), warm=2, want=len(c) * rounds)
            b.pop("npw", None)
            scs.append(b)
        # one long call
        for j in range(6 if q else 20):
            b = pbase(rng, "rev%d-%d" % (nr, j), nk=2, nb=3, ne=3, smear=[0, 1, 4, 2, 3][j % 5], maxiter=25, restart=2 + 5 * (j % 2))
            b.update(tol=1e-30, resEval=True, poststate=False, cyc=1, warm=6, want=0, amp=0.3 * (j % 2), freq=40)
            scs.append(b)
        def go(l, tag):
            r = run_batch(ctx, l, tag, nranks=nr)
            return [(res_item(s, r, k), s) for s in l for k in range(nr)]
        its = go(scs, "res%d" % nr)
        ver = tlc_traces(ctx, "ResCheck", [t for t, _ in its], tag="res%d" % nr)
        ctx.extra.setdefault("resources", {})["%d ranks" % nr] = dict(
            histories=len(sel), calls=sum(s["want"] for s in scs), evaluations=sum(len(t["pts"]) for t, s in its if s.get("resEval")))
        for t, s in its:
            v = {x for x in ver[t["id"]][0] if ctx.relevant(x[0])}
            if v and len(ctx.viols) < 8:
                t2 = [x for x, _ in go([s], "res-c")]
                v2 = tlc_traces(ctx, "ResCheck", t2, tag="res-c")[t["id"]][0]
                for p, why in sorted(v & v2):
                    ctx.violation(p, why, dict(scenario=s, measured=t["pts"][:3] + t["pts"][-3:]))
    ctx.sample(dict(cycles=cs[:5]))


# ------------------------------------------------------------------ C27 use of the host
def host_item(s, res, rank=0):
    cs = []
    for e in res[s["id"]].get(rank, []):
        if e["e"] == "cb":
            cs.append(dict(c=e["cb"], fresh=bool(e["fresh"]), late=bool(e["late"])))
        elif e["e"] == "thread":
            cs.append(dict(c="thread", fresh=True, late=False))
        elif e["e"] == "call" and cs and e["i"] > 0:
            cs.append(dict(c="begin", fresh=True, late=False))
    return dict(id="%s.%d" % (s["id"], rank), calls=cs or [dict(c="none", fresh=True, late=False)])


def mod_host(ctx):
    rng = random.Random(ctx.seed * 157 + 37)
    q = ctx.quick
    configs(ctx, "HostProto", "MaxStep=%d" % (3 if q else 5), ["Serial", "Fresh", "OfThisPoint", "NoneAfter"], what="HostProto", dump=False)
    pl = [dict(s) for s in pick(rng, scen.pool(ctx.seed + 31, "quick", 1.0), 80 if q else 400)]
    for i, s in enumerate(pl):
        s.pop("pair", None)
        s.update(strict=True, poststate=False)
        if i % 4 == 3 and "calls" not in s and s.get("kind", "toy") == "toy":
            s["fault"] = dict(cb=rng.choice(["compute", "S", "P", "hphi", "setfn", "getC", "getek"]), n=rng.randint(1, 6), type=rng.choice("abc"))
    two = []
    for i in range(6 if q else 40):
        b = pbase(rng, "hp%d" % i, nk=rng.choice([1, 2, 3]), smear=i % 5, maxiter=5)
        b.update(strict=True, poststate=False)
        two.append(b)
    for nr, scs in ((1, pl), (2, two)):
        def go(l, tag):
            r = run_batch(ctx, l, tag, nranks=nr)
            return [(host_item(s, r, k), s) for s in l for k in range(nr)]
        its = go(scs, "host%d" % nr)
        ver = tlc_traces(ctx, "HostCheck", [t for t, _ in its], tag="host%d" % nr)
        ctx.extra.setdefault("host_calls", {})["%d ranks" % nr] = sum(len(t["calls"]) for t, _ in its)
        for t, s in its:
            v = {x for x in ver[t["id"]][0] if ctx.relevant(x[0])}
            if v and len(ctx.viols) < 8:
                t2 = [x for x, _ in go([s], "host-c")]
                v2 = tlc_traces(ctx, "HostCheck", t2, tag="host-c")[t["id"]][0]
                for p, why in sorted(v & v2):
                    ctx.violation(p, why, dict(scenario=s, last_calls=t["calls"][-20:]))
    ctx.sample(dict(scenario=pl[0]["id"], calls=[c["c"] for c in its[0][0]["calls"]][:40]))


# ------------------------------------------------------------------ C28 presentations of one problem
def present(rng, base, seq):
    """the base scenario in another presentation; seq: names of spec/Symmetry.tla"""
    v = dict(base, tf=[])
    lam, cc, occ = 1.0, 0.0, 1.0
    for nm in seq:
        sd = rng.randrange(1, 10 ** 6)
        if nm in ("up", "down"):
            c = rng.choice([0.5, 3.0, 20.0]) * min(1.0, 2 * base["spread"]) * (1 if nm == "up" else -1)
            v["tf"].append(dict(t="shift", c=c))
            cc += c
        elif nm == "scale":
            l = rng.choice([2.0, 0.5, 4.0])
            v["tf"].append(dict(t="scale", l=l))
            lam, cc = lam * l, cc * l
        elif nm == "pad":
            v["tf"].append(dict(t="pad", n=rng.choice([1, 3])))
        elif nm == "gl":
            # the conjugate direction is made tangent in the metric of the basis: only rotations keep it
            v["tf"].append(dict(t="gl", seed=sd, unitary=base["restart"] > 1))
        elif nm == "clone":
            v["tf"].append(dict(t="clone", k=rng.randrange(8)))
        else:
            if nm == "spin":
                occ /= 2
            v["tf"].append(dict(t=nm, seed=sd))
    v.update(T=base["T"] * lam, tol=base["tol"] * lam, sym=dict(lam=lam, cc=cc, occ=occ))
    return v


def sym_obs(res, s):
    """observations of a run, expressed in the units and for the k-points of the original presentation"""
    y = s.get("sym", dict(lam=1.0, cc=0.0, occ=1.0))
    lam, cc, ne = y["lam"], y["cc"], s["ne"]
    out = []
    for kind, v in obs(res):
        if kind == "evaluation":
            v = [(v[0] - cc * ne) / lam]
        elif kind == "chemical potential":
            v = [(v[0] - cc) / lam]
        elif kind == "record":
            v = [(v[0] - cc * ne) / lam, v[1] / lam, v[2] / lam, (v[3] - cc) / lam]
        elif kind.startswith("band data") or kind.startswith("final state"):
            continue
        elif kind.startswith("result"):
            v = [(v[0] - cc * ne) / lam, v[1] / lam, v[2] / lam]
        out.append((kind, v))
    st = {}
    for r, evs in res.items():
        for e in evs:
            if e["e"] == "state" and e["i"] == 0:
                for k in e.get("k", []) or []:
                    st.setdefault(k["orig"], []).append(sorted(float(x) / y["occ"] for x in k["f"]))
    for o in sorted(st):
        cp = st[o]
        out.append(("occupations of k-point %d" % o, cp[0] + [max(abs(a - b) for c in cp for a, b in zip(c, cp[0]))]))
    return out


def mod_symmetry(ctx):
    rng = random.Random(ctx.seed * 157 + 23)
    cs = configs(ctx, "Symmetry", "MaxLen=%d" % (2 if ctx.quick else 3),
                 ["Normalised", "SameMu", "SameCharge", "SameEnergy", "SameFill"],
                 what="Symmetry: sequences of up to %d transformations" % (2 if ctx.quick else 3), timeout=1500)
    seqs = [c["seq"] for c in cs if c["seq"]]
    bases = []
    nb_ = 15 if ctx.quick else 80
    for i in range(nb_):
        nspin = 1 if i % 2 == 0 else rng.choice([1, 2])
        occ = 1 if nspin == 2 else 2
        b = pbase(rng, "sy%d" % i, smear=i % 5, nspin=nspin, occ=occ, maxiter=rng.choice([2, 3, 5]),
                  U=0.0 if i % 3 == 0 else rng.choice([0.3, 1.0]), kappa=rng.choice([0.0, 0.3, 1.0]),
                  restart=1 if i % 6 == 3 else rng.choice([2, 3, 10]), nk=rng.choice([1, 2, 3]), T=rng.choice([2000, 5000, 12000]))
        if i % 5 == 2:
            # small energies: whatever is compared with a fixed number changes sides
            b.update(spread=rng.choice([0.1, 0.02, 0.004]), T=rng.choice([100, 300]), U=0.0 if i % 2 else 0.02, tol=1e-9, shift=0.0)
        if i % 5 == 4:
            # a landscape that makes the quadratic step fail
            b.update(amp=rng.choice([1e-3, 0.01, 0.05]), freq=rng.choice([10, 40, 100]))
        if i % 5 == 0:
            # ends by convergence, far from the solution
            b.update(maxiter=25, tol=rng.choice([3e-2, 1e-2, 1e-3]))
        b["ne"] = rng.randrange(1, occ * b["nb"] * nspin)
        ok = [q for q in seqs if (q.count("gl") == 0 or (b["U"] == 0 and not b.get("amp"))) and (q.count("spin") == 0 or nspin == 1)]
        one = [q for q in ok if len(q) == 1]
        vs = []
        for j, q in enumerate(one + pick(rng, [q for q in ok if len(q) > 1], 14 if ctx.quick else 60)):
            v = present(rng, b, q)
            v.update(id="%s-%d" % (b["id"], j), nranks=2 if j % 5 == 4 else 1)
            vs.append(v)
        bases.append((b, vs))
    what = "the run depends on how the problem is presented"
    refs, per = [], {}
    for b, vs in bases:
        # the chemical potential is known to 1e-11 electrons: with the zero of energy elsewhere that is an error of the energy
        wide = max([1.0] + [abs(v["sym"]["cc"]) / v["sym"]["lam"] for v in vs])
        per[b["id"]] = perts(b), [dict(p, id=p["id"] + "w") for p in perts(b, eps=1e-11 * wide)]
        refs += [b] + per[b["id"]][0] + per[b["id"]][1]
    rr = run_batch(ctx, refs, "sym-ref")
    rv = {}
    for n in (1, 2):
        rv.update(run_batch(ctx, [v for _, vs in bases for v in vs if v["nranks"] == n], "sym%d" % n, nranks=n))

    def item(b, v, r1, r2):
        names = "/".join(q["t"] for q in v["tf"])
        return pair_item(v["id"], "C28", what + " (" + names + ")", sym_obs(r1[b["id"]], b), sym_obs(r2[v["id"]], v),
                         [sym_obs(r1[p["id"]], p) for p in per[b["id"]][searched(v)]], cap=7 if searched(v) else 9)

    def searched(v):
        return any(q["t"] in ("shift", "scale") for q in v["tf"])

    def defined(b):
        # the search for the chemical potential starts from zero: within a gap it ends wherever the count is good enough,
        # and at one of several solutions with the smearings whose count is not monotonous
        if b["smear"] > 2:
            return False
        dn = [f(e["dN"]) for e in rr[b["id"]][0] if e["e"] == "setmu"]
        return min([x for x in dn if x == x] or [0]) > 1e-2

    def rerun(rp):
        b, v = rp["ref"], rp["run"]
        return item(b, v, run_batch(ctx, [b] + per[b["id"]][searched(v)], "sym-c"), run_batch(ctx, [v], "sym-c", nranks=v["nranks"]))
    judge_pairs(ctx, "C28", what, [(item(b, v, rr, rv), dict(ref=b, run=v)) for b, vs in bases for v in vs
                                   if not searched(v) or defined(b)], "sym", rerun)
    judge_pool(ctx, [v for _, vs in bases for v in vs if v["nranks"] == 1][::7], "sym-tr")


# ------------------------------------------------------------------ C29 logs are outputs only
def sink_tokens(res, s, rank=0):
    """what the run did, without the records if the step log cannot be written in this world"""
    w = s.get("world", {})
    lost = w.get("json") == "dir" or w.get("cwd")
    return lost, [t for t in tokens(res, 0, rank) if not (lost and t.startswith("record "))]


def mod_sinks(ctx):
    rng = random.Random(ctx.seed * 163 + 29)
    ws = configs(ctx, "Sinks", "MaxIt=%d" % (2 if ctx.quick else 3), ["Independent", "Complete", "Faithful"], ["Ends"],
                 what="Sinks: worlds that differ from the plain one in at most two respects")
    comps = ["", "none", "bytes", "text"]
    bases = []
    for i in range(6 if ctx.quick else 30):
        kw = [dict(), dict(amp=0.1, freq=300, maxiter=8), dict(maxiter=40, tol=1e-3), dict(maxiter=12), dict(amp=1.0, freq=3000, maxiter=8, restart=2),
              dict(smear=2, tau=0.5, maxiter=25)][i % 6]
        b = pbase(rng, "si%d" % i, **dict(dict(smear=i % 5, maxiter=4), **kw))
        b["tol"] = kw.get("tol", b["tol"])
        nr = 2 if i % 4 == 3 else 1
        vs = []
        for j, w in enumerate(ws if not ctx.quick or i == 0 else pick(rng, ws, 16)):
            vs.append(dict(b, id="%s-%d" % (b["id"], j), world=w, nranks=nr))
        for j, c in enumerate(comps):
            vs.append(dict(b, id="%s-c%d" % (b["id"], j), comp=c, nranks=nr))
        bases.append((dict(b, nranks=nr), vs))
    what = "the run depends on what can be logged and where"
    rr = {}
    for n in (1, 2):
        rr.update(run_batch(ctx, [s for b, vs in bases if b["nranks"] == n for s in [b] + vs], "sink%d" % n, nranks=n))

    def items(b, v, r1, r2):
        out = []
        for k in range(b["nranks"]):
            lost, run = sink_tokens(r2[v["id"]], v, k)
            ref = [t for t in tokens(r1[b["id"]], 0, k) if not (lost and t.startswith("record "))]
            w = dict(v.get("world", {}), components=v.get("comp", ""))
            wh = " ".join("%s=%s" % x for x in sorted(w.items()) if x[1] not in (False, "absent", "file", ""))
            out.append(exact_item("%s.%d" % (v["id"], k), "C29", "%s (%s)" % (what, wh), ref, run))
        return out

    def rerun(rp):
        b, v, k = rp["ref"], rp["run"], rp["rank"]
        r = run_batch(ctx, [b, v], "sink-c", nranks=b["nranks"])
        return items(b, v, r, r)[k]
    pairs = []
    for b, vs in bases:
        for v in vs:
            for k, it in enumerate(items(b, v, rr, rr)):
                pairs.append((it, dict(ref=b, run=v, rank=k)))
    judge_pairs(ctx, "C29", what, pairs, "sinks", rerun)


# ------------------------------------------------------------------ C30 what the parameters influence
def param_steps(res, rank=0):
    """(initial part, records, steps) of a run; a step is a record with the evaluations that follow it"""
    cs = ab.calls_of(res[rank])
    pre, heads, steps, nev = [], [], [], []
    for e, t in zip([e for e in (cs[0] if cs else []) if e["e"] in ("eval", "setmu", "rec", "ret", "exc", "timeout", "crash", "abnormal")], tokens(res, 0, rank)):
        if e["e"] == "rec":
            heads.append(t)
            steps.append([t])
            nev.append(0)
        elif e["e"] in ("eval", "setmu"):
            (steps[-1] if steps else pre).append(t)
            if nev:
                nev[-1] += e["e"] == "eval"
        elif e["e"] in ("crash", "timeout", "abnormal"):
            (steps[-1] if steps else pre).append(t)
    while steps and len(steps[-1]) == 1:
        steps.pop()
    return pre, heads, ["|".join(s) for s in steps], nev


def param_item(ident, p, q, ra, rb):
    pa, ah, a, na = param_steps(ra)
    pb, bh, b, nb = param_steps(rb)
    multi = min([i + 1 for ns in (na, nb) for i, n in enumerate(ns) if n > 2] or [99])
    k = ("maxiter", "restart")
    return dict(id=ident, p={x: p[x] for x in k}, q={x: q[x] for x in k}, multi=multi,
                same=dict(restart=p["restart"] == q["restart"], tau=p["tau"] == q["tau"]),
                tolOrder=(p["tol"] > q["tol"]) - (p["tol"] < q["tol"]),
                ah=["|".join(pa)] + ah, bh=["|".join(pb)] + bh, a=["initial"] + a, b=["initial"] + b)


def mod_params(ctx):
    rng = random.Random(ctx.seed * 167 + 31)
    cs = configs(ctx, "Params", "MaxIt=4", ["Shared", "Order"], ["Ends"], what="Params: pairs of calls that differ in one or two parameters")
    pairs_, scs = [], []
    for i in range(8 if ctx.quick else 60):
        kw = [dict(), dict(amp=0.05, freq=300), dict(smear=2, U=1.0), dict(kappa=0.0)][i % 4]
        b0 = pbase(rng, "pa%d" % i, **dict(dict(smear=i % 5), **kw))
        mi, to = {1: 1, 2: 3, 3: rng.choice([6, 7]), 4: rng.choice([11, 40])}, {2: rng.choice([1e-2, 0.5]), 1: 1e-4, 0: rng.choice([1e-13, 0.0])}
        re, ta = {1: rng.choice([1, 2]), 2: rng.choice([3, 4]), 3: rng.choice([5, 12, 1000])}, {1: rng.choice([0.1, 0.3]), 2: rng.choice([0.9, 0.8, 0.5, 0.02])}

        def real(c):
            return dict(maxiter=mi[c["maxiter"]], tol=to[c["tol"]], restart=re[c["restart"]], tau=ta[c["tau"]])
        seen = {}
        for c in cs:
            for x in (c["base"], c["other"]):
                k = json.dumps(real(x), sort_keys=True)
                if k not in seen:
                    seen[k] = dict(b0, id="pa%d-%d" % (i, len(seen)), **real(x))
                    scs.append(seen[k])
            pairs_.append((seen[json.dumps(real(c["base"]), sort_keys=True)], seen[json.dumps(real(c["other"]), sort_keys=True)]))
    rr = run_batch(ctx, scs, "params")

    def item(p, q, r):
        return param_item(p["id"] + "/" + q["id"], p, q, r[p["id"]], r[q["id"]])
    items = [(item(p, q, rr), p, q) for p, q in pairs_]
    ver = tlc_traces(ctx, "ParamCheck", [it for it, _, _ in items], tag="params")
    ctx.extra["params"] = dict(pairs=len(items), records=sum(v[1] for v in ver.values()), nontrivial=sum(v[2] for v in ver.values()))
    for it, p, q in items:
        if ver[it["id"]][0]:
            it2 = item(p, q, run_batch(ctx, [p, q], "params-c"))
            for pr, why in sorted(tlc_traces(ctx, "ParamCheck", [it2], tag="params-c")[it2["id"]][0]):
                ctx.violation(pr, why, dict(scenario=dict(ref=p, run=q), trace=it2))
            if len(ctx.viols) > 5:
                break


# ------------------------------------------------------------------ C31 the text log tells what happened
_N = r"([-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|nan|inf))"
_TALE = [
    ("KS", re.compile(r"KS energy\s*:\s*" + _N)), ("S", re.compile(r"^\s+kT \* S\s*:\s*" + _N)), ("mu", re.compile(r"Fermi energy\s*:\s*" + _N)),
    ("trial", re.compile(r"line search t_trial = " + _N)), ("inc", re.compile(r"increase t_trial by")),
    ("tmin", re.compile(r"t_min = " + _N + r".*error:\s*" + _N + r".*dE:\s*" + _N)),
    ("fb", re.compile(r"quadratic line search failed ->")), ("qfail", re.compile(r"quadratic line search failed:")),
    ("Fmin", re.compile(r"- F_min:\s*" + _N)), ("F0", re.compile(r"- F0:\s*" + _N)),
    ("fd", re.compile(r"fd slope:\s*" + _N + r"\s+t:\s*" + _N + r"\s+F:\s*" + _N)), ("fd2", re.compile(r"fd slope:\s*" + _N + r"\s*$")),
    ("bt", re.compile(r"backtracking search tau = " + _N)), ("lsEnd", re.compile(r"line search took")),
    ("sd", re.compile(r"steepest descent took")), ("cg", re.compile(r"conjugated descent took")), ("restart", re.compile(r"slope > 0 detected")),
    ("fS", re.compile(r"^kT \* S\s*:\s*" + _N)), ("fF", re.compile(r"^F\s*:\s*" + _N)), ("fKS", re.compile(r"^KS-energy:\s*" + _N)),
    ("success", re.compile(r"NLCG SUCCESS")), ("nodescent", re.compile(r"Error: No descent direction")), ("slopeerr", re.compile(r"Error: slope > 0")),
    ("iter", re.compile(r"^(\d+)\s+" + _N + r"\s+" + _N + r"\s")),
]
_CON = ("iter", "S", "mu", "KS", "fS", "fF", "fKS", "success")
_SMN = ["Fermi-Dirac", "Gaussian-spline", "Gauss", "Methfessel-Paxton", "Cold"]


def tale_lines(fn):
    """[(kind, numbers, text)] of a text log; None if there is none"""
    if not os.path.exists(fn):
        return None, {}
    out, head = [], {}
    with open(fn, errors="replace") as fh:
        for ln in fh.read().split("\n"):
            m = re.match(r"^\s*(T|smearing|maxiter|tol|kappa|tau|restart)\s*:\s*(\S+)", ln) or re.match(r"^\s*num (electrons):\s*(\S+)", ln)
            if m:
                head.setdefault(m.group(1), m.group(2))
                continue
            for k, rx in _TALE:
                m = rx.search(ln)
                if m:
                    out.append((k, [float(x) for x in m.groups()], " ".join(ln.split())))
                    break
    return out, head


def near(a, b, rtol, atol=0.0):
    return a != a or b != b or abs(a - b) <= atol + rtol * max(abs(a), abs(b)) or a == b


def tale_item(s, res, d, nr=1):
    cs = ab.calls_of(res[s["id"]][0])
    c = cs[0]
    ret = [e for e in c if e["e"] == "ret"]
    if not ret:
        return None
    ret = ret[0]
    A = ab.abstract(c, dict(s), nranks=nr)["ev"]
    kinds = [a["kind"] for a in A if a["k"] == "eval"]
    entT = {e["n"]: f(e["entT"]) for e in c if e["e"] == "setmu"}
    raw = [e for e in c if e["e"] in ("eval", "rec")]
    F, ev, ne_ = [], [], 0
    for e in raw:
        if e["e"] == "eval":
            x = entT.get(e["n"], float("nan")) if nr == 1 else float("nan")
            F.append(f(e["E"]) + (x if x == x else f(e["entF"])))
            ev.append(dict(k="eval", dirs=[]))
            ne_ += 1
        else:
            F.append(f(e.get("F")))
            ev.append(dict(k="rec", dirs=kinds[ne_] if ne_ < len(kinds) else []))
    first = next((i for i, e in enumerate(raw) if e["e"] == "rec"), len(raw))
    first = max(first, 0) if first < len(raw) else min(2, len(raw))
    raw, F, ev = raw[first:], F[first:], ev[first:]
    tl, head = tale_lines(os.path.join(d, "nlcg.out"))
    wrong = []
    call = c[0]
    for k, v in (("T", f(call["T"])), ("maxiter", call["maxiter"]), ("tol", f(call["tol"])), ("kappa", f(call["kappa"])), ("tau", f(call["tau"])),
                 ("restart", call["restart"]), ("electrons", call["ne"])):
        try:
            if not near(float(head.get(k, "missing")), v, 1e-4):
                wrong.append(k)
        except ValueError:
            wrong.append(k)
    if head.get("smearing", "") != _SMN[call["smear"]]:
        wrong.append("smearing")
    log, tau = [], f(call["tau"])
    ninc, last, prev = 0, 0.0, None
    isrec = [i for i, e in enumerate(raw) if e["e"] == "rec"]
    cur = -1          # record the text is at
    for k, v, txt in tl or []:
        at, fit = [-1], True
        if k == "iter":
            at = [i + 1 for i in isrec if raw[i].get("step") == int(v[0]) and near(v[1], F[i], 1e-12, 1e-12) and near(v[2], f(raw[i].get("slope")), 1e-11, 1e-300)]
            cur += 1
            ninc = 0
        elif k in ("S", "fS"):
            at = [i + 1 for i in isrec if near(v[0], f(raw[i].get("S")), 1e-11, 1e-12)]
        elif k == "mu":
            at = [i + 1 for i in isrec if near(v[0], f(raw[i].get("mu")), 1e-11, 1e-12)]
        elif k == "KS":
            at = [i + 1 for i in isrec if near(v[0], f(raw[i].get("EKS")), 1e-11, 1e-12)]
        elif k == "fF":
            at = [i + 1 for i in isrec if near(v[0], F[i], 1e-11, 1e-12)]
        elif k == "fKS":
            at = [i + 1 for i in isrec if near(v[0], F[i] - f(raw[i].get("S")), 1e-11, 2e-12)]
        elif k in ("Fmin", "F0"):
            # part of the message of a failed quadratic step
            if log and log[-1]["k"] == "qfail" and 0 <= cur < len(isrec):
                want = F[isrec[cur]] if k == "F0" else None
                if want is not None and not near(v[0], want, 1e-11, 1e-12):
                    log[-1]["fit"] = False
            continue
        elif k == "trial":
            last = v[0]
            fit = near(v[0], 0.2, 1e-4)
        elif k == "inc":
            ninc += 1
        elif k == "tmin" and 0 <= cur < len(isrec):
            f0, sl = F[isrec[cur]], f(raw[isrec[cur]].get("slope"))
            at = [i + 1 for i, e in enumerate(raw) if e["e"] == "eval" and near(v[2], f0 - F[i], 1e-6, 2e-9 * max(1.0, abs(f0)))]
            tr = isrec[cur] + 1 + ninc
            t = 0.2 * 5.0 ** ninc
            if tr + 1 < len(raw) and raw[tr]["e"] == "eval":
                a = (F[tr] - sl * t - f0) / t / t
                if abs(a) * t * t > 1e-5 * max(1.0, abs(f0)):
                    fit = near(v[0], -sl / 2 / a, 2e-3) and near(v[1], f0 - sl * sl / 4 / a - F[tr + 1], 1e-3, 1e-6 * max(1.0, abs(f0), abs(F[tr + 1])))
        elif k == "fb":
            last = 0.2
        elif k == "fd" and 0 <= cur < len(isrec):
            at = [i + 1 for i, e in enumerate(raw) if e["e"] == "eval" and near(v[2], F[i], 1e-10, 1e-9)]
            fit = near(v[1], last, 1e-2) and near(v[0], (v[2] - F[isrec[cur]]) / v[1], 2e-3, 3e-13 * max(1.0, abs(v[2])) / v[1])
        elif k == "fd2":
            fit = prev is not None and near(v[0], prev, 1e-3)
        elif k == "bt":
            last = last * tau
            fit = near(v[0], last, 1e-3)
        prev = v[0] if k == "fd" else None
        log.append(dict(k=k, at=at, fit=bool(fit)))
    end = "conv" if ret["conv"] else "budget" if len(isrec) == max(0, call["maxiter"]) and ret["iter"] == call["maxiter"] else "giveup"
    con = [x[2] for x in tale_lines(os.path.join(d, "stdout.0"))[0] or [] if x[0] in _CON]
    return dict(id=s["id"], log=log, ev=ev, end=end, head=wrong, slope=abs(f(raw[isrec[-1]].get("slope"))) if isrec else 0, con=con, conRef=[x[2] for x in tl or [] if x[0] in _CON])


def mod_tale(ctx):
    configs(ctx, "Tale", "MaxIt=%d MaxInc=2 MaxBt=2" % (2 if ctx.quick else 3), ["InLanguage", "Told"], ["Ends"], dump=False,
            what="Tale: what a reader of the log learns", timeout=1500)
    rng = random.Random(ctx.seed * 173 + 37)
    groups = [(1, scen.pool(ctx.seed + 11, ctx.tier, 1.0 if ctx.quick else 0.5))]
    for i in range(25 if ctx.quick else 200):       # unusual arguments, long backtracking
        s = scen.base(rng, smear=i % 5, kappa=rng.choice([1.7, 12.5, 0.0123]), T=rng.choice([314.15, 12345.0, 100000.0]), restart=rng.choice([7, 123]),
                      tau=rng.choice([0.7, 0.85, 0.93]), tol=rng.choice([2.5e-4, 0.75, 1e-12]), maxiter=rng.choice([2, 6, 1000]) if i % 2 else 8,
                      amp=rng.choice([0.01, 1.0]), freq=rng.choice([300, 3000]))
        s.update(id="tb%d" % i)
        groups[0][1].append(s)
    for nr in (2, 3):
        scs = []
        for i in range(10 if ctx.quick else 60):
            nk = rng.choice([2, 3])
            s = scen.base(rng, smear=i % 5, maxiter=rng.choice([0, 2, 4, 12]), nk=nk, nspin=1, occ=2, ne=4, nb=3, npw=[6] * nk,
                          amp=rng.choice([0.0, 0.1, 1.0]), freq=rng.choice([30, 300, 3000]))
            s.update(id="ta%d-%d" % (nr, i), tol=rng.choice([1e-12, 10.0, 1e-3]), dist=[rng.randrange(nr) for _ in range(nk)])
            scs.append(s)
        groups.append((nr, scs))

    def run(nr, scs, tag):
        out = ctx.scr.sub("tale-%s-%d" % (tag, len(os.listdir(ctx.scr.dir))))
        res = run_scenarios(ctx.exe(), scs, out, nranks=nr)
        return [(tale_item(s, res, os.path.join(out, s["id"] + ".d"), nr), s) for s in scs]
    ends, toks = {}, {}
    for nr, scs in groups:
        its = [(it, s) for it, s in run(nr, scs, "n%d" % nr) if it]
        # runs that give up or use up their budget close to the tolerance
        near_ = []
        for it, s in pick(rng, [x for x in its if x[0]["end"] != "conv" and x[0]["slope"] > 0], 60 if ctx.quick else 500):
            near_.append(dict(s, id=s["id"] + "t", tol=it["slope"] * rng.choice([0.2, 0.9, 0.999])))
        its += [(it, s) for it, s in run(nr, near_, "m%d" % nr) if it]
        ver = tlc_traces(ctx, "TaleCheck", [{k: v for k, v in it.items() if k != "slope"} for it, _ in its], tag="tale%d" % nr)
        for it, s in its:
            ends[it["end"]] = ends.get(it["end"], 0) + 1
            for t in it["log"]:
                toks[t["k"]] = toks.get(t["k"], 0) + 1
        for it, s in its:
            if ver[it["id"]][0]:
                i2 = run(nr, [s], "c")[0][0]
                if not i2:
                    continue
                i2.pop("slope")
                for p, why in sorted(tlc_traces(ctx, "TaleCheck", [i2], tag="tale-c")[i2["id"]][0]):
                    ctx.violation(p, why, dict(scenario=s, nranks=nr, trace=i2))
                if len(ctx.viols) > 5:
                    return
    ctx.extra["tale"] = dict(endings=ends, tokens=toks)


# ------------------------------------------------------------------ C32 the minimum
def ground_bound(lev, half, t, kT, occ, ne):
    """lower bound of the energy (and minimum, if the mean field is that of the minimum): Ground.tla"""
    import kmods as km
    N = lambda m: occ * sum(w * km.s_f(t, (m - e) / kT) for w, e in lev)
    lo, hi = min(e for _, e in lev) - 60 * kT - 1, max(e for _, e in lev) + 60 * kT + 1
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if N(m) < ne else (lo, m)
    F = sum(w * occ * (km.s_f(t, (m - e) / kT) * e - kT * km.s_s(t, (m - e) / kT)) for w, e in lev) - half
    return F + m * (ne - N(m)), m       # for any m a bound


def ground_item(s, res, nr):
    c = ab.calls_of(res[s["id"]][0])[0]
    ret = [e for e in c if e["e"] == "ret"]
    L = [e for r in range(nr) for e in ab.calls_of(res[s["id"]][r])[0] if e["e"] == "levels"]
    if not ret or len(L) != nr:
        return None
    ret, kT, t = ret[0], s["T"] * 0.00000316681156340226, s["smear"]
    lev = [(f(k["w"]), f(e)) for x in L for k in x["k"] for e in k["lev"]]
    b, m = ground_bound(lev, f(L[0]["half"]), t, kT, s["occ"], s["ne"])
    x = max(abs(e - m) for _, e in lev) / kT
    entT = {e["n"]: f(e["entT"]) for e in c if e["e"] == "setmu"} if nr == 1 else {}
    ex, acc = [], []
    sc = max([1.0, abs(b)] + [abs(e) for _, e in lev])
    q = lambda d: int(max(-2e9, min(2e9, d * 1e9))) if d == d else 2000000000
    for e in c:
        if e["e"] == "eval":
            h = entT.get(e["n"], f(e["entF"]))
            ex.append(q((f(e["E"]) + h - b) / sc))
        elif e["e"] == "rec":
            acc.append(f(e["F"]))
            ex.append(q((acc[-1] - b) / sc))
    d = lambda v: int(round(-100 * math.log10(max(v, 1e-13))))
    gap = d(max(abs(acc[-1] - b) / sc - 1e-11, 0.0)) if acc else 0
    return dict(id=s["id"], ex=ex[1:], sl=1, conv=bool(ret["conv"]), easy=s["kappa"] >= 0.3 and s["restart"] >= 2 and s["maxiter"] >= 400,
                sharp=x <= (25 if t == 0 else 4.5), gap=gap, tol=d(max(s["tol"] / max(s["kappa"], 1e-3), 1e-11)))


def mod_ground(ctx):
    for i, c in enumerate(["NK=2 NL=2 NB=1 Q=2 MaxLev=1"] + ([] if ctx.quick else ["NK=1 NL=3 NB=2 Q=2 MaxLev=2", "NK=2 NL=2 NB=1 Q=3 MaxLev=2"])):
        configs(ctx, "Ground", c, ["Below", "Found"], ["Ends"], dump=False, what="Ground %d" % i, timeout=1500)
    rng = random.Random(ctx.seed * 211 + 5)
    st = {}
    for nr in (1, 2, 3):
        scs = []
        for i in range((70 if nr == 1 else 10) if ctx.quick else (900 if nr == 1 else 90)):
            t = i % 3
            s = scen.base(rng, smear=t, maxiter=400, tol=rng.choice([1e-4, 1e-6, 1e-8]), kappa=rng.choice([0.05, 0.3, 0.3, 1.0]), ground=True)
            if i % 4:      # all levels respond
                s.update(spread=rng.choice([0.3, 0.5]), T=rng.choice([20000, 40000, 80000]) if t == 0 else rng.choice([60000, 90000, 120000]),
                         nb=min(s["nb"], 4))
                s["ne"] = min(s["ne"], s["occ"] * s["nb"] * s["nspin"] - 1)
            s["id"] = "gs%d-%d" % (nr, i)
            if nr > 1:
                nk = s["nk"] * s["nspin"]
                s["dist"] = [rng.randrange(nr) for _ in range(nk)]
            scs.append(s)

        def run(sub, tag):
            res = run_scenarios(ctx.exe(), sub, ctx.scr.sub("ground-%s-%d" % (tag, len(os.listdir(ctx.scr.dir)))), nranks=nr)
            return [(ground_item(s, res, nr), s) for s in sub]
        its = [(it, s) for it, s in run(scs, "n%d" % nr) if it]
        ver = tlc_traces(ctx, "GroundCheck", [it for it, _ in its], tag="ground%d" % nr)
        st["runs %d" % nr] = len(its)
        for k in ("sharp", "easy", "conv"):
            st["%s %d" % (k, nr)] = sum(1 for it, _ in its if it[k] and (k == "conv" or it["sharp"]))
        for it, s in its:
            if ver[it["id"]][0]:
                i2 = run([s], "c")[0][0]
                for p, why in sorted(tlc_traces(ctx, "GroundCheck", [i2], tag="ground-c")[i2["id"]][0]) if i2 else []:
                    ctx.violation(p, why, dict(scenario=s, nranks=nr, trace=dict(i2, ex=i2["ex"][:200])))
                if len(ctx.viols) > 5:
                    return
    ctx.extra["ground"] = st
