"""Common machinery of all checks: context, trace judging with TLC, confirmation, evidence."""
import hashlib, json, os, random, re, sys, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import *
import abstract as ab
import mbt, scen

SPEC = os.path.join(VERIF, "spec")
REPLAYS = os.path.join(VERIF, "replays")


KERN = ["kern_gather.cpp", "kern_blas.cpp", "kern_scale.cpp", "kern_misc.cpp", "kern_solve.cpp", "kern_log.cpp",
        "kern_log2.cpp", "kern_lazy.cpp", "kern_lazyop.cpp", "kern_smear.cpp"]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scr = Scratch()
        self.viols = []          # (prop, reason, replay dict)
        self.notes = []
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.extra = {}
        self._exe = {}
        self.quick = tier != "thorough"

    def exe(self, name="nrun"):
        if name not in self._exe:
            if name == "nrun":
                self._exe[name] = build("nrun", ["toy.cpp", "runner.cpp"])
            elif name == "kern":
                self._exe[name] = build("kern", ["kern_main.cpp"], optional=KERN)
            else:
                raise ToolError("unknown executable " + name)
        return self._exe[name]

    def relevant(self, p):
        return p == self.prop or p == "ANY"

    def violation(self, prop, reason, replay):
        if self.relevant(prop):
            self.viols.append((prop, reason, replay))

    def model(self, r, what, expect_ok=True):
        """account for a TLC run on a design-level specification"""
        self.states += r["distinct"]
        self.trans += r["gen"]
        self.extra.setdefault("models", {})[what] = dict(states=r["distinct"], transitions=r["gen"], depth=r["depth"],
                                                        wall_s=round(r["wall"], 1))
        if expect_ok and r["rc"] != 0:
            raise ToolError("the specification %s does not pass TLC (an error of the check):\n%s" % (what, r["out"][-3000:]))

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)


VERD = re.compile(r'<< *"VERDICT", *"([^"]*)", *"(ok|bad)", *(\{.*?\}), *(-?\d+), *(-?\d+) *>>')
PAIR = re.compile(r'<< *"([^"]*)", *"([^"]*)" *>>')


def tlc_traces(ctx, module, items, par=4, tag="t", consts=""):
    """items: list of json-able dicts with unique 'id'; every one is judged by module (invariant Verdict)"""
    if not items:
        return {}
    n = max(1, min(par, len(items) // 150 + 1))
    parts = [items[i::n] for i in range(n)]

    def one(k):
        wd = ctx.scr.sub("%s-%s-%d-%d" % (tag, module, k, len(os.listdir(ctx.scr.dir))))
        fn = os.path.join(wd, "traces.ndjson")
        with open(fn, "w") as f:
            for it in parts[k]:
                f.write(json.dumps(it) + "\n")
        cfg = 'SPECIFICATION Spec\nCONSTANT TraceFile="%s"\n%sINVARIANT Verdict\n' % (fn, consts)
        r = tlc(SPEC, module, cfg, wd, workers=1, timeout=800, mem="3g")
        if r["rc"] != 0:
            raise ToolError("TLC failed on %s: %s" % (module, r["out"][-3000:]))
        return r
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    res = {}
    for r in rs:
        ctx.states += r["distinct"]
        ctx.trans += r["gen"]
        for m in VERD.finditer(r["out"].replace("\n", " ")):
            why = set(PAIR.findall(m.group(3)))
            if (m.group(2) == "bad") != bool(why):
                raise ToolError("verdict not understood: %s" % m.group(0)[:500])
            res[m.group(1)] = (why, int(m.group(4)), int(m.group(5)))
    if len(res) != len(items):
        raise ToolError("TLC judged %d of %d traces (%s)" % (len(res), len(items), module))
    ctx.traces += len(items)
    return res


def pair_tolb(s, res):
    if "pair" not in s:
        return None
    c = ab.calls_of(res[s["pair"]][0])
    if not c:
        return None
    o = [e for e in c[0] if e["e"] == "rec"]
    if len(o) == s["maxiter"] + 1:
        return ab.f(o[-1].get("slope"))
    return None


def run_and_judge(ctx, scs, tag, nranks=1, env=None, loose=False, on_trace=None):
    """run scenarios on the real code, judge each call by the acceptor; returns (results, verdicts)"""
    out = ctx.scr.sub("run-%s-%d" % (tag, len(os.listdir(ctx.scr.dir))))
    res = run_scenarios(ctx.exe(), scs, out, nranks=nranks, env=env)
    items, back = [], {}
    for s in scs:
        evs = res[s["id"]][0]
        for e in evs:
            if e["e"] == "harness-error":
                raise ToolError("harness error in %s: %s" % (s["id"], e["what"]))
        cs = ab.calls_of(evs)
        if not cs:
            items.append(dict(id=s["id"] + "#0", cfg=dict(maxit=0, restart=1, nbt=0, pospre=False, excEvals=0, dorth=8,
                              dne=9, dcol=4, doff=6, docc=6), ev=[dict(k="bad", what="process died before the call")]))
            back[s["id"] + "#0"] = (s, 0)
        for i, c in enumerate(cs):
            eff = dict(s)
            if "calls" in s:
                eff.update(s["calls"][i])
            a = ab.abstract(c, eff, expect_exc=eff.get("expectExc"), exc_evals=eff.get("excEvals", 0),
                            tolb=pair_tolb(s, res) if i == 0 else None, loose=loose, nranks=nranks)
            a["id"] = "%s#%d" % (s["id"], i)
            items.append(a)
            back[a["id"]] = (s, i)
    ver = tlc_traces(ctx, "TraceCheck", items, tag=tag)
    return res, ver, {it["id"]: it for it in items}, back


def judge_pool(ctx, scs, tag, nranks=1, env=None, loose=False, extra_check=None):
    """run, judge, confirm violations by a second run, record"""
    res, ver, items, back = run_and_judge(ctx, scs, tag, nranks, env, loose)
    byid = {s["id"]: s for s in scs}
    bad = {}
    for iid, (v, n, nr) in ver.items():
        rel = {x for x in v if ctx.relevant(x[0])}
        if rel:
            bad[iid] = rel
    more = extra_check(res) if extra_check else {}
    for sid, v in more.items():
        rel = {x for x in v if ctx.relevant(x[0])}
        if rel:
            bad.setdefault(sid + "#0", set()).update(rel)
    if bad:
        ids = sorted({back[i][0]["id"] for i in bad})[:12]
        need = []
        for i in ids:
            need.append(byid[i])
            if "pair" in byid[i] and byid[i]["pair"] not in ids:
                need.append(byid[byid[i]["pair"]])
        res2, ver2, items2, _ = run_and_judge(ctx, need, tag + "-confirm", nranks, env, loose)
        more2 = extra_check(res2) if extra_check else {}
        for iid in bad:
            sid = back[iid][0]["id"]
            if iid not in ver2:
                continue
            again = {x for x in ver2[iid][0] if ctx.relevant(x[0])}
            again |= {x for x in more2.get(sid, ()) if ctx.relevant(x[0])} if iid.endswith("#0") else set()
            both = bad[iid] & again
            crash = {x for x in again if x[0] == "ANY"} and {x for x in bad[iid] if x[0] == "ANY"}
            for p, why in sorted(both or crash or ()):
                ctx.violation(p, why, dict(scenario=byid[sid], call=int(iid.split("#")[1]), nranks=nranks, env=env,
                                           trace=items2[iid]))
            if not (both or crash):
                ctx.notes.append("unconfirmed (not repeated on a second run): %s %s" % (iid, sorted(bad[iid])))
    return res, ver, items


# ------------------------------------------------------------------ modules of the minimisation call
def mod_design(ctx):
    """model-check the design: every behaviour within the bounds is allowed by the acceptor, and terminates"""
    if ctx.quick:
        cfg = mbt.design_cfg([0, 1, 2, 3], [1, 2, 3])
    else:
        cfg = mbt.design_cfg([0, 1, 2, 3, 4], [1, 2, 3, 4], nbt=3, kmax=2, nan=True)
    r = tlc(SPEC, "NlcgDesign", cfg, ctx.scr.sub("design"), workers=4, timeout=700, mem="6g")
    ctx.model(r, "NlcgDesign")


def mod_mbt(ctx, n=None):
    """replay behaviours of the design against the real code through the scripted host"""
    n = n or (2500 if ctx.quick else 25000)
    rng = random.Random(ctx.seed * 31 + 5)
    jobs = [dict(maxits=[0, 1, 2, 3, 5], restarts=[1, 2, 3], simulate=n, seed=ctx.seed),
            dict(maxits=[7, 12], restarts=[2, 3, 4, 10], simulate=n // 4, seed=ctx.seed + 1000, neg=6),
            dict(maxits=[12], restarts=[3, 10], simulate=n // 8, seed=ctx.seed + 2000, neg=11)]
    with ThreadPoolExecutor(3) as ex:
        outs = list(ex.map(lambda kj: mbt.behaviours(SPEC, ctx.scr.sub("mbt%d" % kj[0]), **kj[1]), enumerate(jobs)))
    scs, beh, skipped = [], 0, 0
    for bs, r in outs:
        beh += len(bs)
        for b in bs:
            s = mbt.concretise(b, rng, "m%d" % (len(scs) + skipped))
            if s is None:
                skipped += 1
            else:
                scs.append(s)
    ctx.sample(dict(behaviour=outs[0][0][0] if outs[0][0] else None))

    def expect(res):
        bad = {}
        for s in scs:
            if s["id"] not in res:
                continue
            c = ab.calls_of(res[s["id"]][0])
            if not c:
                continue
            ne = sum(e["e"] == "eval" for e in c[0])
            nr = sum(e["e"] == "rec" for e in c[0])
            x = s["expect"]
            if s["flat"] and any(e["e"] == "lost" for e in c[0]):
                ctx.extra["mbt_lost"] = ctx.extra.get("mbt_lost", 0) + 1
                continue        # zero curvature is a matter of rounding; the trace itself is checked
            if (ne, nr) != (x["n"], x["nrec"]):
                bad[s["id"]] = {(p, "run deviates from the specified behaviour: %d evaluations and %d iterations, "
                                 "specified are %d and %d" % (ne, nr, x["n"], x["nrec"])) for p in ("C04", "C21")}
        return bad
    judge_pool(ctx, scs, "mbt", extra_check=expect)
    ctx.extra["mbt"] = dict(behaviours=beh, replayed=len(scs), not_realisable=skipped,
                            endings={k: sum(s["expect"]["fin"] == k for s in scs) for k in
                                     ("conv", "budget", "uphill", "giveup")})


def mod_pool(ctx, scale=None):
    scs = scen.pool(ctx.seed, ctx.tier, scale if scale is not None else (2.5 if ctx.quick else 1.0))
    res, ver, items = judge_pool(ctx, scs, "pool")
    ends = {}
    for s in scs:
        c = ab.calls_of(res[s["id"]][0])
        for e in (c[0] if c else []):
            if e["e"] in ab.TERMINAL:
                k = e["e"] if e["e"] != "ret" else "converged" if e["conv"] else "budget" if e["iter"] == s["maxiter"] else "no descent"
                ends[k] = ends.get(k, 0) + 1
    ctx.extra["pool"] = dict(scenarios=len(scs), endings=ends,
                             evaluations=sum(v[1] for v in ver.values()), records=sum(v[2] for v in ver.values()))
    ctx.sample(dict(scenario={k: v for k, v in scs[0].items()}))


def mod_tol(ctx):
    """tolerances at, just above and just below a slope that occurs in the run; extreme tolerances"""
    rng = random.Random(ctx.seed * 53 + 3)
    n = 16 if ctx.quick else 120
    first = []
    for i in range(n):
        first.append(dict(scen.base(rng, smear=i % 5, maxiter=rng.choice([3, 6, 11]), tol=1e-30,
                                    amp=rng.choice([0, 0, 0.01]), freq=30), id="tol%d" % i))
    res, ver, items = judge_pool(ctx, first, "tol")
    scs = []
    for s in first:
        c = ab.calls_of(res[s["id"]][0])
        sl = [ab.f(e.get("slope")) for e in (c[0] if c else []) if e["e"] == "rec"]
        sl = [abs(x) for x in sl if x == x and x != 0]
        for j, x in enumerate(rng.sample(sl, min(3, len(sl)))):
            for k, t in enumerate((x, math.nextafter(x, math.inf), math.nextafter(x, 0.0))):
                scs.append(dict(s, id="%s-%d-%d" % (s["id"], j, k), tol=t))
    for i, t in enumerate((0.0, 1e300, -1.0, 5e-324)):
        scs.append(dict(first[i % n], id="tolx%d" % i, tol=t))
    judge_pool(ctx, scs, "tole")
    ctx.extra["tolerance_edges"] = len(scs)


# ------------------------------------------------------------------ end of a check
def hang(ctx, h):
    """several runs did not end: repeat them one at a time, on an otherwise idle machine"""
    bad = 0
    for s in h.scenarios[:2]:
        out = ctx.scr.sub("hang-%d" % len(os.listdir(ctx.scr.dir)))
        res = run_scenarios(ctx.exe(), [dict(s, timeout=60)], out, nranks=h.nranks, env=h.env)
        evs = [e for r in res[s["id"]].values() for e in r]
        if any(e["e"] in ("timeout", "abnormal") for e in evs):
            ctx.violation("ANY", "the call does not come to an end", dict(scenario=s, nranks=h.nranks, env=h.env))
            bad += 1
            break
    if not bad:
        raise ToolError("runs did not end under load but do alone")
    return finish(ctx, "model_checking", [])


def finish(ctx, level, assumptions, rule=""):
    known = {}
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for ln in open(kf):
            m = re.match(r"finding: property=(\S+) match=(.+?) :: (.*)", ln.strip())
            if m:
                known.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    seen, rc = set(), 0
    os.makedirs(REPLAYS, exist_ok=True)
    shown = set()
    nviol = 0
    for p, why, rp in ctx.viols:
        hit = [k for k in known.get(ctx.prop, []) if re.search(k[0], why + " " + json.dumps(rp.get("scenario", rp))[:4000])]
        if hit:
            for k in hit:
                if k not in shown:
                    shown.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k[1]))
            continue
        nviol += 1
        if why in seen:
            continue
        seen.add(why)
        rc = 1
        h = hashlib.sha256((why + json.dumps(rp, sort_keys=True, default=str)).encode()).hexdigest()[:10]
        fn = os.path.join(REPLAYS, "%s-%s.json" % (ctx.prop, h))
        with open(fn, "w") as f:
            json.dump(dict(property=ctx.prop, reason=why, **rp), f, indent=1, default=str)
        print("  %s: %s" % (ctx.prop, why))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, fn))
    for n in ctx.notes:
        print("note: " + n)
    cov = dict(states=ctx.states, transitions=ctx.trans, traces_validated_against_impl=ctx.traces, samples=ctx.samples)
    if rule:
        cov["rule"] = rule
    cov.update(ctx.extra)
    ev = dict(property=ctx.prop, tier="quick" if ctx.quick else "thorough", seed=ctx.seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d states, %d traces of the implementation, %d violation(s), %.1f s" %
          (ctx.prop, ev["tier"], ctx.states, ctx.traces, nviol, ev["wall_s"]))
    return rc
