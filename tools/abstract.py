"""Abstraction function: concrete trace of one library call -> abstract events of spec/Monitor.tla.

Only classification happens here (orderings, step classes, digits); every rule is in the specification.
"""
import math

EPS = 2.3e-16
KB = 0.00000316681156340226


def f(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return float("nan")


def dig(err):
    """number of correct decimal digits of an error"""
    if err is None:
        return 15
    if not (err == err) or err == float("inf"):
        return -1
    if err <= 0:
        return 17
    return max(-1, min(17, int(math.floor(-math.log10(err)))))


def rel(a, b, floor=1e-300):
    if not (a == a and b == b):
        return float("nan")
    if a == b:
        return 0.0
    return abs(a - b) / max(abs(a), abs(b), floor)


def cmpF(a, b, tol):
    if not (a == a and b == b):
        return "gt"                      # an invalid energy is never an improvement
    if abs(a - b) <= tol:
        return "any" if tol > 0 else "eq"
    return "lt" if a < b else "gt"


def calls_of(events):
    """split a trace into calls: list of (call event, events..., terminator)"""
    out, cur, tail = [], None, []
    for e in events:
        k = e["e"]
        if k == "call":
            cur = [e]
            out.append(cur)
        elif cur is not None:
            cur.append(e)
        else:
            tail.append(e)
    return out


def nbt(tau):
    """number of backtracking steps longer than 1e-8 (None: tau not a contraction)"""
    if not (tau < 1):
        return 0
    n, t = 0, 0.2
    while t > 1e-8 and n < 100000:
        n += 1
        t *= tau
    return n


TERMINAL = ("ret", "exc", "timeout", "crash", "abnormal", "harness-error")


def abstract(evs, sc, last_call=True, expect_exc=None, exc_evals=0, tolb=None, loose=False, nranks=1):
    """evs: events of one call (evs[0] is the call event). sc: effective scenario parameters.
    expect_exc: substring expected in the exception, or None. tolb: reference slope at a budget exit."""
    call = evs[0]
    tol, tau, smear = f(call["tol"]), f(call["tau"]), call["smear"]
    T, occ, ne = f(call["T"]), f(call["occ"]), call["ne"]
    kappa = f(call["kappa"])
    script = sc.get("kind") == "script"
    mono = smear <= 2
    cfg = dict(maxit=call["maxiter"], restart=max(1, call["restart"]), nbt=nbt(tau), pospre=(not script) and mono,
               excEvals=exc_evals, dorth=11, dne=9 if mono else 2, dcol=4, doff=6, docc=6)
    tiny = sc.get("pscale", 1.0) < 1e-2 or loose
    if tiny:
        cfg.update(dcol=2)
    fnoise = 1e-9 if tiny else 0.0      # oracle accuracy of F in the finite-difference regime
    # re-evaluating an unchanged point: the perturbed host amplifies rounding of the density by amp*freq
    pnoise = 4e-14 * sc.get("amp", 0) * (1 + sc.get("freq", 0))
    out = []
    # entropy term of every evaluation
    entT = {}
    dN = {}
    mus = {}
    for e in evs:
        if e["e"] == "setmu":
            entT[e["n"]] = f(e["entT"])
            mus[e["n"]] = f(e["mu"])
            dN[e["n"]] = (f(e.get("dN")), f(e.get("N")))

    def Fof(e):
        s = entT.get(e["n"], float("nan"))
        if nranks > 1 or not (s == s):
            s = f(e["entF"])
        return f(e["E"]) + s

    def Fe(e):
        """free energy by the oracle that is most accurate for differences"""
        s = f(e["entF"])
        if nranks == 1 and not (s == s):
            s = entT.get(e["n"], float("nan"))
        # the electron number is met to a tolerance only: remove mu * (N - ne)
        return f(e["E"]) + s - mus.get(e["n"], 0.0) * (f(e["ne"]) - ne)

    def so():
        """oracle error of the entropy term"""
        return 5 * T * KB * (basefo + lastfo)

    W1 = basefo = lastfo = 0.0
    lastbase = None
    F0 = None          # free energy of the accepted point (last record)
    slope = None
    Frec_prev = None
    first = False
    prev = None        # previous evaluation in this line search: (t, F)
    lastmu = None
    lastrec = None
    lasteval = None
    baseorth = 0.0     # loss of orthonormality of the accepted point (very long steps)
    for idx, e in enumerate(evs[1:], 1):
        k = e["e"]
        if k == "setfn":
            out.append(dict(k="sf", ok=(e["bad"] == "")))
        elif k == "setmu":
            lastmu = f(e["mu"])
            # oracle error of the pseudo-eigenvalues: the step length is measured relative to the first trial
            foracle = 1e-14 / max(W1, 1e-12) * f(e.get("esh", 0)) / (T * KB) * occ if W1 else 0.0
            if not (foracle == foracle):
                foracle = 0.0
            lastfo = foracle
            fe = f(e["fErr"])
            fe = max(0.0, fe - foracle - basefo) if fe == fe else fe
            d, n_ = dN.get(e["n"], (float("nan"),) * 2)
            nst = True
            if not mono and nranks == 1 and d == d and abs(n_ - ne) > 1e-7:
                nst = abs(d) < 1e-2 * max(1.0, ne)
            out.append(dict(k="mu", fd=dig(fe) if e["n"] > 1 else 15, nst=nst))
        elif k == "eval":
            n = e["n"]
            F = Fof(e)
            lasteval = (e, F)
            t = f(e["t"])
            a = dict(k="eval", tr=[], bt=[], zero=False, mn=False, cv=["conc", "conv", "flat"], cmp="any", kind=[],
                     up="any", orth=dig(f(e["orth"]) / (1 + (f(e["W"]) if f(e["W"]) == f(e["W"]) else 0) ** 2)), ne=dig(abs(f(e["ne"]) - ne)) if n > 1 else 17,
                     fb=True, col=15, fin=True, intact=bool(e["intact"]), stray=int(e["stray"]), gam=15, offd=15,
                     fds=15, slx=15)
            if n > 1 and mono:
                a["fb"] = (f(e["fmin"]) >= -1e-14 and f(e["fmax"]) <= occ * (1 + 1e-14))
            if n > 1:
                a["fb"] = a["fb"] and f(e["fmin"]) == f(e["fmin"]) and f(e["fmax"]) == f(e["fmax"])
            if F0 is None:
                # initial point
                a.update(zero=True, cmp="any")
                if n == 2:
                    a["offd"] = dig(f(e["offd"])) if f(e["offd"]) >= 0 else 15
            else:
                tolF = 0.0 if script else 4e-14 * max(1.0, abs(F0)) + fnoise + pnoise + so()
                a["cmp"] = cmpF(F, F0, tolF)
                W = f(e["W"])
                Wu = W / abs(t) if t and t == t and W > 0 else 0.0   # |z| estimate
                tn = 1e-13 / max(Wu, 1e-12) if Wu else 0.0             # noise of t
                sing = bool(e["sing"])
                a["fin"] = not sing and t == t and abs(t) != float("inf")
                a["zero"] = (W <= 1e-11)
                rtol = (3e-6 if not tiny else 1e-3) + 1e-14 * W * W
                baseok = baseorth < 1e-11
                if first:
                    W1 = W
                    # direction kind; the step of the first trial defines the unit
                    a["tr"] = [0]
                    a["bt"] = [0]
                    sd, cg = f(e["sdres"]), f(e["cgres"])
                    lim = 1e-5 if not tiny else 1e-3
                    if sd == sd and 0 <= sd < lim:
                        a["kind"].append("SD")
                    # a weight too small to tell apart: conjugate as well if that fits markedly better
                    wgt = abs(f(e["frx"]) / f(e["frp"])) * f(e["zr"]) if f(e.get("frp")) else float("nan")
                    if cg == cg and 0 <= cg < lim and (not a["kind"] or cg < 0.1 * sd or not wgt > 100 * lim):
                        a["kind"].append("CG")
                    if not baseok or (sd < 0 and cg < 0):
                        a["kind"] = ["SD", "CG"]           # oracle not available
                    gn = 1e-18 if script else 1e-14 * max(1.0, abs(F0))   # rounding level of slopes
                    frx, cgs, frp = f(e["frx"]), f(e.get("cgs")), f(e.get("frp"))
                    if (kappa == 0 or script) and baseok and len(a["kind"]) == 2 and cgs == cgs and abs(slope) > gn and sd >= 0 and cg >= 0:
                        # parallel directions (one-dimensional tangent space): the slope tells them apart
                        mag = abs(frx) + abs(cgs - frx)
                        tl = 1e-5 * mag + 100 * gn * (1 + abs(f(e["gam"])))
                        fits = [k for k, w in (("SD", frx), ("CG", cgs)) if abs(slope - w) < tl]
                        if fits:
                            a["kind"] = fits
                        else:
                            a["slx"] = dig(max(0.0, min(abs(slope - frx), abs(slope - cgs)) - tl) / mag)
                    elif (kappa == 0 or script) and baseok and a["kind"] == ["SD"] and cgs == cgs and abs(slope) > gn and sd >= 0 and cg >= 0:
                        # the slope of a conjugate direction, but the residual alone as direction
                        tl = 1e-5 * (abs(frx) + abs(cgs - frx)) + 100 * gn * (1 + abs(f(e["gam"])))
                        if abs(slope - cgs) < tl < 0.1 * abs(slope - frx):
                            a["kind"] = []
                    if (kappa == 0 or script) and cgs == cgs and baseok:
                        mag = abs(frx) + abs(cgs - frx)
                        if abs(cgs) > 1e-7 * mag + 10 * gn:
                            a["up"] = "yes" if cgs > 0 else "no"
                    if kappa == 0 and baseok and "CG" in a["kind"] and len(a["kind"]) == 1 and frp == frp \
                            and min(abs(frx), abs(frp)) > gn:
                        a["gam"] = dig(max(0.0, rel(f(e["gam"]), frx / frp) - gn / abs(frx) - gn / abs(frp)))
                    if (kappa == 0 or script) and baseok:
                        want = frx if "SD" in a["kind"] else cgs
                        if want == want and len(a["kind"]) == 1 and abs(slope) > gn:
                            mag = abs(frx) + abs((cgs if cgs == cgs else 0) - frx)
                            a["slx"] = dig(max(0.0, abs(slope - want) - gn * (1 + abs(f(e["gam"])))) / mag) if mag > 0 else 15
                    if kappa != 0 and not script and baseok:
                        # whole slope, the pseudo-Hamiltonian's part included
                        frt, cgst, frtp = f(e["frt"]), f(e["cgst"]), f(e["frtp"])
                        gt = 30 * gn + 10 * f(e["sen"])
                        gp = 30 * gn + 10 * f(e["senp"])
                        mag = abs(frt) + abs((cgst if cgst == cgst else 0) - frt)
                        if cgst == cgst:
                            gt += (gp / abs(frtp) + gt / abs(frt)) * abs(cgst - frt) if frtp and frt else mag
                        if cgst == cgst and abs(cgst) > 1e-5 * mag + 10 * gt:
                            a["up"] = "yes" if cgst > 0 else "no"
                        if len(a["kind"]) == 1:
                            cj = "CG" in a["kind"]
                            if cj and frtp == frtp and abs(frt) > gt and abs(frtp) > gp:
                                a["gam"] = dig(max(0.0, rel(f(e["gam"]), frt / frtp) - gt / abs(frt) - gp / abs(frtp)))
                            want = cgst if cj else frt
                            if want == want and abs(slope) > gt and mag > 0:
                                a["slx"] = dig(max(0.0, abs(slope - want) - gt * (1 + abs(f(e["gam"])))) / mag)
                    jump = lastbase is None or not abs(mus.get(n, 0.0) - mus.get(lastbase["n"], 0.0)) < 0.02 * T * KB
                    if sc.get("fd") and not jump and a["kind"] and slope and abs(f(e["ne"]) - ne) < 1e-9:
                        fds = (Fe(e) - Fe(lastbase)) / 0.2
                        noise = 2e-15 * max(1.0, abs(F0)) / 0.2 / abs(slope)
                        est = [fds]
                        e2 = next((x for x in evs[idx + 1:] if x["e"] in ("eval", "rec")), None)
                        if e2 is not None and e2["e"] == "eval":
                            # second-order estimate from the next point on the path
                            t1, t2 = 0.2, f(e2["t"])
                            if t2 == t2 and abs(t2 - t1) > 1e-3 and 1e-3 < t2 < 100 and \
                                    abs(mus.get(e2["n"], 0.0) - mus.get(lastbase["n"], 0.0)) < 0.1 * T * KB:
                                d1, d2 = Fe(e) - Fe(lastbase), Fe(e2) - Fe(lastbase)
                                est.append((d1 * t2 * t2 - d2 * t1 * t1) / (t1 * t2 * t2 - t2 * t1 * t1))
                        if noise < 2e-3:
                            a["fds"] = dig(max(0.0, min(abs(x - slope) for x in est) / abs(slope) - 4 * noise))
                    prevtr = None
                    first = False
                else:
                    kk, tt = 1, 1.0
                    while tt <= 1e12:
                        if abs(t - tt) <= rtol * tt + tn * tt * tt:
                            a["tr"].append(kk)
                        kk, tt = kk + 1, tt * 5
                    if abs(t - 0.2) <= rtol * 0.2:
                        a["tr"].append(0)
                    tt = 0.2
                    for j in range(cfg["nbt"]):
                        if abs(t - tt) <= rtol * tt + 1e-14 / max(Wu, 1e-9):
                            a["bt"].append(j)
                        tt *= tau
                    if prev is not None:
                        tp, Fp = prev
                        num = Fp - slope * tp - F0
                        dn_ = 8 * EPS * (abs(Fp) + abs(F0) + abs(slope * tp)) + tolF + fnoise + so()
                        if num > dn_:
                            tm = -slope * tp * tp / (2 * num)
                            rt = rtol + dn_ / num
                            if abs(t - tm) <= rt * tm + tn * max(1.0, tm * tm):
                                a["mn"] = True
                        elif num > -dn_:
                            # curvature lost in rounding: any far point can be the predicted minimum
                            lo = slope * tp * tp / (-2 * (num + dn_) if num + dn_ > 0 else -1e-300)
                            a["mn"] = bool(t > 0 and t >= 0.5 * min(lo, 1e300))
                        if sing:
                            a["mn"] = num > -dn_
                # curvature class of this evaluation as a trial
                if a["tr"]:
                    tk = 0.2 * 5 ** a["tr"][0]
                    if not (F == F):
                        a["cv"] = ["flat"]
                    else:
                        num = F - slope * tk - F0
                        dn_ = 8 * EPS * (abs(F) + abs(F0) + abs(slope * tk)) + fnoise + so()
                        if abs(num) > dn_:
                            a["cv"] = ["conc"] if num < 0 else ["conv"]
                    prev = (tk, F)
                else:
                    prev = None
                if not a["zero"] and not sing:
                    a["col"] = dig(max(0.0, f(e["col"]) - 1e-12 / max(W, 1e-300)))
                if f(e["offd"]) >= 0 and not sing:
                    a["offd"] = dig(max(0.0, f(e["offd"]) - 1e-9 * (1 + (abs(t) if t == t else 0))))
            out.append(a)
        elif k == "rec":
            F = f(e.get("F"))
            S = f(e.get("S"))
            sl = f(e.get("slope"))
            cls = "nan" if not (sl == sl) else "tiny" if abs(sl) < tol else "pos" if sl > 0 else "neg"
            hE = f(e.get("hostE"))
            sc_ = max(1.0, abs(hE))
            sref = float("nan")
            if lasteval is not None:
                sref = lasteval[1] - f(lasteval[0]["E"])
            ss = dig(max(0.0, abs(S - sref) - so())) if sref == sref else 15
            if "sErr" in e:
                ss = min(ss, dig(f(e["sErr"])))
            tolF = 0.0 if script else 1e-12 * max(1.0, abs(F)) + pnoise
            ups = not (sl == sl) or sl > 1e-11 * max(1.0, abs(F))
            a = dict(k="rec", step=int(e.get("step", -99)), sl=cls, ups=ups, cmp="eq", bands=bool(e.get("bands")),
                     keysOk=bool(e.get("keysOk", True)), bad=bool(e.get("bad")),
                     he=dig(abs(f(e.get("EKS")) - hE) / sc_), hm=dig(abs(f(e.get("mu")) - f(e.get("hostMu")))),
                     cp=dig(f(e.get("compErr"))), hf=dig(f(e["hostfErr"])) if "hostfErr" in e else 15,
                     fs=dig(abs(F - (f(e.get("EKS")) + S)) / sc_), ss=ss,
                     fd=dig(f(e["fErr"])) if "fErr" in e else 15)
            if Frec_prev is not None:
                if not (F == F):
                    a["cmp"] = "gt"
                else:
                    a["cmp"] = "gt" if F > Frec_prev + tolF else "le"
            Frec_prev = F
            F0, slope, first, prev = F, sl, True, None
            basefo += lastfo
            lastbase = lasteval[0] if lasteval else None
            baseorth = f(lasteval[0]["orth"]) if lasteval else 0.0
            lastrec = (e, F, sl)
            out.append(a)
        elif k == "ret":
            F, S, rt = f(e["F"]), f(e["S"]), f(e["tol"])
            hE = f(e["hostE"])
            sc_ = max(1.0, abs(hE))
            st = e["st"]
            sref = float("nan")
            if lasteval is not None:
                sref = lasteval[1] - f(lasteval[0]["E"])
            a = dict(k="ret", conv=bool(e["conv"]), convsane=e["convraw"] in (0, 1), cSame=bool(st["cSame"]),
                     fDiff=dig(f(st["fDiff"])), base=dig(max(0.0, f(e["baseDist"]) - 10 * baseorth) if f(e["baseDist"]) == f(e["baseDist"]) else f(e["baseDist"])), Fr=15, iterOk=True, tolr=15,
                     iterB=e["iter"] == max(call["maxiter"], 0), tolb=15,
                     Fh=dig(abs(F - (hE + S)) / sc_), Sh=dig(max(0.0, abs(S - sref) - so())) if sref == sref else 15,
                     muh=dig(abs(f(e["hostMu"]) - lastmu)) if lastmu is not None else 15, cmp="eq",
                     intact=bool(st["intact"]), stray=int(st["stray"]), opBad=int(e["opBad"]),
                     stale=bool(e.get("staleLeft")))
            if lastrec is not None:
                r, rF, rs = lastrec
                a["Fr"] = dig(rel(F, rF, 1.0))
                a["iterOk"] = e["iter"] == r.get("step")
                a["tolr"] = dig(rel(rt, rs))
                tolF = 1e-12 * max(1.0, abs(F)) + pnoise
                a["cmp"] = "gt" if not (F <= rF + tolF) else "le"
            if tolb is not None:
                a["tolb"] = dig(rel(rt, tolb))
            out.append(a)
        elif k == "exc":
            ok = expect_exc is not None and expect_exc in e["what"]
            st = e["st"]
            # pseudo-energies so large that no double resolves the electron number to 1e-9: the search has to give up
            if not ok and expect_exc is None and lastrec is not None and slope is not None and "chemical potential" in e["what"]:
                far = kappa * abs(slope) * EPS / (T * KB) > 1e-10 or not (slope == slope)
                if far:
                    out.append(dict(k="gaveup"))
                    continue
            out.append(dict(k="exc", expected=ok, untouched=bool(st["cSame"]) and bool(st["intact"]) and
                            f(st["fDiff"]) == 0 and st["stray"] == 0))
            if not ok:
                out[-1]["what"] = e["what"][:200]
        elif k == "end":
            files = e.get("files", [])
            okf = all(x in ("nlcg.json", "nlcg.out") or x.startswith("stdout.") for x in files)
            if any(x["e"] == "rec" for x in evs):
                okf = okf and "nlcg.json" in files
            out.append(dict(k="end", filesOk=okf, excused=False))
        elif k in ("timeout", "crash", "abnormal", "garbled"):
            out.append(dict(k="bad", what="%s %s" % (k, e.get("sig", e.get("rc", "")))))
            break
        elif k == "harness-error":
            out.append(dict(k="bad", what="harness: " + e["what"][:200]))
    if not any(x["k"] in ("ret", "exc", "gaveup", "bad") for x in out):
        out.append(dict(k="bad", what="call did not end"))
    return dict(cfg=cfg, ev=out)


def abstract_scenario(sc, events, **kw):
    """all calls of one scenario -> list of (suffix, trace)"""
    res = []
    cs = calls_of(events)
    for i, evs in enumerate(cs):
        eff = dict(sc)
        if "calls" in sc:
            eff.update(sc["calls"][i])
        res.append((i, eff, evs))
    return res
