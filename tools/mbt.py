"""Model-based test generation: behaviours of spec/NlcgDesign.tla -> scripts for the real code.

A behaviour is a sequence of environment choices (slope class of every direction, outcome of every
evaluation).  concretise() picks numbers (energy, gradient, preconditioner) that realise these choices in
the scripted host, which has one k-point, one band and two basis functions.
"""
import json, math, re
from vlib import tlc, ToolError

TAU = 1e-3
NBT = 3            # 0.2, 2e-4, 2e-7


def design_cfg(maxits, restarts, nbt=2, kmax=1, nan=False, dump=False, bug="none", inv=("Quiet", "Monotone", "Budget", "TypeOK"),
               live=True, neg=0):
    c = ("SPECIFICATION Spec\nCONSTANTS MaxIts={%s} Restarts={%s} NBT=%d KMAX=%d Nan=%s NegUntil=%d Dump=%s BUG=\"%s\"\nVIEW View\n" %
         (",".join(map(str, maxits)), ",".join(map(str, restarts)), nbt, kmax, str(nan).upper(), neg, str(dump).upper(), bug))
    for i in inv:
        c += "INVARIANT %s\n" % i
    if live:
        c += "PROPERTY Termination\n"
    return c


def behaviours(specdir, workdir, maxits, restarts, simulate=None, seed=1, nan=True, kmax=1, timeout=300, neg=0):
    """dump complete behaviours, exhaustively or by TLC simulation"""
    cfg = design_cfg(maxits, restarts, nbt=NBT, kmax=kmax, nan=nan, dump=True, inv=("Quiet", "DumpInv"), live=False, neg=neg)
    extra = []
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-seed", str(seed), "-depth", "400"]
    r = tlc(specdir, "NlcgDesign", cfg, workdir, workers=1, extra=extra, timeout=timeout, mem="4g")
    if r["rc"] != 0:
        raise ToolError("TLC failed on NlcgDesign: " + r["out"][-1500:])
    bs, seen = [], set()
    for ln in r["out"].splitlines():
        if ln.startswith('"BEHAVIOUR '):
            s = json.loads(ln)[len("BEHAVIOUR "):]
            if s not in seen:
                seen.add(s)
                bs.append(json.loads(s))
    return bs, r


class Skip(Exception):
    pass


def concretise(b, rng, ident, delta=None):
    """-> scenario dict, or None if this behaviour has no numeric realisation in the scripted host"""
    hist = list(b["hist"])
    pos = 0
    script = []
    F = 100.0
    fr_old = None
    zeta = 0.0       # signed length of the current direction
    tacc = 0.0       # accepted step

    def nxt():
        nonlocal pos
        x = hist[pos]
        pos += 1
        return x

    def peek():
        return hist[pos] if pos < len(hist) else None

    def upcoming_flat(p):
        q = p
        while q < len(hist) and "o" in hist[q] and hist[q]["o"] == "conc":
            q += 1
        return q < len(hist) and hist[q].get("o") == "flat"

    def gdir(first=False):
        """consume the direction entries; returns (g, p, slope)"""
        nonlocal fr_old, zeta
        h = nxt()
        c = 1.0 / math.sqrt(1 + (tacc * zeta) ** 2)
        zt = zeta * c
        g0 = rng.choice([0.2, 0.35, 0.5, 0.2, 0.35, 0.5, 0.01, 3.0])
        if h["d"] == "SD":
            flat = h["s"] == "neg" and upcoming_flat(pos)
            g = 1e-12 if h["s"] == "tiny" else 2e-8 if flat else g0 * rng.choice([1, -1])
            p = -1.0 if h["s"] == "pos" else rng.choice([1.0, 0.7])
            fr = -2 * p * g * g
            zeta = -p * g
            fr_old = fr
            return g, p, fr
        # CG
        if h["s"] == "pos":
            h2 = nxt()
            if h2["s"] == "tiny":
                raise Skip()
            flat = h2["s"] == "neg" and upcoming_flat(pos)
            p = 1.0 if h2["s"] == "neg" else -1.0
            if p > 0:
                if flat or abs(fr_old) < 1e-10:
                    raise Skip()
                g = 3 * abs(fr_old) / (2 * abs(zt)) * (1 if zt > 0 else -1)
                # slope = fr + fr/fr_old * 2 g zt = -2g^2 (1 - 2 g zt / |fr_old|)
            else:
                # fr > 0, gamma < 0: need gamma * 2 g zt >= 0
                g = g0 * (-1 if zt > 0 else 1)
                if abs(fr_old) < 1e-10:
                    raise Skip()
            fr = -2 * p * g * g
            if not (fr + fr / fr_old * 2 * g * zt > 1e-6):
                raise Skip()
            zeta = -p * g
            fr_old = fr
            return g, p, fr
        if h["s"] == "tiny":
            return 1e-12, 1.0, -1e-24
        flat = upcoming_flat(pos)
        if abs(fr_old) < 1e-10 and not flat:
            raise Skip()
        g = (2e-8 if flat else g0) * (-1 if zt > 0 else 1)
        p = 1.0
        fr = -2 * p * g * g
        gam = fr / fr_old
        sl = fr + gam * 2 * g * zt
        zeta = -p * g + gam * zt
        fr_old = fr
        return g, p, sl

    try:
        ent = dict(E=F, g=0.1, p=1.0)
        script.append(ent)
        g, p, sl = gdir(True)
        script.append(dict(E=F, g=g, p=p))
        it = 0
        while pos < len(hist):
            d = delta if delta is not None else rng.choice([1e-2, 1e-5, 1e-9, 1e-12])

            def low(F):
                return F - d if d else math.nextafter(F, -math.inf)

            def up(F):
                return F + d if d else math.nextafter(F, math.inf)
            # trials
            t = 0.2
            tm = None
            while True:
                o = nxt()["o"]
                e = dict(g=0.1, p=1.0, w=t * zeta)
                script.append(e)
                if o == "conc":
                    e["E"] = F + 3 * sl * t if abs(sl) > 1e-10 else F - 0.1
                    t *= 5
                    continue
                if o == "conv":
                    e["E"] = F + 0.5 * abs(sl) * t
                    if abs(sl) < 1e-10:
                        raise Skip()
                    num = e["E"] - sl * t - F
                    tm = -sl * t * t / (2 * num)
                elif o == "nan":
                    e["E"] = "nan"
                else:
                    e["E"] = F
                break
            acc = None
            if tm is not None:
                o = nxt()["o"]
                e = dict(g=0.1, p=1.0, w=tm * zeta)
                script.append(e)
                e["E"] = low(F) if o == "lt" else F if o == "eq" else "nan" if o == "nan" else up(F)
                if o not in ("gt", "nan"):
                    acc = (e, tm)
            if acc is None:
                for j in range(NBT):
                    o = nxt()["o"]
                    e = dict(g=0.1, p=1.0, w=0.2 * TAU ** j * zeta)
                    script.append(e)
                    e["E"] = low(F) if o == "lt" else F if o == "eq" else "nan" if o == "nan" else up(F)
                    if o == "lt":
                        acc = (e, 0.2 * TAU ** j)
                        break
                else:
                    e = dict(g=0.1, p=1.0, E=F)
                    script.append(e)
                    acc = (e, 0.0)
            e, tacc = acc
            if pos < len(hist):
                F = e["E"]
                g, p, sl = gdir()
                e["g"], e["p"] = g, p
    except Skip:
        return None
    return dict(id=ident, kind="script", script=script, maxiter=b["maxit"], restart=b["restart"], tau=TAU, tol=1e-20,
                kappa=rng.choice([0.0, 0.3]), smear=rng.choice([0, 0, 1, 2]), poststate=False,
                flat=any(h.get("o") == "flat" for h in hist), expect=dict(n=b["n"], nrec=b["nrec"], fin=b["fin"]))
