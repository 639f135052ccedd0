"""Scenario pool: mean-field hosts on which the real code is run and every property's acceptor evaluated."""
import random

LAY = ["dense", "padcol", "padcol1", "row", "rowpad", "every2"]


def base(rng, **kw):
    nspin = rng.choice([1, 1, 2])
    occ = 1 if nspin == 2 else rng.choice([1, 2, 2])
    nb = rng.choice([2, 3, 4, 5])
    cap = occ * nb * nspin
    s = dict(kind="toy", seed=rng.randrange(1, 10 ** 6), nk=rng.choice([1, 2, 3, 4]), nspin=nspin, occ=occ, nb=nb,
             npw=[nb + rng.choice([0, 1, 2, 4, 6]) for _ in range(rng.choice([1, 2, 3]))],
             ne=rng.randrange(1, cap), smear=rng.randrange(5), T=rng.choice([300, 1000, 3000, 8000, 20000]),
             restart=rng.choice([1, 2, 3, 4, 10]), tau=rng.choice([0.1, 0.1, 0.5, 0.03]),
             kappa=rng.choice([0.0, 0.05, 0.3, 0.3, 1.0]), tol=rng.choice([1e-3, 1e-5, 1e-9]),
             maxiter=rng.choice([1, 2, 3, 5, 8, 13]), U=rng.choice([0.0, 0.3, 1.0]), Smix=rng.choice([0.0, 0.2, 0.6]),
             Pmix=rng.choice([0.1, 0.5]), spread=rng.choice([0.5, 1.0, 2.0]), shift=rng.choice([0.0, 0.0, -3.0, 2.0]),
             layoutC=rng.choice(LAY), layoutH=rng.choice(LAY), dirty=rng.choice([0, 0xA5, 1, 255]), poststate=False)
    if any(n == nb for n in s["npw"]):
        s["npw"] = [n + 1 for n in s["npw"]]
    s.update(kw)
    return s


def pool(seed, tier="quick", scale=1.0):
    rng = random.Random(seed * 7919 + 17)
    out = []
    n = 1 if tier == "quick" else 12
    k = lambda q: max(1, int(q * n * scale))

    def add(pre, s):
        s["id"] = "%s%d" % (pre, len(out))
        out.append(s)
        return s
    # generic, all smearings evenly
    for i in range(k(60)):
        add("g", base(rng, smear=i % 5))
    # energy not matching its gradient: failing line searches, backtracking, resets, give-up
    for i in range(k(40)):
        add("p", base(rng, smear=i % 5, amp=rng.choice([1e-3, 1e-2, 0.1, 1.0]), freq=rng.choice([3, 30, 300, 3000]),
                      maxiter=rng.choice([4, 8, 13])))
    # finite-difference regime
    for i in range(k(40)):
        add("f", base(rng, smear=i % 5, pscale=1e-5, kappa=rng.choice([1e-5, 1e-5, 0.0]), fd=True, tol=1e-14,
                      maxiter=rng.choice([3, 4, 6]), T=rng.choice([1000, 3000, 8000, 20000]), occ=None))
        s = out[-1]
        s["occ"] = 1 if s["nspin"] == 2 else 1 + i % 2
        s["ne"] = min(s["ne"], s["occ"] * s["nb"] * s["nspin"] - 1)
    # (nearly) degenerate bands that are coupled by the Hamiltonian
    for i in range(k(24)):
        g = dict(gap=rng.choice([0.0, 1e-12, 1e-9, 1e-6, 1e-4, 2e-3]))
        if i % 4:
            add("d", base(rng, smear=i % 5, pscale=1e-5, kappa=1e-5, fd=True, tol=1e-14, maxiter=1,
                          T=rng.choice([1000, 3000, 8000]), **g))
        else:
            add("d", base(rng, smear=i % 5, **g))
    # kappa = 0: slope, weight and uphill test are known in closed form
    for i in range(k(25)):
        add("z", base(rng, smear=i % 5, kappa=0.0, tol=1e-10, maxiter=rng.choice([6, 9]), restart=rng.choice([3, 5, 10]),
                      amp=rng.choice([0, 0, 0.05]), freq=30))
    # long runs
    for i in range(k(10)):
        add("l", base(rng, smear=i % 5, maxiter=rng.choice([23, 34]), tol=1e-30, restart=rng.choice([3, 10, 40])))
    for i in range(k(2)):
        add("l", base(rng, smear=rng.randrange(5), maxiter=rng.choice([104, 125]), tol=1e-30, restart=rng.choice([3, 10, 40]), kappa=1e-3))
    # sizes
    for i in range(k(1)):
        add("s", base(rng, smear=rng.randrange(5), nb=24, nspin=1, occ=2, npw=[70], ne=rng.randrange(3, 46), nk=2, maxiter=3))
    for i in range(k(12)):
        nb = rng.choice([1, 1, 8, 11])
        nspin = rng.choice([1, 2])
        occ = 1 if nspin == 2 else 2
        add("s", base(rng, smear=i % 5, nb=nb, nspin=nspin, occ=occ, npw=[nb + rng.choice([1, 2, 9, 14])],
                      ne=rng.randrange(1, max(2, occ * nb * nspin)), nk=rng.choice([1, 2, 7]), maxiter=4))
    # converging runs, ends in every exit
    for i in range(k(20)):
        add("c", base(rng, smear=i % 5, maxiter=60, tol=rng.choice([1e-2, 1e-4, 1e-6]), T=rng.choice([3000, 8000])))
    # budgets incl. zero, paired with one more iteration (residual of a budget exit)
    for i in range(k(12)):
        b = base(rng, smear=i % 5, tol=1e-30, maxiter=[0, 1, 2, 11][i % 4])
        s = add("b", dict(b))
        t = add("b", dict(b, maxiter=b["maxiter"] + 1))
        s["pair"] = t["id"]
    # energies that keep falling along the line: very long steps
    for i in range(k(14)):
        dn = rng.choice([1, 2, 4, 5, 6, 7])
        add("w", base(rng, smear=i % 5, dropN=dn, dropA=rng.choice([1.0, 30.0]), maxiter=rng.choice([1, 2, 3, 5]),
                      kappa=rng.choice([0.0, 0.1, 0.3]) if dn < 3 else rng.choice([0.0, 1e-6, 1e-5]),
                      T=rng.choice([3000, 8000])))
    # electron count exactly filling all bands / nearly empty
    for i in range(k(5)):
        s = base(rng, smear=i % 3, nk=rng.choice([1, 2]), maxiter=3)
        s["ne"] = s["occ"] * s["nb"] * s["nspin"]
        add("e", s)
    # (nearly) filled shells: only the pseudo-Hamiltonian moves, the response of the chemical potential is small
    for i in range(k(10)):
        s = base(rng, smear=i % 5, pscale=1e-6, kappa=rng.choice([0.05, 0.3, 1.0]), tol=1e-16, maxiter=rng.choice([1, 2, 4]),
                 T=rng.choice([4000, 6000, 8000, 12000, 20000]), spread=rng.choice([1.0, 1.0, 2.0]))
        s["ne"] = s["occ"] * s["nspin"] * rng.randrange(1, s["nb"])
        add("i", s)
    return out
