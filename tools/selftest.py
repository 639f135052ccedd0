"""Spec-level mutants: every BUG switch of the designs has to be rejected by TLC (invariants are not vacuous)."""
import os, re, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import tlc, ToolError
import mbt

D = {  # module -> (constants, invariants, liveness)
    "Buffers": ("M=2 N=2 S0MAX=5 S1MAX=7", ["PaddingIntact", "ReadBack", "Injective"], []),
    "Faults": ("MaxIt=2 MaxEval=3", ["Delivered", "NoErrorInvented", "NothingAfter"], []),
    "Fermi": ("NK=2 NB=2 L=2 Mono=TRUE", ["Balanced", "OnlyIfNone"], []),
    "Gather": ("NR=3 NK=3 MaxLen=2", ["Complete", "NoOverlap"], []),
    "Kernels": ('Mode="laws" MaxDim=2 Full=FALSE', ["Laws"], []),
    "HostMemory": ("Trials=3 Iters=2", ["Sound"], ["Ends"]),
    "Ground": ("NK=2 NL=2 NB=1 Q=2 MaxLev=1", ["Below", "Found"], ["Ends"]),
    "Tale": ("MaxIt=2 MaxInc=2 MaxBt=2", ["InLanguage", "Told"], ["Ends"]),
    "HostProto": ("MaxStep=3", ["Serial", "Fresh", "OfThisPoint", "NoneAfter"], []),
    "Keys": ("NK=3 LabelSet=1", ["Matched"], []),
    "Lazy": ("Depth=3", ["Values", "Calls"], []),
    "LogDesign": ("NR=2 Depth=4", None, None),
    "Ranks": ("NR=2 NK=2 NRounds=2", ["Matching", "MasterOnly", "SameEnd"], ["AllEnd"]),
    "Resources": ("MaxCyc=2 Rounds=3 MaxIt=2", ["Nothing", "Bounded", "Flat"], []),
    "Requests": ("", ["Decided", "NoWorkBefore"], ["Ends"]),
    "Params": ("MaxIt=4", ["Shared", "Order"], ["Ends"]),
    "Sinks": ("MaxIt=2", ["Independent", "Complete", "Faithful"], ["Ends"]),
    "Symmetry": ("MaxLen=2", ["Normalised", "SameMu", "SameCharge", "SameEnergy", "SameFill"], []),
    "Switch": ("", ["OnIsExact", "OffIsNear", "ErrorOnlyIfNone", "MonotoneUnaffected"], []),
    "Session": ('Hosts={"A", "B"} Kinds={"fd", "fail"} Depth=3', ["NonInterference", "RefusedLeaveNoTrace"], []),
}
USES = {"C10": ["Ranks"], "C11": ["Ranks"], "C12": ["Gather"], "C13": ["NlcgDesign", "Ranks"], "C14": ["Buffers", "HostMemory"], "C15": ["Keys"],
        "C16": ["Requests"], "C17": ["Session"], "C18": ["Kernels"], "C19": ["LogDesign"], "C20": ["Lazy"],
        "C24": ["Faults"], "C25": ["Switch"], "C26": ["Resources"], "C27": ["HostProto"], "C28": ["Symmetry"], "C29": ["Sinks"], "C30": ["Params"], "C31": ["Tale"], "C32": ["Ground"],
        "C07": ["Fermi"], "C08": ["Fermi"]}


def bugs(spec, module):
    with open(os.path.join(spec, module + ".tla")) as f:
        t = f.read()
    return sorted(set(re.findall(r'BUG [=#] "(\w+)"', t)))


def cfg(module, bug):
    if module == "NlcgDesign":
        return mbt.design_cfg([0, 1, 2, 3], [1, 2, 3], nan=bug == "acceptNan", bug=bug, inv=("Quiet", "Budget", "TypeOK"), live=False)
    c, inv, live = D[module]
    if module == "LogDesign":
        import kmods
        inv, live = kmods.LOGINV, kmods.LOGPROP
    s = "SPECIFICATION Spec\nCONSTANTS %s %sBUG=\"%s\"\n" % (c, "" if module in ("Tale", "Ground") else "Dump=FALSE ", bug)
    s += "".join("INVARIANT %s\n" % i for i in inv) + "".join("PROPERTY %s\n" % p for p in live)
    return s


def run(spec, modules, sub):
    """-> {(module, bug): rejected}"""
    jobs = [(m, b) for m in modules for b in bugs(spec, m)]

    def one(j):
        m, b = j
        r = tlc(spec, m, cfg(m, b), sub("self-%s-%s" % j), workers=2, timeout=700, mem="4g")
        if r["rc"] not in (0, 12, 13, 11, 10):
            raise ToolError("self-test %s %s: TLC rc=%s\n%s" % (m, b, r["rc"], r["out"][-1500:]))
        return r["rc"] != 0
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(jobs, ex.map(one, jobs)))


def mod_selftest(ctx):
    if ctx.quick:
        return
    from engine import SPEC
    res = run(SPEC, USES.get(ctx.prop, ["NlcgDesign"]), ctx.scr.sub)
    ctx.extra["spec_mutants_rejected"] = ["%s/%s" % j for j, ok in sorted(res.items()) if ok]
    miss = ["%s/%s" % j for j, ok in sorted(res.items()) if not ok]
    if miss:
        raise ToolError("specification does not reject its own mutants: " + ", ".join(miss))


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from vlib import Scratch
    from engine import SPEC
    s = Scratch()
    try:
        for j, ok in sorted(run(SPEC, sorted(D) + ["NlcgDesign"], s.sub).items()):
            print("%-12s %-14s %s" % (j[0], j[1], "rejected" if ok else "NOT REJECTED"))
    finally:
        s.close()
