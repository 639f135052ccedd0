"""Which modules decide which property."""
import engine as en
import mods as mo
import kmods as km
import selftest as st

CALL = [en.mod_design, en.mod_mbt, en.mod_pool]
PLAN = {p: CALL for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C21", "C22", "C23")}
PLAN["C03"] = CALL + [en.mod_tol]
PLAN["C07"] = PLAN["C08"] = CALL + [km.mod_smear]
PLAN["C10"] = [mo.mod_ranks, mo.mod_split]
PLAN["C11"] = [mo.mod_coll, mo.mod_split]
PLAN["C13"] = CALL + [mo.mod_log, mo.mod_split]
PLAN["C12"] = [km.mod_gather]
PLAN["C14"] = [mo.mod_buffers]
PLAN["C15"] = [mo.mod_keys]
PLAN["C16"] = [mo.mod_requests]
PLAN["C18"] = [km.mod_kernels]
PLAN["C19"] = [km.mod_logger, km.mod_textlog]
PLAN["C20"] = [km.mod_lazy]
PLAN["C17"] = [mo.mod_session]
PLAN["C24"] = [mo.mod_faults]
PLAN["C25"] = [km.mod_switch]
PLAN["C26"] = [mo.mod_resources]
PLAN["C27"] = [mo.mod_host]
PLAN["C28"] = [mo.mod_symmetry]
PLAN["C29"] = [mo.mod_sinks]
PLAN["C30"] = [mo.mod_params]
PLAN["C31"] = [mo.mod_tale]
PLAN["C32"] = [mo.mod_ground]
PLAN = {p: list(ms) + [st.mod_selftest] for p, ms in PLAN.items()}
ASSUME = ["hosts are the mean-field and scripted hosts of harness/ (small sizes); real arithmetic is abstracted by "
          "orderings and by digits of agreement with an independent oracle",
          "CPU build (no GPU code is reachable here)"]
TECH_DEFAULT = ("TLA+ (TLC): design NlcgDesign model-checked against acceptor Monitor; TLC-generated behaviours replayed "
                "into the real code; traces of the real code checked by TLC (TraceCheck)")
NOTE_DEFAULT = ("Exhaustive on the bounded design model; on the code: every trace of the generated behaviours and of the "
                "mean-field scenario pool is accepted by the specification. Trusts the trace abstraction (tools/abstract.py) and "
                "the oracles in harness/.")
TECH, NOTE, NA = {}, {}, {}


def tech(i, spec, how, note):
    TECH[i] = "TLA+ (TLC): " + spec + "; " + how
    NOTE[i] = note


_OR = " Trusts the recording hosts and oracles in harness/ and the trace abstraction in tools/."
tech("C10", "Ranks model-checked (all distributions of k-points over ranks)",
     "its configurations are run with the real code under MPI and compared with the serial run by TLC (PairCheck)",
     "Exhaustive over distributions in the bounded model; on the code for the dumped configurations." + _OR)
tech("C11", "Ranks model-checked for deadlock and same collective sequence",
     "collective calls of every rank of the real runs (PMPI interposition) checked by TLC (CollCheck)",
     "Collective traces of every executed distribution; schedules are those MPI produced." + _OR)
tech("C12", "Gather model-checked (all owner/length assignments, all interleavings)",
     "its configurations executed by the real gathers and reductions on 1-4 ranks and judged by TLC (GatherCheck)",
     "Exhaustive in the bounded model; real executions of sampled configurations, integer data (exact).")
tech("C13", "NlcgDesign/Monitor and Ranks", "step logs of the real code replayed against Monitor (TraceCheck) and across ranks (CollCheck)",
     "Every record of every replayed behaviour." + _OR)
tech("C14", "Buffers (all layouts and strides) and HostMemory (all hosts that move buffers) model-checked", "its layouts and hosts are given to the real code, results compared by TLC (PairCheck)",
     "Exhaustive over the bounded layouts; real runs for the dumped layouts." + _OR)
tech("C15", "Keys model-checked (all enumerations and label assignments)", "its configurations run with the real code and compared by TLC (PairCheck)",
     "Exhaustive over bounded enumerations; real runs for the dumped ones." + _OR)
tech("C16", "Requests model-checked (all combinations of valid and invalid parameters)", "its requests are made to the real code and judged by TLC",
     "Every request of the model is executed (sampled in the quick tier)." + _OR)
tech("C17", "Session model-checked (all call histories)", "its histories are executed in one process and compared with the call made alone by TLC (PairCheck)",
     "Histories up to the stated depth; heap and stack contents are varied." + _OR)
tech("C18", "Kernels/Algebra: definition of the matrix operations and their laws checked by TLC",
     "operation space enumerated by TLC, executed by the real kernels with integer data and compared exactly in TLC (KernCheck)",
     "Exact for integer data; digits of agreement for eigensolvers, Cholesky solves and orthonormalisation.")
tech("C19", "LogDesign model-checked (all command sequences)", "its sequences are executed by the real logger on 1 and 3 ranks; files and consoles judged by TLC (LogCheck, TextCheck)",
     "Exhaustive sequences up to depth 4 (quick), random ones up to 14 commands, plus complete calls of the library.")
tech("C20", "Lazy model-checked against LazySpec (all programs over keyed collections up to the depth)",
     "its programs are executed by the real templates and re-executed by TLC (LazyCheck, CollOps)",
     "Exhaustive programs of 3 commands, random ones of 9, on 1 and 3 ranks.")

_CM = NOTE_DEFAULT
tech("C03", "NlcgDesign model-checked against Monitor", "generated behaviours replayed into the real code, runs repeated with tolerances placed "
     "around each observed improvement (mod_tol); traces checked by TLC (TraceCheck)", _CM)
for _i in ("C07", "C08"):
    tech(_i, "NlcgDesign against Monitor, Fermi (search and Newton choice) model-checked",
         "generated behaviours replayed into the real code, traces checked by TLC (TraceCheck); spectra, temperatures and electron numbers at "
         "and beyond the cut-offs computed by the real occupation code and judged by TLC (SmearCheck)", _CM)
tech("C24", "Faults model-checked (a fault at every callback of every bounded run)",
     "every fault is injected into the real code at every callback occurrence and the outcome, later host calls and later runs judged by TLC (FaultCheck)",
     "Every occurrence of every callback kind in the sampled runs; single process." + _OR)
tech("C25", "Switch model-checked (all settings and smearing kinds)",
     "its settings are executed by the real code in separate processes and the potentials judged by TLC (SwitchCheck)",
     "All settings of the model; sampled spectra." + _OR)
tech("C26", "Resources model-checked (all cycles of call endings)", "its cycles are repeated in the real process and the resources measured after "
     "each call and at each evaluation judged by TLC (ResCheck)",
     "Cycles of up to 2 (quick) or 3 calls, 20 rounds; a loss must show at the same place of the cycle in the middle and last third; "
     "memory is counted in blocks exactly and in bytes above 1 kB per third." + _OR)
tech("C27", "HostProto model-checked (deferred computations, rejected steps)", "every callback of real runs, with its thread and the state of the host, "
     "checked by TLC (HostCheck)", "Every callback of the sampled runs; the moment data behind a returned pointer is read is seen only through its results." + _OR)
tech("C28", "Symmetry model-checked (sequences of transformations of small problems over Gaussian integers)",
     "its sequences applied to the hosts of the real code, whose runs are compared with the original presentation by TLC (PairCheck)",
     "All sequences of up to 2 (quick) or 3 transformations in the model, sampled on the real code; agreement to the digits that "
     "copies of the original with inputs changed in the last digits keep (at most 9, 7 under changes of energy zero or unit)." + _OR)
tech("C29", "Sinks model-checked (worlds differing from the plain one in up to two respects)",
     "its worlds are set up around real runs, whose courses are compared bit for bit by TLC (PairCheck)",
     "Every world of the model, one and two ranks." + _OR)

tech("C30", "Params model-checked (pairs of calls differing in up to two parameters, arbitrary slopes and failures of the quadratic step)",
     "its pairs are run in the real code on real problems; TLC (ParamCheck) decides which part of the two runs is common and compares it bit for bit",
     "Values of the parameters are representatives of the abstract ones." + _OR)

tech("C31", "Tale model-checked (the log as a language: every course of a run tells exactly itself)",
     "the text logs of real runs are parsed into its tokens and replayed by TLC (TaleCheck) against evaluations, records and results",
     "Every line of every sampled run; lines of unknown form are ignored." + _OR)

tech("C32", "Ground model-checked (a duality bound from the mean field of any state holds for every state; descents end at minima)",
     "real runs on convex hosts are judged by TLC (GroundCheck) with that bound, from levels of the final mean field computed by the harness",
     "Sampled problems; convergence is demanded only of well-conditioned ones, minimality only where no occupation is saturated." + _OR)


def setup():
    import vlib
    vlib.build("nrun", ["toy.cpp", "runner.cpp"])
    vlib.build("kern", ["kern_main.cpp"], optional=en.KERN)
