import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=None)))
NT="No existing test calls a minimiser entry point; the suite only touches isolated containers, kernels and the smearing class on one or two fixed inputs. "
p("C01","Free energy never increases from one accepted point to the next",
 "In every minimisation the free energies of successive accepted points, as written to the step log and returned to the caller, never increase (beyond the rounding of re-evaluating an unchanged point). A trial or predicted point whose free energy lies above that of the current point is never accepted as the next point.",
 ["inputs","histories","configurations"],
 "All hosts (energy landscapes, including adversarial ones whose energy does not match the gradient), all smearings, temperatures, parameter choices and lengths of run.",
 NT+"Descent is a statement about every history of trial, predicted, backtracking and reset evaluations.",
 ["src/linesearch/linesearch.hpp","src/nlcglib.cpp","src/free_energy.hpp"],
 [("quadratic search rejects a predicted minimum above the start","linesearch.hpp qline"),("backtracking accepts only strictly lower points","linesearch.hpp bt_search"),("failed search falls back to the unchanged point","linesearch.hpp bt_search")],
 ["nlcg.json records","returned free energy","host energy at each evaluation"])
p("C02","On every exit the host holds the accepted point that the result describes",
 "When a minimisation returns (converged, iteration budget used up, no descent possible, or ascent direction), the wave functions, occupations, chemical potential and energy left in the host are those of the last accepted point, not of a rejected trial. The returned free energy, entropy, iteration number and residual describe that same point, for every iteration budget including zero.",
 ["inputs","histories","fault_sequences"],
 "All exits of the minimiser reached after any history of accepted and rejected steps.",
 NT+"Exit states after failing line searches need specific histories.",
 ["src/nlcglib.cpp","src/linesearch/linesearch.hpp","src/free_energy.hpp"],
 [("result is filled from the free-energy object","nlcglib.cpp print_info / nlcg_us"),("host is reset to the start point before giving up","linesearch.hpp bt_search")],
 ["EnergyBase callbacks","nlcg_info"])
p("C03","Convergence is reported exactly when earned and the budget is respected",
 "The result says converged exactly when, at the start of an iteration within the budget, the magnitude of the current slope was below the requested tolerance; the run then stops without further evaluations. Never more than the requested number of iterations is carried out, and a run that ends for another reason reports not converged.",
 ["inputs","histories","configurations"],
 "All tolerances, iteration budgets and histories.",
 NT,
 ["src/nlcglib.cpp"],
 [("slope test at the top of each iteration","nlcglib.cpp nlcg_us"),("bounded iteration loop","nlcglib.cpp nlcg_us")],
 ["nlcg_info","nlcg.json records","count of evaluations"])
p("C04","Restart, conjugation and give-up policy is followed in every history",
 "The first direction is steepest descent; after iteration i the next direction is steepest descent if i is a multiple of the restart period or the line search of iteration i failed, and otherwise a conjugate direction, replaced by steepest descent when it points uphill. A failed line search returns to the unchanged point once; failing again from a fresh steepest-descent direction, or a steepest-descent direction that itself points uphill, ends the run as not converged without an exception.",
 ["histories","configurations"],
 "All histories of accepted, rejected and uphill steps and all restart periods of at least one.",
 NT+"The policy couples the flag set in one iteration to decisions in the next.",
 ["src/nlcglib.cpp","src/linesearch/linesearch.hpp","src/exceptions.hpp"],
 [("restart test","nlcglib.cpp nlcg_us"),("forced-restart flag","linesearch.hpp"),("exceptions for hopeless searches","exceptions.hpp")],
 ["displacement of the first trial of each iteration","nlcg_info"],
 [("force_restart","line search failed once / direction replaced","nlcglib.cpp")])
p("C05","Every evaluation sees one complete, coherent state",
 "Each time the host is asked to evaluate, wave functions and occupations of all local k-points belong to one and the same candidate point and have all been handed over beforehand; afterwards the matching chemical potential is set before the next candidate is handed over and before the point is logged or returned. Host buffers that are inputs to the minimiser are never modified.",
 ["histories","inputs","configurations"],
 "All runs, all k-point sets and spin settings.",
 NT,
 ["src/free_energy.hpp","src/la/mvector.hpp"],
 [("copy wave functions, set occupations, compute, set chemical potential, read energy","free_energy.hpp compute")],
 ["EnergyBase callback order and contents"])
p("C06","Wave functions handed to the host are always S-orthonormal",
 "At every evaluation and on every exit the wave functions of each k-point satisfy X^H S X = 1 to rounding (rounding times the squared length of the step), for every overlap operator, step length and direction, provided the initial ones do.",
 ["inputs","histories"],
 "All overlap operators (including strongly non-diagonal ones), all step lengths including very large ones, all numbers of bands.",
 NT,
 ["src/geodesic.hpp","src/la/lapack.hpp","src/la/lapack_cpu.hpp"],
 [("Loewdin orthonormalisation with the overlap, then unitary rotation","geodesic.hpp advance_x, lapack.hpp loewdin")],
 ["wave functions in the host at each evaluation"])
p("C07","Electrons are conserved and occupations stay within their bounds",
 "At every evaluation the k-weighted occupations sum to the number of electrons: to within 1e-9 for Fermi-Dirac, Gauss and Gaussian-spline smearing, and to within the documented 1e-2 for Methfessel-Paxton and cold smearing, where a deviation above 1e-7 is possible only at a stationary point of the electron count. Occupations lie between 0 and the host's maximum occupancy for the three monotone smearings; if no chemical potential exists the call fails with an error instead of continuing.",
 ["inputs","configurations"],
 "All band spectra (degenerate, widely spread, far from zero), weights, electron numbers, temperatures, smearings and occupancies.",
 NT+"The existing smearing test uses one spectrum on one k-point.",
 ["src/smearing.hpp","src/dft/newton_minimization_smearing.hpp","src/utils/env.hpp"],
 [("bracketing search for the chemical potential","smearing.hpp find_chemical_potential"),("Newton search with fallback","newton_minimization_smearing.hpp")],
 ["occupations handed to the host"])
p("C08","Free energy is energy plus the entropy term of the selected smearing",
 "The free energy used and reported is the host's total energy minus temperature times the entropy, where occupations, entropy and chemical potential follow the textbook formulas of the selected smearing with the host's weights and maximum occupancy, for every smearing, temperature and occupancy. Reported occupations and pseudo-eigenvalues are consistent with the reported chemical potential.",
 ["inputs","configurations"],
 "All five smearings, both occupancies, all temperatures above zero, all spectra.",
 NT+"The smearing test compares a few values for one occupancy.",
 ["src/smearing.hpp","src/free_energy.hpp","src/constants.hpp"],
 [("smearing families","smearing.hpp"),("free energy = total energy + kT*entropy","free_energy.hpp")],
 ["nlcg.json","occupations in the host","nlcg_info"])
p("C09","The reported slope is the directional derivative of the free energy",
 "The slope on which convergence, the line search and restarts rely equals the derivative of the free energy along the actual search path at its start, for steepest-descent and conjugate directions, all smearings, k-point weights and occupancies. A steepest-descent direction of a host with a positive preconditioner never points uphill.",
 ["inputs","histories"],
 "All hosts whose gradient matches their energy; all iterations.",
 NT,
 ["src/mvp2/descent_direction_impl.hpp","src/mvp2/descent_direction.hpp","src/pseudo_hamiltonian/grad_eta.hpp","src/mvp2/mvp2.hpp"],
 [("gradient with respect to orbitals and pseudo-Hamiltonian","descent_direction_impl.hpp, grad_eta.hpp")],
 ["slope in nlcg.json against energies of infinitesimal steps"])
p("C10","Results do not depend on how k-points are distributed over ranks",
 "For every distribution of the k-points over MPI ranks, including ranks without any k-point, the run takes the same decisions and produces the same free energies, chemical potentials, occupations and final state as the serial run up to floating-point reordering. All ranks return the same result.",
 ["schedules","configurations"],
 "All distributions over up to a few ranks and all timings.",
 NT+"The suite has no multi-rank minimisation.",
 ["src/la/mvector.hpp","src/smearing.hpp","src/mvp2/descent_direction.hpp","src/pseudo_hamiltonian/grad_eta.hpp"],
 [("sums and gathers over the k-point communicator","mvector.hpp, communicator.hpp")],
 ["per-rank results and host states under mpirun"])
p("C11","All ranks issue matching collective operations in every run",
 "In every multi-rank run, under any timing, all ranks of the k-point communicator issue the same sequence of collective operations with compatible sizes, so no run deadlocks or mixes data, also when ranks own different numbers of k-points or none. Only the k-point communicator and per-rank communication are used for them.",
 ["schedules","configurations"],
 "All interleavings of the ranks, all distributions and all control-flow histories (restarts, failures, convergence).",
 NT,
 ["src/nlcglib.cpp","src/la/mvector.hpp","src/mpi/communicator.hpp","src/smearing.hpp"],
 [("control flow depends only on reduced values","nlcglib.cpp"),("logging gathers are executed by all ranks","nlcglib.cpp cg_write_step_json")],
 ["interposed MPI calls on every rank"])
p("C12","Gathers and reductions deliver every key's data exactly once and intact",
 "Gathering a keyed collection over a communicator yields, on every rank, exactly the union of all ranks' entries with each value intact, for scalars and for vectors of unequal (also zero) length and ranks without entries; reductions yield the sum, minimum or maximum over all ranks.",
 ["inputs","configurations"],
 "All distributions of keys and all vector lengths over up to a few ranks.",
 "The MPI wrapper tests run one regular distribution.",
 ["src/la/mvector.hpp","src/mpi/communicator.hpp","src/mpi/mpi_type.hpp"],
 [("two-phase allgather with counts and offsets","mvector.hpp allgather, communicator.hpp")],
 ["gathered containers on every rank"])
p("C13","The step log holds one faithful record per iteration of this run only",
 "The JSON step log written by the master rank contains exactly one record per started iteration of the current run (including the converged one), numbered 0,1,2,..., with free energy, total energy, entropy, slope, chemical potential and energy components of the accepted point of that iteration, and every tenth record adds pseudo-eigenvalues and occupations of all k-points of all ranks. Records of earlier runs are removed, and other ranks write nothing.",
 ["histories","schedules","configurations"],
 "All run lengths, distributions, timings and left-over files of earlier runs.",
 NT,
 ["src/nlcglib.cpp","src/utils/step_logger.hpp"],
 [("record written before each line search and on convergence","nlcglib.cpp cg_write_step_json"),("log removed at start","nlcglib.cpp nlcg_us")],
 ["nlcg.json"])
p("C14","Buffer layout does not matter and padding is never touched",
 "For any valid strided layout of the host's wave-function and gradient buffers (padded columns, row-major, gaps; columns or rows do not interleave) and any spacing of its vectors of band energies and occupations the run is the same as with dense buffers, and memory between, before and after the described elements is neither read into results nor written. A host may keep its data in other memory after an evaluation: only descriptions fetched since are used.",
 ["inputs","configurations"],
 "All layouts expressible in the buffer description, for every matrix shape; all hosts that move some of their buffers after some evaluations.",
 "The stride test copies one matrix in one layout.",
 ["src/la/dvector.hpp","src/la/mvector.hpp","src/free_energy.hpp"],
 [("strided unmanaged views and copies","dvector.hpp, mvector.hpp")],
 ["host buffers with sentinel padding","memory a host has left (poisoned)"])
p("C15","Data are associated by k-point key, whatever the enumeration order",
 "Per-k-point quantities (wave functions, energies, occupations, weights, overlap and preconditioner) are matched by their (k,spin) key only: enumerating the k-points in another order, or relabelling keys, changes nothing but rounding. Operators are called only with local keys and operands of that k-point's shape.",
 ["inputs","configurations"],
 "All permutations of enumeration order and injective relabellings, with k-points of different sizes.",
 NT,
 ["src/la/mvector.hpp","src/operator.hpp","src/free_energy.hpp"],
 [("keyed containers","mvector.hpp tapply, operator.hpp")],
 ["callbacks and final state under permuted hosts"])
p("C16","Each entry point runs the documented method or refuses cleanly",
 "Entry points that are not available (norm-conserving variants, device variants in a build without GPU support) and invalid requests (zero or negative temperature, unknown smearing, wave functions in memory the method cannot use) fail with an exception before any evaluation of a candidate point and without modifying the host; wave functions distributed over several ranks are refused before the first step is taken. The combined device/CPU entry point behaves exactly like the CPU one, and every smearing selects its own method.",
 ["inputs","configurations"],
 "All entry points, smearings and invalid requests.",
 NT,
 ["src/nlcglib.cpp","include/nlcglib.hpp","src/smearing.hpp","src/la/mvector.hpp"],
 [("dispatch on smearing","nlcglib.cpp nlcg_us_cpu"),("argument checks","smearing.hpp, mvector.hpp, dvector.hpp")],
 ["exceptions and host state"])
p("C17","Runs are deterministic and independent of earlier runs in the process",
 "Repeating a run with the same host gives bitwise the same result, and a run gives the same result whether or not other runs (successful, failed or rejected, with other hosts and smearings) took place in the process before; calls interleaved on several hosts give each host the results its own calls give alone.",
 ["histories","programs"],
 "All sequences of calls in one process.",
 NT,
 ["src/nlcglib.cpp","src/utils/logger.hpp","src/csingleton.hpp","src/utils/env.hpp"],
 [("all state local to the call, logger re-attached","nlcglib.cpp")],
 ["results and host states of call sequences"])
p("C18","Dense kernels compute the exact algebra for every shape and layout",
 "The library's matrix building blocks (products, inner products, traces, scaled sums, column scaling, copies, diagonal matrices, eigen-decomposition, linear solves, orthonormalisation) return the mathematically defined result for every shape, layout, scalar factor and aliasing-free operand, and leave their inputs unchanged unless documented to work in place.",
 ["inputs","configurations"],
 "All small shapes, layouts and scalar factors, integer-valued operands checked exactly.",
 "The tests check single fixed cases.",
 ["src/la/lapack.hpp","src/la/lapack_cpu.hpp","src/la/utils.hpp","src/la/dvector.hpp","src/la/cblas.hpp"],
 [("BLAS/LAPACK wrappers","lapack_cpu.hpp, cblas.hpp")],
 ["kernel results"])
p("C19","The text log goes where it was attached, in order and with its prefixes",
 "Text sent to the logger appears in the attached file in order with the currently active prefixes, on the console only on the master rank while console output is attached or explicitly requested for that message, and a later attachment redirects subsequent output only.",
 ["programs","histories"],
 "All sequences of attach, detach, prefix and write operations.",
 "The logger is not tested.",
 ["src/utils/logger.hpp","src/csingleton.hpp"],
 [("logger state","logger.hpp")],
 ["files and console"])
p("C20","Keyed maps and lazy evaluation apply each function once per key",
 "Applying a function over keyed collections calls it exactly once per key of the collection with the operands of that key, immediately or when forced as documented, and repeated evaluation of the same stored result does not change it; splitting a collection of tuples preserves every component under its key and the communicator semantics of products and sums.",
 ["programs","inputs"],
 "All small key sets, operand combinations and evaluation orders.",
 "The mvector tests evaluate one expression.",
 ["src/la/mvector.hpp","src/la/map.hpp","src/helper/funcs.hpp","src/traits.hpp"],
 [("tapply / eval / unzip","map.hpp, mvector.hpp, funcs.hpp")],
 ["call counts and results per key"])
p("C21","Line search takes the documented steps and always ends",
 "Every line search first tries step 0.2, enlarges it fivefold while the energy lies below the tangent, then evaluates the minimum of the fitted parabola and accepts it unless its free energy exceeds the start; otherwise it tries 0.2, 0.2*tau, 0.2*tau^2, ... down to 1e-8 until the free energy is strictly lower, and finally re-evaluates the unchanged point. All trial points of one search lie on one path, steps are finite, and the search ends for every energy that is bounded below.",
 ["histories","inputs","configurations"],
 "All slopes, energies (also constant or linear ones) and backtracking factors below one.",
 NT,
 ["src/linesearch/linesearch.hpp","src/geodesic.hpp"],
 [("quadratic search","linesearch.hpp qline"),("backtracking","linesearch.hpp bt_search")],
 ["displacements of successive evaluations"])
p("C22","Search directions are tangent, preconditioned and correctly transported",
 "A steepest-descent direction is the preconditioned residual of the current orbitals, tangent to the S-orthonormality constraint; a conjugate direction adds the previous direction, rotated with the orbitals and projected back to the tangent space, weighted by the ratio of the new to the previous gradient measure (Fletcher-Reeves).",
 ["inputs","histories"],
 "All hosts, overlaps, preconditioners, numbers of bands and k-points, all iterations.",
 NT,
 ["src/mvp2/descent_direction.hpp","src/mvp2/descent_direction_impl.hpp","src/mvp2/mvp2.hpp"],
 [("Lagrange multipliers, rotation, projection","mvp2.hpp"),("direction update","descent_direction.hpp")],
 ["displacement of the first trial of each iteration against the host's own operators"])
p("C23","Occupations along a step follow the pseudo-Hamiltonian of that step",
 "At a step of length t the occupations are those of the eigenvalues of the current pseudo-Hamiltonian advanced by t times its direction, the orbitals are rotated into its eigenbasis, and the steepest-descent direction of the pseudo-Hamiltonian is kappa times its difference to the subspace Hamiltonian; conjugate steps add the rotated previous direction with the same weight as for the orbitals.",
 ["inputs","histories"],
 "All hosts, kappa, temperatures and iterations.",
 NT,
 ["src/geodesic.hpp","src/pseudo_hamiltonian/grad_eta.hpp","src/mvp2/descent_direction.hpp"],
 [("advance, diagonalise, rotate","geodesic.hpp"),("preconditioned direction","grad_eta.hpp _delta_eta")],
 ["occupations and orbitals at each evaluation against the host's own operators"])
p("C24","An error raised by the host reaches the caller and leaves nothing behind",
 "An exception raised by any host callback (energy evaluation, hand-over of coefficients, occupations, energies or chemical potential, operator application, or a query of the host) at any point of a call ends the call with that same exception, type and content unchanged; afterwards the host is neither evaluated nor changed by that call, and later calls in the same process give the results they give alone.",
 ["fault_sequences","histories"],
 "Every callback at every occurrence of a run, single process, hosts throwing their own exception types (derived from std::exception or not).",
 "No test has a failing host; the line search and the iteration both catch exceptions of their own internally.",
 ["src/nlcglib.cpp","src/linesearch/linesearch.hpp","src/free_energy.hpp","src/interface.hpp"],
 [("handlers for internal errors only","nlcglib.cpp catch DescentError, linesearch.hpp catch StepError"),("callbacks","free_energy.hpp")],
 ["exception at the caller, calls made to the host after it, later runs"])
p("C25","NLCGLIB_DISABLE_NEWTON_EFERMI selects the electron-count search as stated",
 "With NLCGLIB_DISABLE_NEWTON_EFERMI set (before the process starts) to anything but 0, Methfessel-Paxton and cold smearing conserve the electron number to the search tolerance (1e-9) or the call fails; unset or 0, the chemical potential is the one Newton's minimisation reaches from the Gauss-smeared potential, and the search's when the minimisation fails. The other smearings do not depend on the variable.",
 ["configurations","inputs"],
 "All values of the variable (read once per process), all smearings, temperatures, spectra and electron numbers.",
 "The tests never set the variable.",
 ["src/utils/env.hpp","src/smearing.hpp"],
 [("switch","env.hpp"),("Newton or search","smearing.hpp find_mu / fermi_energy")],
 ["chemical potential and electron number"])
p("C26","A call leaves nothing behind in the process",
 "However a call ends - iterations used up, convergence, no descent, a refused request, an error of the host - it releases every handle it obtained from the host, and repeating calls does not make the memory, MPI datatypes, communicators, groups and operations, open files or threads held by the process grow with the number of calls, nor does what is held during a call grow with the number of iterations. Settings of the process (rounding mode, floating-point traps, stream formats, locale, working directory, signal handlers, environment) are after a call what they were before.",
 ["histories","fault_sequences"],
 "All sequences of calls with all ways of ending, any number of repetitions, one and several ranks.",
 "Tests make a single call per process and do not measure what stays behind; a leak of a few resources per call never shows in them.",
 ["src/nlcglib.cpp","src/mpi/mpi_type.hpp","src/mpi/communicator.hpp","src/utils/logger.hpp","src/la/mvector.hpp"],
 [("one MPI type per process","mpi_type.hpp"),("log file attached anew by each call","logger.hpp, nlcglib.cpp"),("handles of the host","interface.hpp, mvector.hpp make_mm*")],
 ["resources of the process after each call and at each evaluation"])
p("C27","The host is used sequentially and its results only for the state it evaluated",
 "All calls of the library to the host and its operators are made by the thread that called the library, one at a time, and none after the call has ended; energies, Hamiltonian applications and band energies are fetched only after an evaluation and only while the coefficients and occupations in the host are those that were evaluated.",
 ["histories","schedules"],
 "All histories of steps, rejections and failures, all smearings, one and several ranks.",
 "The tests' host answers from fixed arrays in any order and thread.",
 ["src/la/map.hpp","src/la/utils.hpp","src/free_energy.hpp","src/linesearch/linesearch.hpp","src/nlcglib.cpp","src/geodesic.hpp"],
 [("deferred computations are forced by the calling thread","la/utils.hpp, la/map.hpp"),("evaluate, then read","free_energy.hpp compute, nlcglib.cpp")],
 ["every callback of the host with thread and state of the host"])
p("C28","The run depends on the physical problem, not on how it is presented",
 "Presenting the same problem differently - another zero or unit of energy (with temperature and tolerance converted), other phases or a rotation of the basis functions of a k-point, the complex-conjugated problem, additional decoupled basis functions, another order of the bands, a k-point given as two of half its weight, two spin channels of half occupancy instead of one, another enumeration of the keys - gives the same run: the same decisions, and free energies, entropies, slopes, chemical potentials, occupations and result that agree (after conversion) to rounding.",
 ["inputs","configurations"],
 "All problems, all sequences of such transformations, all smearings; conversions of energy only where the chemical potential is determined by the electron number (no gap around it); general (non-unitary) changes of basis only for steepest descent, since the conjugate direction is made tangent in the metric of the basis.",
 "A test looks at one presentation of one problem; a missing weight, conjugate, occupancy factor or absolute threshold is consistent with itself there.",
 ["src/smearing.hpp","src/pseudo_hamiltonian/grad_eta.hpp","src/mvp2/descent_direction.hpp","src/mvp2/descent_direction_impl.hpp","src/linesearch/linesearch.hpp","src/geodesic.hpp","src/nlcglib.cpp"],
 [("weights and occupancy enter sums only","grad_eta.hpp, smearing.hpp"),("directions independent of the weight","descent_direction_impl.hpp, grad_eta.hpp _delta_eta"),("decisions on differences of energies","linesearch.hpp")],
 ["course of the run and result for each presentation"])
p("C29","Logs are outputs only",
 "The course and result of a call do not depend on its logs: on whether nlcg.json and nlcg.out are absent, left over from earlier runs or cannot be written, whether the working directory exists, whether the console accepts output, which stream formats and locale the caller has set, and which names the host gives to its energy components. If the step log can be written its records are the same in all these cases.",
 ["configurations","histories"],
 "All combinations of up to two of these circumstances, all ways of ending, one and several ranks.",
 "Tests never call the minimiser with a log that cannot be written.",
 ["src/utils/logger.hpp","src/utils/step_logger.hpp","src/nlcglib.cpp"],
 [("writing of a record","step_logger.hpp ~StepLogger"),("text log","logger.hpp operator<<, attach_file_master"),("removal of an old step log","nlcglib.cpp")],
 ["evaluations, chemical potentials, records and result in every such world"])
p("C30","Each parameter acts only where it is meant to act",
 "maxiter and the tolerance only decide where a run stops: with a larger budget or a tighter tolerance the run takes exactly the same steps first, and never fewer of them. The restart interval has no effect before the first iteration whose direction it decides, and the backtracking factor none before the first backtracking; everything before that point (trial states, energies, chemical potentials, records) is identical for any other value.",
 ["inputs","histories"],
 "All problems, pairs of parameter settings, smearings, number of ranks.",
 "Tests run each input with one setting of the parameters.",
 ["src/nlcglib.cpp","src/linesearch/linesearch.hpp"],
 [("stopping","nlcglib.cpp nlcg main loop"),("restart","nlcglib.cpp (i % restart)"),("tau","linesearch.hpp bt_search")],
 ["records, trial points and chemical potentials of pairs of runs"])
p("C31","The text log tells what happened",
 "nlcg.out starts with the parameters of the call and then is the story of this run, line by line: each accepted point with its number, energies, slope and chemical potential, each line search with the trial step, its extensions, the predicted minimum or the steps of the backtracking with their energies, the kind of the next direction and how the run ended. NLCG SUCCESS is written if and only if the run converged; a run that gave up names the reason; nothing is told that did not happen and no evaluation is left out. The iterations and the result also appear on the console of the master, and there only.",
 ["histories","inputs"],
 "All problems, parameters, courses of line searches and ways of ending, one and several ranks.",
 "No test reads the text log.",
 ["src/nlcglib.cpp","src/linesearch/linesearch.hpp","src/utils/logger.hpp"],
 [("parameters, iterations, result","nlcglib.cpp nlcg, print_info"),("line search","linesearch.hpp qline, bt_search")],
 ["nlcg.out and console against evaluations, records and result"])
p("C32","A converged run has found the minimum",
 "For problems whose energy is convex in the density matrix and whose smearing has a convex entropy (Fermi-Dirac, Gauss, Gaussian-spline) no evaluated free energy lies below the minimum of the problem, a run that reports convergence ends at that minimum to an accuracy set by its tolerance (as long as the occupations of all bands still respond), and well-conditioned problems do converge.",
 ["inputs","histories"],
 "All convex problems (with and without interaction), parameters, numbers of k-points, spins, bands and ranks.",
 "Tests compare the result of two fixed problems; a minimum is never certified.",
 ["src/nlcglib.cpp","src/mvp2/descent_direction.hpp","src/pseudo_hamiltonian/grad_eta.hpp","src/geodesic.hpp","src/smearing.hpp"],
 [("directions from the complete gradient","descent_direction.hpp, grad_eta.hpp"),("free energy","free_energy.hpp, smearing.hpp"),("stopping","nlcglib.cpp")],
 ["free energies of all evaluations, final state of the host, converged flag, against a duality bound from the final mean field"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
