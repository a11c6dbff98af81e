import json
P=[]
def add(id,title,stmt,over,qtext,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if 'state' in kw: kw['state']=[dict(name=x) for x in kw['state']]
    d['anchors'].update(kw)
    P.append(d)

add("C01","A power flow reported as solved satisfies the network equations",
"Whenever an AC power flow (Newton, either fast-decoupled variant, or Gauss-Seidel) reports success, the returned voltages, generator outputs and branch flows satisfy complex power balance at every connected bus within the configured tolerance, with every load, shunt, scheduled generator output, regulated voltage and reference angle as the caller specified and zero output and flow on out-of-service equipment. This holds whatever the linear solver returned or raised on the way: a run that failed numerically or ran out of iterations is reported as unsuccessful or raises an error, never as a success. When nothing fails, a network with a well-conditioned solution is solved.",
["inputs","fault_sequences","configurations"],
"every valid network (multiple generators per bus, out-of-service equipment, isolated buses, phase shifters, taps, shunts, arbitrary bus numbers), every algorithm and tolerance, and every sequence of linear-solver faults during the iteration",
"Tests solve a few fixed cases with a solver that always works; whether a failing or wrong linear solve can leak into a reported success is a question about every fault sequence on every network.",
["pypower/runpf.py","pypower/newtonpf.py","pypower/fdpf.py","pypower/gausspf.py","pypower/pfsoln.py","pypower/makeYbus.py","pypower/makeSbus.py","pypower/bustypes.py"],
[("convergence decision of Newton iteration","pypower/newtonpf.py:newtonpf"),("convergence decision of decoupled iteration","pypower/fdpf.py:fdpf"),("convergence decision of Gauss-Seidel","pypower/gausspf.py:gausspf"),("solution written back to matrices","pypower/pfsoln.py:pfsoln"),("out-of-service zeroing, external numbering","pypower/runpf.py:runpf")],
state=["bus, gen and branch matrices of the result"],observe_at=["return value of runpf"])

add("C02","A DC power flow reported as solved satisfies the DC network equations",
"Whenever a DC power flow reports success, the returned angles are finite and the lossless branch flows, loads, shunt conductances, phase-shift injections and generator outputs balance at every connected bus, with scheduled generation changed only at the slack generator of each reference bus. If the linear system could not be solved (the solver raised, or returned non-finite values as it does for a singular, islanded network) the run is reported as unsuccessful or raises an error.",
["inputs","fault_sequences"],
"every valid network, including those split into islands by outages, and every failure of the linear solve",
"The tests solve one connected case with a working solver.",
["pypower/runpf.py","pypower/dcpf.py","pypower/makeBdc.py","pypower/makeSbus.py"],
[("DC solve","pypower/dcpf.py:dcpf"),("success flag and slack generation of the DC branch","pypower/runpf.py:runpf"),("DC susceptance and phase shift injections","pypower/makeBdc.py:makeBdc")],
observe_at=["return value of rundcpf and runpf with PF_DC"])

add("C03","Reactive limit enforcement ends with every unit inside its limits or fails",
"With reactive power limit enforcement on, a power flow that reports success leaves every in-service generator within its reactive limits (units released to a limit sit exactly on it), with power balance at every bus, the caller's loads, unit statuses and bus numbering, and the original reference angle intact. The limit-fixing loop terminates whatever the network or the linear solver does in any round; when all units would have to be fixed or an inner solve fails, the run is reported as unsuccessful.",
["inputs","fault_sequences","histories"],
"every network and limit set, every order in which units hit limits across re-solve rounds, and linear-solver faults in any round",
"No test enables enforcement; the behaviour depends on a multi-round history of fixings that a single sample does not cover.",
["pypower/runpf.py","pypower/bustypes.py"],
[("limit-fixing loop","pypower/runpf.py:runpf"),("reference bus re-selection","pypower/bustypes.py:bustypes")],
observe_at=["return value of runpf with ENFORCE_Q_LIMS"])

add("C04","An optimal power flow reported as solved is feasible and truly priced",
"Whenever an optimal power flow (AC or DC) reports success, the returned dispatch satisfies power balance, generator, voltage, branch-flow, angle-difference and user-supplied linear limits within tolerance, the reported objective equals the cost of that dispatch, and prices and limit multipliers satisfy the optimality conditions at every generator. This holds for every pattern of numerical failure inside the solver: a run that failed or ran out of iterations is reported as unsuccessful, never as an optimum.",
["inputs","fault_sequences","configurations"],
"every network, cost shape (polynomial, piecewise linear, dispatchable loads), limit type, solver option setting, and every sequence of linear-solver faults",
"Tests check a handful of published optima with a linear solver that never fails.",
["pypower/opf.py","pypower/opf_setup.py","pypower/opf_execute.py","pypower/pipsopf_solver.py","pypower/dcopf_solver.py","pypower/pips.py","pypower/qps_pips.py","pypower/opf_costfcn.py","pypower/opf_consfcn.py"],
[("interior point termination","pypower/pips.py:pips"),("result write-back AC","pypower/pipsopf_solver.py:pipsopf_solver"),("result write-back DC","pypower/dcopf_solver.py:dcopf_solver"),("success and out-of-service zeroing","pypower/runopf.py, pypower/opf.py")],
observe_at=["return value of runopf, rundcopf"])

add("C05","Unit decommitment only ever returns a solved dispatch no dearer than the start",
"When the unit-decommitment optimal power flow reports success, the returned dispatch is a solved, feasible optimal power flow for the set of units it reports in service, with total cost no higher than the solved all-units-on dispatch it started from, units it shut down reporting zero output, and no unit without a shutdown saving switched off. If any of the many inner optimal power flows fails, its candidate is never adopted, and the search always terminates.",
["inputs","fault_sequences","histories"],
"every network and cost set, and every subset of inner solves that fail at any stage of the shutdown search",
"One test runs the search with inner solves that all succeed; which candidates fail is a fault schedule the tests never vary.",
["pypower/uopf.py","pypower/runuopf.py","pypower/fairmax.py"],
[("shutdown search and acceptance","pypower/uopf.py:uopf"),("random tie-breaking","pypower/fairmax.py:fairmax")],
observe_at=["return value of runuopf"])

add("C06","Every point of a continuation power flow lies on the power-flow solution curve",
"Every point a continuation power flow records as corrected satisfies power balance, within tolerance, for the injections interpolated between base and target case at that point's loading parameter, and the final result's case data matches its last accepted point. A successful run has stopped exactly where its stop rule (nose, full curve or target loading) says. If the base case, a predictor or a corrector fails numerically, no point is recorded for it or after it and the run reports failure or raises; a transfer that cannot stress the network ends at once instead of being traced for ever.",
["inputs","fault_sequences","configurations"],
"every base/target pair, parameterisation, step-size and stop setting, and linear-solver faults at any step",
"The test follows one curve with a working solver.",
["pypower/runcpf.py","pypower/cpf_corrector.py","pypower/cpf_predictor.py","pypower/cpf_p.py","pypower/cpf_callbacks.py"],
[("continuation loop","pypower/runcpf.py:runcpf"),("corrector convergence","pypower/cpf_corrector.py:cpf_corrector"),("recording of points","pypower/cpf_callbacks.py:cpf_default_callback")],
observe_at=["return value of runcpf"])

add("C07","No analysis changes the caller's case or options, even when interrupted",
"Running a power flow, DC power flow, continuation, optimal power flow, DC optimal power flow or unit decommitment leaves the caller's case data and option settings exactly as they were passed. That holds at every instant the run can stop: normal return, reported failure, numerical error, a raising user callback, out-of-memory, or cancellation at any line.",
["crash_points","fault_sequences","inputs"],
"every analysis, every valid case and option set, and every instruction at which the run may be interrupted",
"Tests look at results, not at inputs afterwards, and never interrupt a run; the interruption points number in the thousands per run.",
["pypower/loadcase.py","pypower/opf_args.py","pypower/runpf.py","pypower/runcpf.py","pypower/opf.py","pypower/uopf.py","pypower/ppoption.py"],
[("copy of the caller's case","pypower/loadcase.py:loadcase, pypower/opf_args.py:opf_args2"),("options overlay","pypower/ppoption.py:ppoption")],
state=["caller's case dict and arrays","caller's options dict"],observe_at=["run* entry points"])

add("C08","Concurrent runs in one process do not influence each other",
"Analyses run at the same time on several threads, whether on separate cases or sharing one case and one options setting read-only, each return what they would have returned alone, under every interleaving of their steps and whatever fault or cancellation strikes the others.",
["schedules","fault_sequences","inputs"],
"every interleaving of two or more analyses at the granularity of source lines, every mix of analyses, shared or separate inputs, and faults confined to one of them",
"The suite is single threaded; the number of interleavings is astronomically larger than any sample.",
["pypower/runpf.py","pypower/runopf.py","pypower/loadcase.py","pypower/ppoption.py","pypower/opf_args.py","pypower/pips.py"],
[("absence of shared mutable state","pypower/*.py module globals and default arguments"),("input copying","pypower/loadcase.py:loadcase, pypower/opf_args.py:opf_args2")],
observe_at=["return values of run* entry points"])

add("C09","A result depends only on case and options, not on clock, verbosity or past runs",
"The numbers an analysis returns are determined by its case and options: repeating it, running it after any sequence of other analyses (including failed, faulted, cancelled or output-broken ones), changing output verbosity, or jumping the wall clock forwards or backwards does not change them, and elapsed time is the only clock-dependent field. Tripping and then restoring equipment or loads and re-running reproduces the original result.",
["histories","fault_sequences","configurations"],
"every sequence of analyses in one process, every clock behaviour, every verbosity/output setting",
"Each test runs an analysis once in a mostly fresh process with a well-behaved clock.",
["pypower/runpf.py","pypower/opf.py","pypower/ppoption.py","pypower/printpf.py","pypower/pips.py"],
[("wall clock use","pypower/runpf.py, pypower/opf.py, pypower/uopf.py, pypower/runcpf.py"),("default option tables","pypower/ppoption.py")],
observe_at=["return values of run* entry points"])

add("C10","A case saved without an I/O error loads back as the same case",
"Saving a case to the Python or the MAT format when every disk operation succeeds, then loading it, gives a case equal to the one saved: the same base power, buses, generators, branches, areas, costs and user constraints and cost data to the format's precision (exact for MAT; nine significant digits for Python, four decimals for solved flows and multipliers), over any number of save/load/solve cycles, with no change to the in-memory case apart from its format version. Saving over an existing longer or shorter file leaves only the new case, and loading never returns a case that shares data with another load or with the caller's dict.",
["histories","inputs","configurations"],
"every valid case (numbers of any magnitude, solved or unsolved, with optional sections present or absent) and every history of saves, overwrites and loads on a simulated disk",
"Tests round-trip one or two stock cases once.",
["pypower/savecase.py","pypower/loadcase.py"],
[("Python-format writer","pypower/savecase.py:savecase"),("Python- and MAT-format reader","pypower/loadcase.py:loadcase")],
state=["case file"],observe_at=["loadcase(savecase(x))"])

add("C11","A disk failure while saving or loading a case is never mistaken for success",
"If the disk fails or the process dies at any point while a case is being saved or loaded (open refused, write cut short, disk full, read error, truncated file), the caller gets an exception, a documented error code or, where a file cannot be opened for writing, a message on the error stream; what loads afterwards is either a complete saved case or an error, never a case with silently missing or altered data. A failed save or load leaves the in-memory case usable and no file handle open.",
["crash_points","fault_sequences"],
"every write/read/open/close of a save or load, every fault kind and every truncation point of the file",
"Tests only read and write on a disk that works.",
["pypower/savecase.py","pypower/loadcase.py"],
[("write path","pypower/savecase.py:savecase"),("read path and error codes","pypower/loadcase.py:loadcase")],
state=["case file"],observe_at=["savecase/loadcase results and exceptions on a simulated disk"])

add("C12","Output failures never corrupt results, and reports are appended whole",
"A run given a report file appends one complete report per run, showing that run's status and its bus, branch and generator results, to whatever the file already held and, given a solved-case name, saves the solved case there; a report file or Python solved-case file that cannot be opened is announced on the error stream and the run still returns its results unchanged. A disk or stream failure while output is being written surfaces as an error, leaves earlier reports untouched and no handle open, and the command-line programs exit zero only if the analysis succeeded.",
["fault_sequences","histories","crash_points"],
"every history of runs sharing a report file, every open/write/close fault on report, solved-case file or standard output",
"Tests write no reports and never fail the disk.",
["pypower/runpf.py","pypower/runopf.py","pypower/runuopf.py","pypower/runcpf.py","pypower/main.py","pypower/printpf.py","pypower/savecase.py"],
[("report append","pypower/runpf.py:runpf, pypower/runopf.py:runopf, pypower/runcpf.py:runcpf"),("exit status","pypower/main.py:main"),("report contents","pypower/printpf.py:printpf")],
state=["report file","solved case file","process exit status"],observe_at=["simulated disk after run*"])

add("C13","Internal renumbering is undone exactly, whatever happened in between",
"Converting a case to internal order and back restores the caller's bus numbers, row order, out-of-service rows and all user data exactly, apart from values deliberately changed while in internal order: changes to bus, generator, branch and area rows and to converted data fields land on the rows they belong to (those to cost rows and user constraint matrices are dropped, as documented). This holds for any history of repeated conversions, data-field conversions and interleaved edits. A conversion interrupted by a raising user callback reports the error and leaves the caller's original case intact.",
["histories","inputs","fault_sequences"],
"every numbering, ordering, out-of-service pattern and history of conversions and edits, with callback failures injected",
"Tests convert a single case once each way.",
["pypower/ext2int.py","pypower/int2ext.py","pypower/e2i_field.py","pypower/i2e_field.py","pypower/e2i_data.py","pypower/i2e_data.py"],
[("forward conversion","pypower/ext2int.py:ext2int"),("backward conversion","pypower/int2ext.py:int2ext"),("field conversion","pypower/e2i_field.py, pypower/i2e_field.py, pypower/e2i_data.py, pypower/i2e_data.py")],
observe_at=["ext2int/int2ext results"])

add("C14","Registered user callbacks run once per stage, in order, and fail cleanly",
"After any history of registering and removing callbacks, each analysis stage calls exactly the registered callbacks, each once, in registration order, with the arguments given at registration, and the value each returns is passed to the next and on to the analysis. A callback that raises aborts the run with that error, later callbacks of the stage are not called, and the caller's case with its registrations is unchanged and can be run again.",
["histories","fault_sequences"],
"every register/remove history over all stages and every callback failing at every invocation",
"Tests register one fixed set of callbacks that never fail.",
["pypower/add_userfcn.py","pypower/remove_userfcn.py","pypower/run_userfcn.py","pypower/opf.py","pypower/ext2int.py","pypower/int2ext.py"],
[("registration list","pypower/add_userfcn.py, pypower/remove_userfcn.py"),("dispatch","pypower/run_userfcn.py")],
observe_at=["order of callback invocations and results of runopf"])

add("C15","The optimization model answers like a ledger of what was added to it",
"After any history of adding variables, linear constraints, nonlinear constraints and user costs to an optimization model, interleaved with queries, the starting values, bounds, assembled constraint matrix, index ranges, counts and user cost equal those of a plain ledger of the additions. Queries, even interrupted ones, never change later answers, and a rejected addition (duplicate name, wrong size, unknown variable set) leaves the model as it was.",
["histories","fault_sequences"],
"every sequence of additions, rejected additions and queries",
"Tests build the one model of a standard OPF.",
["pypower/opf_model.py"],
[("variable, constraint and cost sets","pypower/opf_model.py:opf_model")],
state=["opf_model bookkeeping"],observe_at=["opf_model methods"])

add("C16","The optimizer claims convergence only where the optimality conditions hold",
"Whenever the interior point solver, used directly or for quadratic and linear programs, reports convergence, the returned point satisfies the constraints and bounds, the objective value matches the point, and the multipliers satisfy the optimality conditions within tolerance. Failing or wrong linear solves, non-finite or raising user functions and iteration limits lead to an error or a reported failure within the iteration limit, never to a false optimum. Solving leaves the caller's problem data and options as they were, and solving the same problem again gives the same answer.",
["inputs","fault_sequences","configurations"],
"every problem shape (free, bounded, equality, inequality, absent parts), option setting and sequence of solver or callback faults",
"Tests solve eight textbook problems with well-behaved functions.",
["pypower/pips.py","pypower/qps_pips.py","pypower/qps_pypower.py","pypower/pipsver.py"],
[("termination tests","pypower/pips.py:pips"),("quadratic program front end","pypower/qps_pips.py:qps_pips")],
observe_at=["return value of pips, qps_pips, qps_pypower"])

add("C17","Optional OPF features are honoured when on and leave no trace when off",
"With fixed zonal reserves, interface flow limits or DC lines switched on, a successful optimal power flow satisfies the added requirements (zone requirements and unit reserve limits; interface flow limits; line losses, flow limits and reactive limits), is optimal with the added costs counted, and reports flows, reserves and prices that agree with the dispatch, in its returned tables and its printed report; a power flow with DC lines is one in which each line is a fixed withdrawal and injection at voltage-regulated terminals. Switching a feature on and off in any order, any number of times, restores the behaviour of a case on which it was never used; saving a case keeps the data of the features that are on. A run that succeeds, fails or is interrupted leaves the caller's feature data and switches unchanged.",
["histories","inputs","fault_sequences"],
"every on/off history of the three features and every case and feature data set, with solver faults and interruptions",
"Tests turn each feature on once for one case.",
["pypower/toggle_reserves.py","pypower/toggle_iflims.py","pypower/toggle_dcline.py"],
[("reserve constraints","pypower/toggle_reserves.py"),("interface limits","pypower/toggle_iflims.py"),("DC lines","pypower/toggle_dcline.py")],
observe_at=["results of runopf/rundcopf/runpf with features on"])

add("C18","Every analysis ends within its configured iteration limits",
"Every power flow, continuation, optimal power flow, decommitment search and interior point run ends, whatever the numbers it meets: each solve performs no more iterations than the configured limit and the whole run finishes within a bound fixed by the options and case size. This holds under every sequence of linear-solver faults and extreme input values; for a continuation, whose number of steps is not limited by an option, every step stays within the corrector's limit and the trace ends once faults stop. A power flow solver called directly reports the iterations it performed, claims convergence exactly when the mismatch is within tolerance, and leaves its arguments unchanged.",
["fault_sequences","inputs","configurations"],
"every case, option setting and infinite as well as finite fault sequence",
"Tests only exercise converging runs; termination under perpetual faults is a liveness claim.",
["pypower/newtonpf.py","pypower/fdpf.py","pypower/gausspf.py","pypower/pips.py","pypower/runcpf.py","pypower/uopf.py","pypower/runpf.py"],
[("iteration caps","pypower/newtonpf.py, pypower/fdpf.py, pypower/gausspf.py, pypower/pips.py, pypower/cpf_corrector.py"),("outer loops","pypower/runpf.py, pypower/runcpf.py, pypower/uopf.py")],
observe_at=["count of linear solves and loop iterations per run"])

# pure functions: not applicable to simulation
add("N01","Derivative functions equal the derivatives of the functions they differentiate",
"The first and second derivatives of power injections, branch flows and currents, and of OPF costs and constraints, equal the true derivatives at every operating point.",
["inputs"],"every network and operating point","Tests compare with finite differences at one point of one case.",
["pypower/dSbus_dV.py","pypower/dSbr_dV.py","pypower/d2Sbus_dV2.py","pypower/opf_hessfcn.py"],[("derivatives","pypower/d*_dV*.py")])
add("N02","Sensitivity factors reproduce DC flow changes",
"Power transfer and line outage distribution factors predict exactly the DC flows after any injection change or single outage.",
["inputs"],"every connected network, slack choice and outage","Tests use one case.",
["pypower/makePTDF.py","pypower/makeLODF.py"],[("PTDF","pypower/makePTDF.py"),("LODF","pypower/makeLODF.py")])
add("N03","Cost evaluation and cost conversions agree with the cost curve",
"Evaluating, shifting, scaling, differentiating or converting a polynomial or piecewise-linear cost gives the value of the documented curve.",
["inputs"],"every cost row and output level","Tests evaluate a few rows.",
["pypower/totcost.py","pypower/modcost.py","pypower/polycost.py","pypower/poly2pwl.py","pypower/pqcost.py"],[("costs","pypower/totcost.py")])
add("N04","Load totals and load scaling agree",
"Scaling loads by zone, quantity or factor changes exactly the selected fixed and dispatchable loads by exactly the requested amount, and total load reports it.",
["inputs"],"every case, zone map and scaling option","Tests scale one case.",
["pypower/total_load.py","pypower/scale_load.py"],[("scaling","pypower/scale_load.py"),("totals","pypower/total_load.py")])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
