#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it by hand after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LM = "sawatabi/model/logical_model.py"
PM = "sawatabi/model/physical_model.py"
CON = ["sawatabi/model/constraint/abstract_constraint.py", "sawatabi/model/constraint/n_hot_constraint.py", "sawatabi/model/constraint/zero_or_one_hot_constraint.py", "sawatabi/model/constraint/equality_constraint.py"]
BASE = "sawatabi/base_mixin.py"
SS, LS, OS, DS, AS = (f"sawatabi/solver/{x}_solver.py" for x in ("sawatabi", "local", "optigan", "dwave", "abstract"))
AA = "sawatabi/algorithm/abstract_algorithm.py"
WIN, DEL, INC, PAR, ATT, IO = (f"sawatabi/algorithm/{x}.py" for x in ("window", "delta", "incremental", "partial", "attenuation", "io"))
UT = "sawatabi/utils/"

HIST = "The tests check one or two short fixed sequences per operation with hand-written numbers; this quantifies over all histories, whose interactions (order, repetition, removal in between, several arrays, scales) they do not reach."
STREAM = "The tests run one fixed event sequence per algorithm and compare the printed text; this quantifies over every sequence of event times (gaps, ties, disorder, before the epoch), window geometry and failure point."

P = [
 dict(id="C01", title="Compiled energy equals the sum of the live interactions",
  statement="After any sequence of declaring and appending variables, adding, updating and removing interactions and setting the offset, the compiled model's energy of every assignment is the offset minus the sum over the interactions present of coefficient times scale times the product of the variables. Interactions on the same variables under different names add up, pairs are unordered, an update changes only what was given, and removed interactions contribute nothing, whenever and however often the model was compiled before.",
  over=["histories", "inputs"], text="every history of variable declarations, appends, adds, updates, removals, offsets and compiles on Ising and QUBO models, with any names, coefficients and scales", why=HIST,
  files=[LM, PM], mech=[("add/update/remove_interaction and the interaction arrays", LM + ": add_interaction, update_interaction, remove_interaction"), ("accumulation of effective coefficients at compile time", LM + ": to_physical"), ("sign convention of the exports", PM + ": to_bqm, to_polynomial")], at=["PhysicalModel.to_bqm", "PhysicalModel.to_polynomial"]),
 dict(id="C02", title="The interaction store answers queries exactly as it was last written",
  statement="At any point of a history every query (the interactions matching a condition in either format, the interactions of a variable, the attributes of an interaction) returns exactly the interactions present with the names, variables, coefficients, scales, flags, attributes and timestamps last given to them. Values that were not given keep their previous value or their default, the default timestamp is the time of the call, a removed interaction stays listed as removed until the model is compiled, and an attribute given to one interaction is never seen on another.",
  over=["histories", "inputs"], text="every history of adds, updates (by target, reversed target or name, including updates of interactions that do not exist yet), removals and compiles with attributes and timestamps, queried after every step", why="The tests query after one or two operations; attribute columns that appear later, updates that fall back to an add, and removal plus re-add are reached only in a few fixed combinations.",
  files=[LM], mech=[("column arrays kept in step with each other", LM + ": add_interaction, update_interaction"), ("lazy data frame for queries", LM + ": select_interaction, _update_interactions_dataframe_from_arrays"), ("attribute lookup", LM + ": get_attributes, get_attribute, select_interactions_by_variable")], at=["LogicalModel.select_interaction", "LogicalModel.get_attributes"]),
 dict(id="C03", title="An invalid request is rejected and changes nothing",
  statement="A request that is invalid in the model's current state (a duplicate or removed or unknown name, a self interaction, wrong argument types or values, a value outside the model's domain, a merge with other dimensions or an already used constraint label, an edit of a constraint with absent variables, an import of an expression with a term that cannot be added) raises the kind of error documented for it: ValueError, TypeError, KeyError or IndexError. It leaves the model, its constraints and every other model involved exactly as they were, and the history can continue.",
  over=["histories", "inputs", "fault_sequences"], text="every history with invalid requests of about sixty kinds interleaved at any point", why="The tests check that an error is raised on a nearly empty model, not that the state is untouched, nor rejections that depend on the history.",
  files=[LM, BASE] + CON, mech=[("argument checks before any change", BASE + ": _check_argument_type*"), ("name and target validation", LM + ": _get_interaction_info_from_target, _get_internal_name_from_target_and_name"), ("merge checks before merging", LM + ": merge"), ("constraint argument checks", CON[0] + ": _check_variables_and_to_set")], at=["every public method of LogicalModel and the constraints"]),
 dict(id="C04", title="Compiling has no side effects and is repeatable",
  statement="Compiling a logical model changes nothing observable of it except that interactions already removed disappear for good and nothing counts as changed any more; in particular constraints never leave interactions, variables or names behind. Compiling again at once gives an equal physical model, a compile that fails leaves the model as it was and usable, and physical models made earlier never change.",
  over=["histories", "fault_sequences"], text="every history of all model operations with compiles, and failing compiles (missing placeholder values), at any point", why="The tests compile a model once, mostly without looking at the logical model afterwards, and never make a compile fail half-way.",
  files=[LM, PM], mech=[("temporary merge of constraints and its rollback", LM + ": to_physical, _resolve_to_physical"), ("flag and removal handling", LM + ": to_physical")], at=["LogicalModel.to_physical"]),
 dict(id="C05", title="Conversion between Ising and QUBO preserves the energy function",
  statement="Converting a model between Ising and QUBO, any number of times and at any point of a history, keeps the energy of every assignment under s = 2x - 1 up to one constant that is the same for all assignments, including scaled interactions, removed interactions, fixed variables and constraints. Converting to the type the model already has changes nothing, and the variables afterwards are of the new kind.",
  over=["histories", "inputs"], text="every history of adds, updates, removals, constraints and compiles interleaved with conversions in both directions", why="The tests convert a few hand-made models once, with all scales 1, and compare coefficients copied from the implementation.",
  files=[LM], mech=[("term-wise rewriting of interactions", LM + ": to_ising, to_qubo"), ("conversion of variable objects", LM + ": _update_variables_type")], at=["LogicalModel.to_ising", "LogicalModel.to_qubo"]),
 dict(id="C06", title="Merging two models adds their energies",
  statement="Merging a model into another gives a model whose energy is the sum of the two (the argument converted to the receiver's type where necessary, up to the conversion constant), whose variable arrays are large enough for both, with all constraints, deleted and fixed variables, and with every interaction keeping its coefficient, scale and attributes. Interactions with equal names are kept apart under unique names, all other names survive, and the argument stays exactly as it was.",
  over=["histories", "programs"], text="every pair of model histories (same or other type, shared arrays of other sizes, shared names, different attributes, constraints), merged any number of times, and every continuation", why="The tests merge two small fixed models once; they do not compare the argument before and after, nor merge repeatedly, nor with attributes on only one side across types.",
  files=[LM], mech=[("concatenation of columns with renaming of duplicates", LM + ": merge"), ("growing shared variable arrays", LM + ": merge, append")], at=["LogicalModel.merge"]),
 dict(id="C07", title="Fixing a variable substitutes its value into the energy",
  statement="Fixing a variable to an admissible value makes the energy of every assignment of the remaining variables equal to the energy before with that value substituted, whatever interactions (scaled, removed, updated, named) and constraints involve it, also when several variables are fixed in any order. The fixed variable no longer occurs in the compiled model and is reported as fixed, and the sizes reported add up.",
  over=["histories", "inputs"], text="every history with variables fixed at any points among adds, updates, removals, compiles, conversions and constraints", why="The tests fix one variable of a fixed model; adjacent fixed variables, fixing after a removal or between compiles, and constraints over fixed variables are not reached.",
  files=[LM], mech=[("rewriting interactions of the fixed variable", LM + ": fix_variable"), ("fixed variables in constraints at compile time", LM + ": to_physical, _resolve_to_physical")], at=["LogicalModel.fix_variable", "LogicalModel.get_fixed_array"]),
 dict(id="C08", title="Deleting a variable removes it and nothing else",
  statement="Deleting a variable removes every interaction with it and its membership in every constraint; it does not occur in any later compiled model, and every other term of the energy, every other variable and constraint stays as it was. It is reported as deleted, and the sizes reported add up.",
  over=["histories"], text="every history with variables deleted at any points, with all kinds of constraints containing them or not, conversions and compiles", why="The tests delete from one fixed model with one kind of constraint.",
  files=[LM] + CON, mech=[("removal of interactions by variable", LM + ": delete_variable, select_interactions_by_variable"), ("removal from constraints", LM + ": delete_variable")], at=["LogicalModel.delete_variable", "LogicalModel.get_deleted_array"]),
 dict(id="C09", title="Constraints add exactly their documented penalty",
  statement="With N-hot, zero-or-one-hot and equality constraints in a model, the compiled energy of every assignment is the energy without them plus strength times (number of ones minus N) squared without its constant, plus strength times k(k-1) for k ones, and plus strength times the squared difference of the two counts, respectively, up to the conversion constant in an Ising model. Adding, removing and replacing constraints and their variables through any history takes effect accordingly; duplicate variables count once.",
  over=["histories", "inputs"], text="every set of constraints with any variables, N and strength, edited by any history, and every assignment of the variables", why="The tests compare the generated interactions of one constraint of four variables with copied numbers; edits and several constraints over shared variables are not evaluated.",
  files=CON + [LM], mech=[("penalty expansion", "sawatabi/model/constraint/*.py: to_model"), ("merging penalties at compile time", LM + ": _resolve_to_physical"), ("variable sets", "sawatabi/model/constraint/*.py: add_variable, remove_variable")], at=["LogicalModel.to_physical", "constraint to_model"]),
 dict(id="C10", title="An imported PyQUBO expression keeps its energy",
  statement="Importing a PyQUBO expression or compiled model of degree at most two into a QUBO or Ising model makes the compiled energy equal to the value of the expression on every assignment, plus what the model already contained, with the variables registered under their names and shapes. Importing does not disturb what was in the model before, its offset included.",
  over=["programs", "inputs"], text="every quadratic expression over arrays of one to three dimensions, as an expression or compiled, into models that may already hold terms", why="The tests import two expressions and compare the stored coefficients.",
  files=[LM], mech=[("translation of the compiled QUBO or Ising coefficients", LM + ": from_pyqubo")], at=["LogicalModel.from_pyqubo"]),
 dict(id="C11", title="Placeholders behave as the numbers they are given",
  statement="A model whose coefficients, scales or offset are placeholder expressions compiles, for every assignment of values, to the model built with those numbers; compiling again with other values gives the result for the other values. This also holds after updates, removals, fixes, deletions, conversions, merges and with constraints.",
  over=["histories", "inputs"], text="every history with placeholder expressions in coefficients, scales and offsets and every pair of value assignments", why="The tests compile one placeholder model with one value.",
  files=[LM], mech=[("resolution of expressions at compile time", LM + ": to_physical, _resolve_to_physical"), ("acceptance of expressions", LM + ": add_interaction, update_interaction, offset")], at=["LogicalModel.to_physical(placeholder=...)"]),
 dict(id="C12", title="Indices and exports of a compiled model agree",
  statement="A compiled model numbers exactly the variables that occur in it from zero without gaps, in the order of declaration, with its two index maps inverse to each other. Its polynomial and its BQM exports (with either sign) describe the same energy over these indices, for arrays of any number of dimensions and any sizes.",
  over=["histories", "inputs"], text="every model of several arrays of one to three dimensions (also more than ten elements), grown, sparse, with deleted and fixed variables", why="The tests check the maps of two small models with every variable used.",
  files=[LM, PM], mech=[("index assignment", LM + ": to_physical, _resolve_to_physical"), ("exports", PM + ": to_bqm, to_polynomial")], at=["PhysicalModel.to_polynomial", "PhysicalModel.to_bqm"]),
 dict(id="C13", title="Annealing results are true and complete",
  statement="For every model and every combination of options, the built-in annealer returns as many reads as asked, each an assignment of exactly the model's variables within its domain, reported with the energy the model assigns to it, offset included. Each read starts from its given initial state, and the recorded histories have one entry per sweep, the energies among them being the model's energies of the states at the beginning of the sweeps. Asking for statistics does not change the result, and equal samples are reported once with their number of occurrences.",
  over=["inputs", "configurations"], text="every model of both types with offsets and unused variables, and every combination of reads, sweeps, temperatures, cooling rates, pick-up modes, initial states, reverse schedules and seeds", why="The tests solve a few fixed models whose ground state is found easily and check only the best sample.",
  files=[SS, AS], mech=[("incremental energy differences", SS + ": annealing"), ("energies and statistics", SS + ": solve")], at=["SawatabiSolver.solve", "the sampleset and its info"]),
 dict(id="C14", title="A seeded solve is a pure function of its arguments",
  statement="Solving with the same seed, zero included, gives the same samples, energies, order and statistics whatever was solved before with the same or another solver instance and whatever the global random state is. Solving changes neither the model, the arguments given nor the global random state, and a solver keeps no trace of earlier runs in a later result.",
  over=["histories", "inputs"], text="every problem and seed, repeated on new and reused solvers with other problems and random-state disturbances in between", why="The tests call each solver once per test with one seed.",
  files=[SS, LS], mech=[("generator created from the seed per call", SS + ": solve"), ("per-call state", SS + ": solve")], at=["SawatabiSolver.solve"]),
 dict(id="C15", title="The annealer follows Metropolis dynamics on its schedule",
  statement="The temperature sequence is the initial temperature times the cooling rate to the power of the sweep, and in reverse annealing the documented up-and-down schedule. A flip that does not raise the energy is always accepted and one that raises it is accepted with the Boltzmann probability of the current temperature: at vanishing temperature trajectories descend deterministically, at unbounded temperature every proposal is accepted, and at a fixed temperature with random order the distribution approaches the exact Boltzmann distribution.",
  over=["inputs", "configurations"], text="every model and schedule, at vanishing, unbounded and fixed temperatures, in sequential and random order", why="The tests only see whether an easy ground state is reached at the end.",
  files=[SS], mech=[("acceptance rule", SS + ": annealing, is_acceptable"), ("schedules", SS + ": solve")], at=["SawatabiSolver.solve"]),
 dict(id="C16", title="The local solver is exhaustive in exact mode, truthful otherwise",
  statement="In exact mode the local solver reports every assignment of the model's variables exactly once, each with the model's energy, so the best sample is a ground state. In annealing mode it returns the number of reads asked, each with its true energy, identically for identical seeds and whatever was solved before, the options being handed to the annealer unchanged; the model is not changed.",
  over=["inputs", "configurations"], text="every model of both types with offsets, and every combination of reads, sweeps and seeds", why="The tests look at the best sample of a few fixed models.",
  files=[LS, AS], mech=[("sampler choice and parameters", LS + ": solve"), ("conversion of the model", PM + ": to_bqm")], at=["LocalSolver.solve"]),
 dict(id="C17", title="The Optigan client sends the right problem and reads answers right",
  statement="For every QUBO model and option set, the request sent to the Optigan service carries the given credentials, the options (compressed or not, as asked) and a polynomial that is the model's energy without its offset on every assignment. Every solution of the answer is returned under the right variable names with its energy, an answer with an error status raises an error naming the status, and credentials come from the arguments or else from the given or the default configuration file.",
  over=["inputs", "configurations", "fault_sequences"], text="every QUBO model, option set, credentials source, service answer and error status", why="The tests mock one answer for one model.",
  files=[OS, PM], mech=[("request building", OS + ": solve"), ("decoding of spins by index", OS + ": solve"), ("configuration file", OS + ": __init__")], at=["the HTTP request", "OptiganSolver.solve"]),
 dict(id="C18", title="The D-Wave client hands over the right problem",
  statement="For every model, the problem handed to the vendor's sampler is over the model's variables and has the model's energy on every assignment, offset included. Credentials, the chosen machine, embedding parameters and solve options arrive unchanged, and the vendor's answer is returned unchanged, also on repeated solves.",
  over=["inputs", "configurations"], text="every model of both types, option set and credentials, with the vendor's classes replaced by recording stand-ins", why="The tests mock the sampler for one model and check the returned object.",
  files=[DS, PM], mech=[("problem conversion and sampler call", DS + ": solve"), ("credentials", DS + ": __init__")], at=["the vendor sampler's arguments"]),
 dict(id="C19", title="Solvers refuse what they cannot solve, before doing anything",
  statement="Every solver refuses a logical model, something that is no model, a model without interactions or whose terms all cancel, an Ising model where only QUBO is supported, a wrong number of initial states, an unknown pick-up mode and incomplete reverse options with the documented error. It does so without contacting any service, and the same solver instance still solves a valid model afterwards.",
  over=["inputs", "configurations", "fault_sequences"], text="every kind of invalid request to each of the solvers, followed by a valid one", why="The tests check single refusals, not that nothing was sent and that the solver stays usable.",
  files=[AS, SS, LS, OS, DS], mech=[("argument and empty-model checks", AS + ", " + SS + ", " + LS + ", " + OS + ", " + DS + ": solve")], at=["solve of every solver"]),
 dict(id="C20", title="Every window is handled once with exactly its events",
  statement="For all five stream algorithms, each window that has events leads to exactly one call of the mapping function in order, whose elements are exactly the events of that window (for the accumulating algorithms: of all windows so far; for the partial one: its window's events plus the earlier ones its filter keeps), without loss or duplication, in time order, each with its time and arrival number. This holds for any event times, values, window sizes and periods, on bounded and streaming input, and with reassigned timestamps.",
  over=["inputs", "schedules", "configurations"], text="every event sequence, window geometry, algorithm and watermark progress", why=STREAM,
  files=[AA, WIN, DEL, INC, PAR, ATT], mech=[("windowing and grouping", WIN + ", " + DEL + ", " + INC + ", " + PAR + ", " + ATT + ": create_pipeline"), ("index and timestamp tagging", AA + ": IndexAssigningStatefulDoFn, WithTimestampTupleFn"), ("per-window processing", AA + ": SolveDoFn")], at=["arguments of the mapping function"]),
 dict(id="C21", title="Incoming and outgoing events are the exact difference of windows",
  statement="At every processed window, the incoming list is exactly the events now present that were not present at the previously processed window, and the outgoing list exactly those present then and no longer now, each in time order and without duplicates. The mapping, solving and unmapping functions see the same three lists, also after failures of the user's functions.",
  over=["inputs", "schedules", "fault_sequences"], text="every event sequence, window geometry and algorithm, with failures of the user functions at any step", why=STREAM,
  files=[AA, PAR, DEL, INC], mech=[("difference of consecutive element lists", AA + ": SolveDoFn.process, resolve_outgoing/resolve_incoming"), ("stored elements", AA + ": SolveDoFn.PREV_ELEMENTS")], at=["arguments of the user functions"]),
 dict(id="C22", title="State is threaded between windows and failures stay isolated",
  statement="Each window's functions receive the model last returned by the mapping function and the result last returned by the solving function (at first an empty model of the configured type and no result), and the solver that was configured. A failure of the mapping, solving or unmapping function yields one output that names the stage and the error, runs no later stage for that window, and disturbs no other window; a window older than one already processed yields only a message naming both times.",
  over=["schedules", "fault_sequences", "inputs"], text="every event sequence, algorithm and arrival order of windows, with failures of any stage at any steps, models changed in place or replaced", why="The tests make one stage fail once in a one-window pipeline; they do not look at the arguments of the next window.",
  files=[AA], mech=[("state cells for model, result, elements and timestamp", AA + ": SolveDoFn.process"), ("error handling per stage", AA + ": SolveDoFn.process")], at=["arguments of the user functions", "the pipeline output"]),
 dict(id="C23", title="Attenuation scales interactions linearly by age",
  statement="With the attenuation algorithm, at each solve the scale of every interaction present is the linear function of its reference time (its timestamp or a chosen attribute) that is the minimum scale at the oldest and one at the newest interaction, and the solved energy uses coefficient times scale. Removed interactions do not count, and nothing is scaled when all times are equal.",
  over=["inputs", "histories", "configurations"], text="every event sequence and model maintained over windows (interactions added, removed, variables deleted), reference key and minimum scale", why="The tests run one sequence and check the printed solutions.",
  files=[ATT, AA], mech=[("scale computation before solving", AA + ": SolveDoFn.process")], at=["the model given to the solving function"]),
 dict(id="C24", title="One formatted output per window",
  statement="Every window with events yields exactly one output, which is the prefix, the window's time in brackets if asked for, the unmapped result and the suffix, as configured. Without formatting options the result comes out unchanged, of whatever type, and error messages are formatted in the same way.",
  over=["inputs", "configurations", "fault_sequences"], text="every event sequence and algorithm with any combination of output options, result types and failures", why=STREAM,
  files=[AA, WIN, DEL, INC, PAR, ATT], mech=[("output formatting", AA + ": _create_pipeline, WithTimestampStrFn")], at=["the pipeline output"]),
 dict(id="C25", title="Readers and writers transfer every element once, unchanged",
  statement="The text, JSON and number readers yield one element per line or message, in order within a file: the text itself, the decoded JSON document, or the integer of a line that consists only of decimal digits (every other line is skipped). The writers put every element out exactly once as its text, and the Pub/Sub variants decode, encode and address messages as configured.",
  over=["inputs", "configurations"], text="every file or message sequence (empty lines, signs, spaces, non-ASCII, several files, missing final newline) and every element sequence", why="The tests read one good file per reader.",
  files=[IO], mech=[("reading and parsing", IO + ": read_*_as_*"), ("writing", IO + ": write_*")], at=["elements of the pipeline", "files written"]),
 dict(id="C26", title="Number partitioning by dynamic programming is exact and complete",
  statement="For every list of positive integers the dynamic-programming solver reports correctly whether a perfect partition exists and returns one optimal partition (the smaller side and its complement as positions in the list) or, when asked to enumerate, every optimal smaller side exactly once with its complement. The given list is not changed.",
  over=["inputs"], text="every list of positive integers up to the sizes explored, with repeated values, empty and single lists", why="The tests solve two lists.",
  files=[UT + "npp.py"], mech=[("dynamic-programming table and backtracking", UT + "npp.py: solve_npp_with_dp")], at=["solve_npp_with_dp"]),
 dict(id="C27", title="Copies of a model are complete and independent",
  statement="A deep copy or a pickled and unpickled logical model behaves as its original did at that moment under every continuation, and neither original nor copies notice what is done to the others. A model's empty counterpart has its type and nothing else, and copied physical models equal their originals.",
  over=["histories"], text="every history, copied at any point, with different interleaved continuations of the original and the copies", why="The stream algorithms rely on this between windows, but no test copies a model and continues both.",
  files=[LM, PM, "sawatabi/model/abstract_model.py"], mech=[("plain state without shared references", LM + ": __init__ (default copying)"), ("empty counterpart", LM + ": empty")], at=["copy.deepcopy", "pickle", "LogicalModel.empty"]),
 dict(id="C28", title="Utilities compute what they say",
  statement="The elementwise sum, difference, maximum and minimum of tuples or lists of equal length are those of plain arithmetic, keep the type, and refuse mixed or other types. The profiling decorator calls the function once with the given arguments, hands back its result together with its name and the true duration, and lets its exceptions through; the clock functions give the current time in their unit, as a number or an integer.",
  over=["inputs", "programs"], text="every pair of sequences, every decorated call and every moment", why="The tests use two fixed pairs and one decorated function.",
  files=[UT + "functions.py", UT + "profile.py", UT + "time.py"], mech=[("elementwise functions", UT + "functions.py"), ("decorator", UT + "profile.py"), ("clock", UT + "time.py")], at=["sawatabi.utils"]),
 dict(id="C29", title="A model maintained from differences equals one built from scratch",
  statement="Over any event sequence and any of the windowing algorithms, a model that the mapping function keeps up to date using only the incoming and outgoing events compiles at every window to the same energy as a model built from scratch from that window's elements. The exact solver's answer on it is a ground state, and the unmapped output belongs to that window.",
  over=["histories", "inputs", "schedules"], text="every event sequence, window geometry, algorithm and model type, with events leaving by deleting variables or removing interactions", why="This is the purpose of the library, and no test compares the maintained model with a rebuilt one.",
  files=[AA, LM, PM, LS], mech=[("difference computation and state", AA + ": SolveDoFn.process"), ("incremental model updates", LM + ": append, add_interaction, remove_interaction, delete_variable, to_physical")], at=["the model given to the solving function", "the pipeline output"]),
 dict(id="C30", title="Equality of models and constraints means equal content; printing is safe",
  statement="Two models of the same type given the same history with explicit timestamps are equal, as are their constraints and compiled models, and a difference in any type, variable, interaction (coefficient, scale, name, attribute, timestamp, state), offset, deleted or fixed variable or constraint makes them unequal; comparison is symmetric and the inequality operator is its negation, also against other objects. Printing a model, compiled model or constraint never fails, changes nothing, and shows its type and variables or label.",
  over=["histories", "inputs"], text="every pair of histories that are the same or differ in one value, one operation or the model type", why="The tests compare empty or one-element models.",
  files=[LM, PM] + CON + ["sawatabi/model/abstract_model.py", BASE], mech=[("comparison", LM + ", " + PM + ", constraints: __eq__, __ne__"), ("printing", LM + ", " + PM + ", constraints: __repr__, __str__")], at=["==, !=, str, repr"]),
]

TECH = {
 "C03": "property-based testing: generated histories with injected invalid requests, state-unchanged oracle",
 "C10": "property-based testing: generated expressions, exhaustive assignment oracle",
 "C13": "property-based testing: generated models and options, re-evaluation oracle",
 "C14": "property-based testing: metamorphic repetition of generated solves",
 "C15": "property-based testing: reference dynamics and exact Boltzmann means",
 "C16": "property-based testing: exhaustive enumeration oracle on generated models",
 "C17": "property-based testing: generated problems against a loopback stand-in service",
 "C18": "property-based testing: generated problems against recording vendor stand-ins",
 "C19": "property-based testing: generated invalid requests, then a valid one",
 "C25": "property-based testing: generated files and messages against a plain reading",
 "C26": "property-based testing: generated lists against subset enumeration",
 "C27": "property-based testing: model-based histories with interleaved copies",
 "C28": "property-based testing: generated calls against plain Python",
 "C30": "property-based testing: generated pairs of histories, equality decided by the reference state",
}
for _c in ("C20", "C21", "C22", "C23", "C24", "C29"):
    TECH[_c] = "property-based testing: generated event histories and faults through whole pipelines, reference windows"

NOTE = {
 "model": "Random search with shrinking over operation histories on the real classes, compared with an independent reference model (polynomial arithmetic); no proof. Trusts Hypothesis, dimod and PyQUBO objects as containers. Bounds: up to about 9 variables and 20 operations per history.",
 "solver": "Random search over generated models and options on the real solvers; energies re-evaluated independently. Services and vendor classes are stand-ins; models of up to 13 variables.",
 "stream": "Random search over event sequences through real Beam pipelines on the local runners, bounded and streaming; the reference computes windows from the definition. Distributed runners and late data are not explored.",
 "misc": "Random search over generated inputs with an exact oracle on every case; sizes are small.",
}
KIND = {}
for p in P:
    n = int(p["id"][1:])
    KIND[p["id"]] = "solver" if 13 <= n <= 19 else "stream" if n in (20, 21, 22, 23, 24, 29) else "misc" if n in (25, 26, 28) else "model"

NOT_APPLICABLE = []

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        doc = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["at"], "hook_needed": None},
        }
        f.write(json.dumps(doc) + "\n")

man = {
    "version": 1,
    "setup_cmd": "./run.py --selftest",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./run.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.py {p['id']}",
            "technique": TECH.get(p["id"], "property-based testing: model-based operation histories against a reference model"),
            "level": "exploration",
            "level_note": NOTE[KIND[p["id"]]],
        }
        for p in P
    ],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks. A violation is shrunk and saved in replays/<property>.json; ./run.py <property> --replay FILE runs it again.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
