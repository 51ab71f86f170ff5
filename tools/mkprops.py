#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
OPT = "mealpy/optimizer.py"; SP = "mealpy/utils/space.py"; PR = "mealpy/utils/problem.py"
ALGOS = ["mealpy/bio_based", "mealpy/evolutionary_based", "mealpy/human_based", "mealpy/math_based", "mealpy/physics_based",
         "mealpy/swarm_based", "mealpy/system_based", "mealpy/music_based", "mealpy/game_based", "mealpy/sota_based"]

p("C01", "Every evaluated, kept and returned position lies inside the search domain",
  "During a search by any of the library's optimizers, in any execution mode and for minimisation or maximisation, every position handed to the user's objective function has the problem's dimension and lies inside the variables' bounds. The same holds for every member of the population at the end of every epoch and for the returned best solution.",
  ["inputs", "histories", "configurations"], "every optimizer class, every mode, every problem (bounds, kinds of variables), every seed and so every random draw, every epoch",
  "Tests run each optimizer for a few epochs on one small problem and check only the type/length or the bounds of the single returned solution; a rarely taken branch that skips the repair step is never sampled.",
  [OPT, SP, PR] + ALGOS,
  [("correct_solution = amend_solution then Problem.correct_solution", OPT), ("generate_solution for fresh positions", PR),
   ("every evolve() repairs a new position before building an agent from it", "mealpy/*_based/*.py")],
  [("pop", "current population", OPT), ("g_best", "best agent so far", OPT)], ["arguments of obj_func", "optimizer.pop at end of epoch", "return value of solve"])
p("C02", "Each agent carries the objective value of its own position",
  "At the end of every epoch of a search by any optimizer, in any execution mode, each agent in the population and the best agent carry the objective values and fitness that the user's objective function yields on exactly that agent's position. The returned best agent's reported fitness is therefore reproducible by evaluating its reported solution.",
  ["inputs", "histories", "configurations", "schedules"], "every optimizer class, every mode, every problem with a deterministic objective, every seed, every epoch",
  "Tests never re-evaluate what is reported; a stale target shows only when a particular branch keeps an old target for a moved agent.",
  [OPT, "mealpy/utils/agent.py"] + ALGOS,
  [("get_target / update_target_for_population", OPT), ("Agent.copy, Agent.update", "mealpy/utils/agent.py"), ("evolve() of each optimizer", "mealpy/*_based/*.py")],
  [("agent.solution / agent.target", "position and its evaluation", "mealpy/utils/agent.py")], ["optimizer.pop at end of epoch", "return value of solve"])
p("C03", "The reported best is at least as good as every recorded population, never worse",
  "For any optimizer, mode and optimisation direction, the best-so-far fitness recorded for an epoch is never worse than the one recorded for the previous epoch, and never worse than any member of the population at the end of that epoch (nor of the initial population). The agent returned by the search has exactly the last recorded best-so-far fitness.",
  ["inputs", "histories", "configurations"], "every optimizer class, mode, min/max, every problem and seed, every epoch",
  "Needs the invariant over the whole history of a run; tests look at the type of the final value only.",
  [OPT] + ALGOS, [("update_global_best_agent", OPT), ("get_better_agent, get_sorted_population", OPT), ("solve main loop", OPT)],
  [("history.list_global_best", "best-so-far per epoch", "mealpy/utils/history.py")], ["history after solve", "return value of solve"])
p("C04", "History holds exactly one consistent record per executed epoch",
  "After any completed search, every per-epoch series of the history (best-so-far and current agents and fitness, worst agents, runtimes, diversity, exploration, exploitation, and populations when saving was requested) has exactly as many entries as epochs were executed, and that number is reported. For each epoch the recorded fitness equals the fitness of the recorded agent, current best and worst are the best and worst of that epoch's population, and exploration plus exploitation is 100.",
  ["inputs", "histories", "configurations"], "every optimizer, problem, number of epochs, stopping rule, saving flag",
  "Tests only check that a couple of list lengths match in one run.",
  [OPT, "mealpy/utils/history.py"], [("track_optimize_step, track_optimize_process", OPT), ("store_initial_best_worst", "mealpy/utils/history.py")],
  [("history.list_*", "per-epoch series", "mealpy/utils/history.py")], ["history after solve"])
p("C05", "The search stops exactly at the first epoch at which a stopping rule holds",
  "With a termination given, the search ends right after the first epoch at which the epoch number, the evaluations made since the start, the elapsed time since the start, or the number of consecutive epochs whose best-so-far fitness changed by at most epsilon reaches its limit, whichever comes first; without any of these it runs exactly the configured number of epochs. Limits left unset never stop the search.",
  ["inputs", "histories", "configurations"], "every combination of limits, every run history",
  "Tests use one limit at a time and check only that the run ends; off-by-one and combined limits are not observable in them.",
  [OPT, "mealpy/utils/termination.py", "mealpy/utils/history.py"], [("should_terminate, set_start_values", "mealpy/utils/termination.py"), ("check_termination", OPT), ("get_global_repeated_times", "mealpy/utils/history.py")],
  None, ["number of epochs executed"])
p("C06", "The evaluation counter equals the number of objective calls made",
  "When a search runs with a termination, then at the end of every epoch its evaluation counter equals the number of times the user's objective function has been called since the search started, for every optimizer and every execution mode. A limit on evaluations is thus compared with the true count.",
  ["inputs", "histories", "configurations", "schedules"], "every optimizer, mode, problem, seed, epoch",
  "Nothing in the tests counts calls; an optimizer that evaluates outside the counted path or counts twice goes unnoticed.",
  [OPT] + ALGOS, [("get_target(counted)", OPT), ("update_target_for_population", OPT)],
  [("nfe_counter", "evaluations so far", OPT)], ["number of calls of obj_func", "optimizer.nfe_counter"])
p("C07", "A fixed seed determines the whole run",
  "Two searches by freshly built, equally configured optimizers on equal problems with the same integer seed, in a sequential mode, evaluate the same sequence of positions and return the same best solution and history, whatever the state of the global random generators, the clock or the hash seed, and whatever searches the optimizer ran before. Building or running one optimizer never draws from or reseeds the process-wide random generators.",
  ["inputs", "histories", "configurations"], "every optimizer, sequential mode, problem, seed; every state of the process-wide generators",
  "Tests fix a seed at most once per run and never compare two runs under perturbed global state.",
  [OPT, SP, PR] + ALGOS, [("check_problem seeds generator and rng", OPT), ("Problem.set_seed", PR)],
  [("generator, rng", "per-search random streams", OPT)], ["sequence of obj_func arguments"])
p("C08", "Execution modes evaluate the same agents, each with its own target, in order",
  "Evaluating a population in thread, process or swarm mode gives every agent the objective value of its own position, keeps the agents and their order, and counts one evaluation per agent, whatever the completion order of the workers. Creating a population of n in any mode yields n agents with independently drawn feasible positions, each evaluated on its own position and each counted once.",
  ["schedules", "inputs", "configurations"], "every worker completion order, number of workers, population size and mode",
  "Tests run thread/process once with a fast objective, so results arrive in order and nobody compares them with positions.",
  [OPT], [("update_target_for_population", OPT), ("generate_population", OPT), ("check_mode_and_workers", OPT)],
  None, ["population after evaluation"])
p("C09", "Decision variables decode, repair and generate only legal values, and round-trip",
  "For every kind of decision variable, repairing any real vector of the right length yields a vector inside the variable's bounds and repairing twice changes nothing; decoding any such vector yields legal values of that variable (numbers in range, integers, listed labels, permutations, bits), and every legal value is reachable. Generated values are legal, and decoding the encoding of a legal value returns it. (Repairing twice and the round trip are not claimed for the transfer-function variables, whose repair is random by design; labels of one variable are distinct.)",
  ["inputs", "configurations"], "every variable kind and parameters, every real vector, every legal value, every random draw",
  "Tests decode a handful of vectors; boundaries of label sets, integer range ends and permutations need every input.",
  [SP], [("FloatVar, IntegerVar, StringVar, CategoricalVar, SequenceVar, PermutationVar, BinaryVar, BoolVar, Transfer*Var", SP), ("LabelEncoder", SP)],
  None, ["return values of encode, decode, correct, generate"])
p("C10", "Parameter validation accepts exactly the values in range and rejects the rest",
  "Each validation function returns the value (converted to the documented type) if and only if it has the required type and lies within the given bound, where list bounds include their ends, tuple bounds exclude them and an infinite end is no limit. Any other value, including booleans given as strings, wrong lengths, out-of-range elements and NaN, raises ValueError.",
  ["inputs"], "every value (of any type), every bound",
  "Tests try a few values per function; boundary values, infinities, numpy numbers and mixed bounds need every input.",
  ["mealpy/utils/validator.py"], [("check_int, check_float, check_str, check_bool, check_tuple_int, check_tuple_float, check_list_tuple, check_is_instance, check_is_int_and_float", "mealpy/utils/validator.py"), ("is_in_bound", "mealpy/utils/validator.py")],
  None, ["return value or exception"])
p("C11", "Every optimizer stores its own validated hyper-parameters and reports them",
  "Constructing any optimizer either raises ValueError because a hyper-parameter is outside its accepted range, or leaves each hyper-parameter readable under its own name with the given value. The reported parameters contain exactly the hyper-parameters of the constructor with these values, and setting parameters either updates all the given known ones or, on any unknown name, raises ValueError and changes nothing.",
  ["inputs", "configurations"], "every optimizer class, every combination of hyper-parameter values",
  "Tests try a few values of some parameters; a swapped, unvalidated, clamped or unreported parameter in one of 280 constructors is not visible in them.",
  [OPT, "mealpy/utils/validator.py"] + ALGOS, [("__init__ of every optimizer", "mealpy/*_based/*.py"), ("set_parameters, get_parameters", OPT)],
  [("parameters", "reported hyper-parameters", OPT)], ["attributes and get_parameters() after construction"])
p("C12", "Ranking and selection helpers honour the optimisation direction",
  "For any non-empty population and either direction, sorting returns a permutation of it from best to worst, best/worst/special-agent/trimming helpers return the corresponding elements of that order, the better of two agents is never the worse one (and the reverse option the opposite), and pairwise greedy selection keeps, position by position, the strictly better newcomer and otherwise the incumbent. None of these modifies the given agents, and helpers documented to return copies return independent ones.",
  ["inputs"], "every population (ties, duplicates, any length), both directions, every requested count",
  "Tests have few agents with distinct fitness; ties, both directions and all counts need every input.",
  [OPT], [("get_sorted_population, get_best_agent, get_worst_agent, get_special_agents, get_special_fitness, get_better_agent, compare_target, compare_fitness, greedy_selection_population, get_sorted_and_trimmed_population", OPT)],
  None, ["return values"])
p("C13", "Random index helpers return valid, allowed and distinct indices",
  "For every population size, exclusion and random draw, the exclusion samplers return indices within the population that never include an excluded one and are pairwise distinct when sampling without replacement, and every allowed index can occur; tournament selection returns the requested number of distinct valid indices, namely the best (or worst) of the drawn candidates in the right direction. Roulette selection always returns a valid index, for any fitness values of any sign, all equal or not, and when minimising it never selects the worst candidate unless all are equal.",
  ["inputs"], "every population size, exclusion set, sample size, fitness vector and random draw",
  "Random outcomes; tests draw a few.",
  [OPT], [("sample_indexes_exclude_one, sample_indexes_exclude_list", OPT), ("get_index_roulette_wheel_selection, get_index_kway_tournament_selection", OPT)],
  None, ["return values"])
p("C14", "Agent copies are independent and agent comparison respects the direction",
  "Copying an agent (or a population) yields agents with equal position, target and extra attributes and a fresh identity, such that later changes to either, including in-place changes of the position, never show in the other. Comparing two agents reports better, equal or worse exactly according to their fitness and the direction, is antisymmetric, and picks the first on ties.",
  ["inputs", "histories"], "every agent, every sequence of updates, both directions",
  "Tests compare two agents once; aliasing needs later mutation of every component.",
  ["mealpy/utils/agent.py", "mealpy/utils/target.py", OPT], [("Agent.copy, update, get_better_solution, is_better_than", "mealpy/utils/agent.py"), ("Target.copy", "mealpy/utils/target.py"), ("duplicate_pop", OPT)],
  None, ["attributes of copies"])
p("C15", "Fitness is the weighted sum of the objectives",
  "For every objective result that is a number, list, tuple or array and every weight specification, the fitness equals the sum over objectives of weight times objective, with a single number used for every objective and unit weights when weights are absent or of a different length. Objectives are kept unchanged and in order; an objective result that is not a number, list, tuple or array raises ValueError.",
  ["inputs"], "every number of objectives, objective values and weights",
  "Tests use one or two objectives and fixed weights.",
  ["mealpy/utils/target.py", PR], [("Target.set_objectives, set_weights, calculate_fitness", "mealpy/utils/target.py"), ("Problem.get_target, n_objs", PR)],
  None, ["target.fitness, target.objectives, target.weights"])
p("C16", "A parameter grid's length, iteration and indexing agree and cover everything",
  "For any dictionary or list of dictionaries of value lists, iterating a parameter grid yields each combination of values exactly once, its length is the number of combinations, and the item at index i equals the i-th item of the iteration. An index at or past the length raises IndexError, and malformed grids are rejected at construction.",
  ["inputs"], "every grid (number of keys, list sizes, several sub-grids), every index",
  "Tests iterate one grid and never index it.",
  ["mealpy/tuner.py"], [("ParameterGrid.__iter__, __len__, __getitem__, __init__", "mealpy/tuner.py")], None, ["items of the grid"])
p("C17", "Tuning evaluates every combination and picks the best by mean fitness",
  "Tuning runs every combination of the grid the requested number of trials with exactly those hyper-parameter values, records each result in that combination's row, and selects the combination whose mean fitness is best for the problem's direction, breaking ties by the smaller spread. The reported best score, best parameters and best optimizer belong to that same row.",
  ["inputs", "configurations"], "every grid, number of trials, direction and outcome of the trials",
  "The ranking depends on outcomes of stochastic runs; tests only check that attributes exist.",
  ["mealpy/tuner.py"], [("Tuner.execute, best_params, best_score, best_row, best_algorithm", "mealpy/tuner.py")], None, ["tuner results"])
p("C18", "Multitask uses the right mode and termination and records each result in place",
  "A multi-task run accepts one termination or mode, one per algorithm, one per problem, or one per pair, and solves each algorithm-problem pair in each trial with the intended ones. The saved tables hold, for each algorithm, problem and trial, exactly the fitness and convergence of that run, under that algorithm's and problem's name.",
  ["inputs", "configurations"], "every number of algorithms, problems, trials, every accepted shape of terminations and modes",
  "Tests use a single shared mode and only check that files appear.",
  ["mealpy/multitask.py"], [("Multitask.check_input, execute, __run__", "mealpy/multitask.py")], None, ["arguments of solve", "exported tables"])
p("C19", "Transfer functions, chaotic maps and fuzzy weights stay in their ranges",
  "Every transfer function maps every finite real into [0, 1], the S-shaped ones being increasing through one half at zero and the V-shaped ones even, zero at zero and increasing with magnitude. Every chaotic map with default parameters keeps values of the unit interval in the unit interval (the Chebyshev map: in [-1, 1]; the Singer map: from [0, 0.999]), floating-point overflow aside, and the fuzzy weights for any iteration of a run lie between 25 and 75.",
  ["inputs"], "every real argument / every pair (iteration, total)",
  "Tests do not cover these functions, or sample a few points.",
  ["mealpy/utils/transfer.py", "mealpy/utils/chaotic.py", "mealpy/utils/fuzzy.py"], [("vstf_*, sstf_*", "mealpy/utils/transfer.py"), ("ChaoticMap", "mealpy/utils/chaotic.py"), ("FuzzySystem", "mealpy/utils/fuzzy.py")], None, ["return values"])
p("C20", "Given starting solutions are the initial population; bad ones are rejected",
  "If starting solutions are given with one position of the problem's dimension per agent, the initial population, before any opening step of the optimizer's own (such as opposition or branching), consists of exactly these positions in the given order, each evaluated on its own position, in every execution mode. Starting solutions with a wrong count, wrong dimension or wrong type raise ValueError before any evaluation of them.",
  ["inputs", "configurations"], "every optimizer, mode and set of starting solutions",
  "Tests pass starting solutions to few optimizers and never compare the initial population with them.",
  [OPT] + ALGOS, [("before_initialization, initialization", OPT)], None, ["initial population"])
p("C21", "Recorded history never changes after it is recorded",
  "Once an epoch has been recorded, the agents and populations stored in the history for that epoch keep the position and target they had at that moment, whatever the optimizer does in later epochs. The recorded best-so-far and current-best agents therefore always agree with the recorded fitness series.",
  ["histories", "inputs", "configurations"], "every optimizer, mode, problem, seed, every later epoch",
  "Aliasing between live agents and the record shows only when a later epoch mutates exactly that agent in place.",
  [OPT, "mealpy/utils/history.py", "mealpy/utils/agent.py"] + ALGOS, [("update_global_best_agent", OPT), ("track_optimize_step", OPT), ("duplicate_pop", OPT)],
  [("history.list_*", "recorded agents", "mealpy/utils/history.py")], ["history entries at record time and at the end"])
p("C22", "Optimizer lookup finds every optimizer class under its own name",
  "The catalogue of optimizers maps every optimizer class name of the library to the class of that name and nothing else; looking up a class name returns that class, or nothing for an unknown name, and looking up a module name returns exactly the optimizer classes of that module.",
  ["inputs"], "every class and module name, every other string",
  "Tests look up one or two names.",
  ["mealpy/__init__.py"], [("get_all_optimizers, get_optimizer_by_class, get_optimizer_by_name", "mealpy/__init__.py")], None, ["return values"])
p("C23", "A problem splits, joins and bounds its variables consistently",
  "For any list of decision variables, the problem's bounds are the variables' bounds in order and its dimension their total length; repairing, decoding, encoding and generating treat each variable's own slice by that variable's own rules, in order, so decoding names every variable once with the value of its slice. Seeding the problem seeds every variable.",
  ["inputs", "configurations"], "every list of variables of any kinds and lengths, every vector",
  "Tests use one or two layouts; slice offsets matter only with several multi-dimensional variables in every order.",
  [PR], [("set_bounds, set_seed, encode/decode/correct/generate_solution_with_bounds", PR)], None, ["return values"])
p("C24", "A saved optimizer loads back from the path it was saved to",
  "Saving an optimizer under any path and loading from the same path restores an equal optimizer (same class, hyper-parameters, best agent and history), with the .pkl extension added exactly when missing and a default file used when no path is given.",
  ["inputs", "histories"], "every path string and every saved state",
  "Tests save one model to one path.",
  ["mealpy/utils/io.py"], [("save_model, load_model", "mealpy/utils/io.py")], None, ["loaded object", "file written"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
