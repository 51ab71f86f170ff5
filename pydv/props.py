"""The proof part of each property: obligations generated from the current source, discharged (or not) by the back ends.

prove(pid, repo_root, tier, seed) -> dict(obligations, discharged, undecided, failed=[{name, why, classes}], focus=[classes that deserve more
bounded runs], assumptions, trusted_base, ...).  A property may have several parts; their results are added up."""
import os, sys, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)

PARTS = {}          # pid -> [(module, function)]
def _add(pids, mod, fn):
    for p in pids: PARTS.setdefault(p, []).append((mod, fn))

_add(["C01", "C02", "C06", "C07"], "pydv.optprops", "prove")
from pydv import coreprops as _cp
_add(sorted({p for c in _cp.contracts() for p in set(c.props) | {q for _, ps in getattr(c, "tags", ()) for q in ps}}), "pydv.coreprops", "prove")

_add(["C03", "C04", "C05", "C06", "C07", "C08", "C21"], "pydv.frame", "prove")
_add(["C11"], "pydv.ctors", "prove")
LEVEL = {}          # (proof, unless said otherwise)
TECHNIQUE, NOTE = {}, {}
_NP = {"C01": 505, "C02": 514, "C06": 556, "C07": 556}        # as in contracts/opt (tools/mkcontracts.py)
def _optp(p): return f"proved for {_NP[p]} of the 564 pairs of optimizer class and mode (single; swarm stands for the population-wise modes); the other pairs have bounded runs only, listed in the evidence; array shapes and floats are not modelled"
_WHAT = {
    "C01": "every objective call has a feasible argument and every member and the best stay feasible: " + _optp("C01"),
    "C02": "every member carries the value of its position, in-place changes and sharing included: " + _optp("C02"),
    "C03": "the search loop and its recording are proved for any population, epochs and steps that obey the frame; the frame (no step assigns the record or the counters) by effect analysis of every class",
    "C04": "the lengths, epochs, agreement and percentages of the history are proved for any number of epochs, from the contracts of the recording functions and the frame of every class",
    "C05": "should_terminate, the stagnation count, check_termination and the epoch loop are proved for any history and limits; that no search ends by an exception is bounded (known findings)",
    "C06": "the counter equals the ghost count of objective calls: " + _optp("C06"),
    "C07": "no step reads a field left by an earlier search (" + _optp("C07") + "), and no function uses a source of values besides arguments, fields and the search's generators (every function, by effect analysis); equality of whole runs is bounded",
    "C08": "proved in every mode for any population and completion order, under the documented semantics of executors; real executors are bounded",
    "C09": "proved for every variable class, any length, labels and values, over exact reals; floats are bounded",
    "C10": "proved for values of unknown type (infinities and NaN included) and sequences of any length",
    "C11": "proved for the constructors of all classes with arguments of unknown type and value; set_parameters and get_parameters are bounded; one known finding",
    "C12": "proved for any population size and both directions",
    "C13": "proved for any population, exclusion and draw, over exact reals",
    "C14": "proved with separation of all mutable parts, for up to two extra attributes",
    "C15": "proved for every kind of result and any number of objectives, over exact reals",
    "C16": "length, iteration, indexing and rejection proved for any number of grids, parameters and values, from the documented order of itertools.product",
    "C17": "execute (calls, recorded rows, statistics, ranking and selection), resolve and the accessors are proved for any grid, at least two trials, serial and parallel, with a stub optimizer and pandas by contract; real tables are bounded",
    "C18": "execute (which pairs are solved how, what the tables hold) is proved for any number of algorithms, problems and trials, with a stub optimizer and pandas by contract; saved files are bounded",
    "C19": "proved over exact reals from function laws; floating point is bounded",
    "C20": "proved for any population, dimension and kind of the given value, in every mode; real searches are bounded",
    "C21": "proved by separation of what is recorded, and the frame of every class",
    "C22": "proved for every class name, module name and any other string, over the modules of the current source",
    "C23": "proved for any number of variables of any lengths, each known by the contract of BaseVar only",
    "C24": "proved for any path, from pickle being an inverse pair; real files are bounded"}
for _p in PARTS:
    TECHNIQUE[_p] = "contract-based deductive verification of the real Python source (verification conditions from the AST on every run, discharged by z3); bounded run-time contracts where the verifier does not reach"
    NOTE[_p] = _WHAT[_p] + ". Trusted: pydv (the condition generator), z3, the contracts of NumPy and other externals; see DESIGN.md sections 4 and 6"

def has(pid): return pid in PARTS


def prove(pid, root, tier, seed):
    from pydv.src import Repo
    t0 = time.time()
    try: repo = Repo(root)
    except SyntaxError as e:
        return dict(obligations=1, discharged=0, undecided=1, failed=[], focus=[], assumptions=[], notes=[f"the source does not parse: {e}"], parts=[])
    tot = dict(obligations=0, discharged=0, undecided=0, failed=[], focus=[], assumptions=[], notes=[], parts=[], functions=0, checker_cmd="python3-vt check.py " + pid + " --no-runs", solver_s=0.0)
    ass, trusted = [], []
    for mod, fn in PARTS[pid]:
        r = getattr(importlib.import_module(mod), fn)(pid, repo, tier, seed)
        for k in ("obligations", "discharged", "undecided", "functions", "solver_s"): tot[k] += r.get(k, 0)
        for k in ("failed", "focus", "notes"): tot[k] += r.get(k, [])
        for a in r.get("assumptions", []):
            if a not in ass: ass.append(a)
        for a in r.get("trusted_base", []):
            if a not in trusted: trusted.append(a)
        tot["parts"].append({k: v for k, v in r.items() if k not in ("failed", "focus", "notes", "assumptions", "trusted_base")})
    tot["assumptions"], tot["trusted_base"] = ass, trusted
    tot["focus"] = sorted(set(tot["focus"]))
    tot["solver_s"] = round(tot["solver_s"], 1)
    tot["proof_wall_s"] = round(time.time() - t0, 1)
    return tot
