"""Random search configurations for the run-time contract monitor (optruns)."""
import random
CHAOS = ["bernoulli", "logistic", "chebyshev", "circle", "cubic", "icmic", "piecewise", "singer", "sinusoidal", "tent"]
SEL = dict(selection=["tournament", "random", "roulette"], crossover=["one_point", "multi_points", "uniform", "arithmetic"])
# hyper-parameters that select between branches of the algorithm
SELECTORS = {
    "BCO.OriginalBCO": dict(n_chemotaxis=[1, 2, 5]), "IWO.OriginalIWO": dict(seed_min=[1, 2, 3], exponent=[2, 3, 4]),
    "DE.OriginalDE": dict(strategy=[0, 1, 2, 3, 4, 5]), "DE.SAP_DE": dict(branch=["ABS", "REL"]),
    "GA.BaseGA": dict(SEL, mutation=["flip", "swap"]), "GA.OriginalGA": dict(SEL, mutation=["flip", "swap"]),
    "GA.SingleGA": dict(SEL, mutation=["flip", "swap", "scramble", "inversion"]), "GA.MultiGA": dict(SEL, mutation=["flip", "swap"]),
    "GA.EliteSingleGA": dict(SEL, mutation=["flip", "swap", "scramble", "inversion"], strategy=[0, 1]),
    "GA.EliteMultiGA": dict(SEL, mutation=["flip", "swap"], strategy=[0, 1]),
    "PSS.OriginalPSS": dict(sampling_method=["MC", "LHS"]), "WDO.OriginalWDO": dict(RT=[1, 2, 3, 4]),
    "BeesA.CleverBookBeesA": dict(n_others=[2, 4, 5], n_sites=[2, 4, 5], n_elite_sites=[1, 2, 3]),
    "CSO.OriginalCSO": dict(spc=[True, False], selected_strategy=[0, 1, 2, 3, 4]), "FFA.OriginalFFA": dict(exponent=[2, 3, 4]),
    "GWO.ChaoticGWO": dict(chaotic_name=CHAOS), "GWO.FuzzyGWO": dict(fuzzy_name=["increase", "decrease"]),
    "WOA.OriginalWOAmM": dict(mut_rand=[True, False], bound=["clip", "reflect", "random"]),
}
LANDS = ["sphere", "rugged", "neg", "plateau", "linear", "multi"]
BOUNDS = ["float", "float2", "mixed", "int", "odd", "float2"]


def kwargs_for(cls, r):
    sel = SELECTORS.get(cls)
    if not sel or r.random() < 0.25: return {}
    k = {n: r.choice(v) for n, v in sel.items() if r.random() < 0.7}
    if cls in ("GA.BaseGA", "GA.OriginalGA") and r.random() < 0.4:
        k["mutation_multipoints"] = False; k["mutation"] = r.choice(["flip", "swap", "scramble", "inversion"])
    return k


def one(cls, r, modes=("single", "single", "swarm", "thread"), epochs=(4, 6, 10), adv=False, start=False, term=True):
    c = dict(cls=cls, mode=r.choice(modes), minmax=r.choice(["min", "max"]), bounds=r.choice(BOUNDS), land=r.choice(LANDS),
             seed=r.randrange(10 ** 6), epoch=r.choice(epochs), pop_size=r.choice([16, 20, 20]), term=term, kwargs=kwargs_for(cls, r))
    if adv: c["adv"] = 1 + r.randrange(1000); c["advp"] = r.choice([0.02, 0.1, 0.3])
    if start: c["start"] = r.randrange(10 ** 6)
    if c["mode"] == "thread": c["epoch"] = min(c["epoch"], 4)
    c["limit"] = 12
    return c


def make(classes, n, seed, **kw):
    r = random.Random(f"cfg-{seed}")
    return [one(c, r, **kw) for c in classes for _ in range(n)]
