"""Shared by the run-time contract checks (bounded parts)."""
import os, sys, json, hashlib, random, warnings, logging
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path: sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
np.seterr(all="ignore")


class Rep:
    """Counts what was explored and keeps the failing cases."""
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.n = 0; self.seen = set(); self.samples = []; self.fails = []; self.keys = set(); self.notes = []
        self.r = random.Random(f"{pid}-{seed}")
        self.np = np.random.RandomState(self.r.randrange(2 ** 31))

    @property
    def thorough(self): return self.tier == "thorough"

    def scale(self, quick, thorough): return thorough if self.thorough else quick

    def case(self, desc, nontrivial=True):
        self.n += 1
        if nontrivial:
            h = hashlib.md5(repr(desc).encode()).digest()[:8]
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 5 or (len(self.seen) & (len(self.seen) - 1)) == 0 and len(self.samples) < 12:
                    self.samples.append(short(desc))

    def fail(self, key, msg, case=None):
        """key identifies the violated clause / call site"""
        if key in self.keys: return
        self.keys.add(key)
        self.fails.append(dict(key=key, msg=msg, case=short(case, 2000)))

    def check(self, ok, key, msg, case=None):
        if not ok: self.fail(key, msg() if callable(msg) else msg, case() if callable(case) else case)
        return ok

    def result(self):
        return dict(property=self.pid, seed=self.seed, tier=self.tier, evaluations=self.n, distinct_nontrivial=len(self.seen),
                    samples=self.samples, failures=self.fails, notes=self.notes)


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def raises(f, *a, exc=ValueError, **k):
    """-> ('ok', value) | ('raised', e) | ('other', e)"""
    try: return "ok", f(*a, **k)
    except exc as e: return "raised", e
    except Exception as e: return "other", e
