"""Shared by all recorders: case writer, guarded execution, scripted randomness.

Recorders run under /opt/venv/bin/python and import plaquette from /repo/src.
"""
import json
import os
import random
import signal
import sys
import traceback
import warnings
from fractions import Fraction

warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402

_t0 = None


class Hang(Exception):
    pass


def _alarm(_s, _f):
    raise Hang("time limit of one case exceeded")


def timer(limit):
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(min(6 * limit, 360))


class Recorder:
    def __init__(self):
        self.path = sys.argv[1]
        self.cfg = json.loads(sys.argv[2])
        self.seed = int(self.cfg.get("seed", 1))
        self.tier = self.cfg.get("tier", "quick")
        self.shard = int(self.cfg.get("shard", 0))
        self.shards = int(self.cfg.get("shards", 1))
        self.f = open(self.path, "w")
        self.n = 0
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, *key):
        return random.Random(f"{self.seed}/{'/'.join(map(str, key))}")

    def mine(self, index):
        """Is case number index in this shard?"""
        return index % self.shards == self.shard

    def emit(self, case):
        self.f.write(json.dumps(case, default=_default) + "\n")
        self.n += 1

    def run(self, cid, fn, *args, limit=60, kind="", **kw):
        """Emit the case returned by fn, or a crash case if it raises.

        The limit is on the processor time, so that a busy machine is no failure.
        """
        timer(limit)
        try:
            case = fn(*args, **kw)
            timer(0)
        except RecorderBug:
            timer(0)
            raise
        except BaseException as e:  # the code under test failed or hung
            timer(0)
            if isinstance(e, KeyboardInterrupt):
                raise
            self.emit({"id": cid, "kind": kind,
                       "crash": f"{type(e).__name__}: {e}"[:300],
                       "where": traceback.format_exc()[-1500:]})
            return
        if case is not None:
            case["id"] = cid
            if kind and "kind" not in case:
                case["kind"] = kind
            self.emit(case)

    def close(self):
        self.f.close()


class RecorderBug(Exception):
    """The recorder itself cannot continue (not the code under test)."""


def _default(o):
    if isinstance(o, (np.integer, np.bool_)):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o).__name__)


def err_name(e):
    return type(e).__name__


# --------------------------------------------------------------------------
class ScriptedRng:
    """Stands in for numpy's Generator; enumerates every random decision.

    Each call is answered from the current script; when the script is exhausted,
    the first alternative is taken and the number of alternatives is noted, so a
    driver can walk all scripts depth first.  ``weight`` is the exact probability
    of the decisions taken.
    """

    GRID = 16  # random()/uniform() take the midpoints of 1/16-th cells

    def __init__(self, script=()):
        self.script = list(script)
        self.pos = 0
        self.arity = []      # alternatives at each decision
        self.weight = Fraction(1)

    def _decide(self, weights):
        """Choose an index among weights (Fractions summing to 1)."""
        live = [i for i, w in enumerate(weights) if w > 0]
        if self.pos < len(self.script):
            k = self.script[self.pos]
        else:
            k = 0
            self.script.append(0)
        self.arity.append(len(live))
        self.pos += 1
        i = live[k]
        self.weight *= weights[i]
        return i

    def _many(self, size, one):
        if size is None:
            return one()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = [one() for _ in range(int(np.prod(shape)))]
        return np.array(out).reshape(shape)

    def random(self, size=None, dtype=None, out=None):
        g = self.GRID

        def one():
            k = self._decide([Fraction(1, g)] * g)
            return (2 * k + 1) / (2 * g)

        return self._many(size, one)

    def uniform(self, low=0.0, high=1.0, size=None):
        g = self.GRID

        def one():
            k = self._decide([Fraction(1, g)] * g)
            return low + (high - low) * (2 * k + 1) / (2 * g)

        return self._many(size, one)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        if n > 4096:
            raise RecorderBug("integers() over a large range under scripted randomness")

        dt = np.dtype(dtype)

        def one():
            v = int(low) + self._decide([Fraction(1, n)] * n)
            return dt.type(v) if dt != np.int64 else np.int64(v)

        out = self._many(size, one)
        return out if size is None else out.astype(dt)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is None:
            ws = [Fraction(1, len(items))] * len(items)
        else:
            p = [float(v) for v in p]
            if len(p) != len(items):
                raise ValueError("a and p must have same size")
            if any(v < 0 for v in p):
                raise ValueError("probabilities are not non-negative")
            if abs(sum(p) - 1) > 1e-8:
                raise ValueError("probabilities do not sum to 1")
            ws = [Fraction(v).limit_denominator(1 << 20) for v in p]

        def one():
            v = items[self._decide(ws)]
            return np.int64(v) if isinstance(v, int) and not isinstance(v, bool) else v

        return self._many(size, one)

    def binomial(self, n, p, size=None):
        nn, pp = np.asarray(n), np.asarray(p, dtype=float)
        if size is None and (nn.ndim or pp.ndim):
            size = np.broadcast(nn, pp).shape
        if size is None:
            return np.int64(self._binom(int(nn), float(pp)))
        nn, pp = np.broadcast_to(nn, size).ravel(), np.broadcast_to(pp, size).ravel()
        out = [self._binom(int(a), float(b)) for a, b in zip(nn, pp)]
        return np.array(out, dtype=np.int64).reshape(size)

    def _binom(self, n, p):
        w = Fraction(p).limit_denominator(1 << 20)
        return sum(self._decide([1 - w, w]) for _ in range(n))

    def multinomial(self, n, pvals, size=None):
        ws = [Fraction(float(v)).limit_denominator(1 << 20) for v in pvals]
        ws[-1] = 1 - sum(ws[:-1])

        def one():
            out = [0] * len(ws)
            for _ in range(int(n)):
                out[self._decide(ws)] += 1
            return out

        if size is None:
            return np.array(one())
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = [one() for _ in range(int(np.prod(shape)))]
        return np.array(out).reshape(shape + (len(ws),))

    def shuffle(self, x, axis=0):
        order = self.permutation(len(x))
        if isinstance(x, np.ndarray):
            x[:] = x[order]
        else:
            x[:] = [x[i] for i in order]

    def permuted(self, x, axis=None, out=None):
        return np.asarray(x).ravel()[self.permutation(np.asarray(x).size)].reshape(np.shape(x))

    def bytes(self, length):
        return bytes(int(self.integers(0, 256)) for _ in range(length))

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._many(size, lambda: 0.0)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(size, lambda: float(loc))

    def permutation(self, x):
        items = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        out = []
        while items:
            k = self._decide([Fraction(1, len(items))] * len(items))
            out.append(items.pop(k))
        return np.array(out)

    def __getattr__(self, name):
        raise RecorderBug(f"random generator method {name} is not scripted")


def all_scripts(run, limit=100000):
    """Yield (result, weight) of run(rng) for every script of random decisions."""
    stack = [[]]
    count = 0
    while stack:
        pre = stack.pop()
        r = ScriptedRng(pre)
        res = run(r)
        yield res, r.weight
        count += 1
        if count > limit:
            raise RecorderBug("too many random branches")
        used = r.script[: r.pos]
        for i in range(len(pre), r.pos):
            for k in range(1, r.arity[i]):
                stack.append(used[:i] + [k])


def tab_json(tab):
    """Tableau as {d: rows, s: rows}; a row is [x qubits, z qubits, sign]."""
    tab = np.asarray(tab)
    n = tab.shape[1] // 2
    rows = [
        [
            [int(q) for q in range(n) if r[q]],
            [int(q) for q in range(n) if r[n + q]],
            int(r[-1]),
        ]
        for r in tab
    ]
    h = len(rows) // 2
    return {"d": rows[:h], "s": rows[h:]}


def op_json(op):
    op = np.asarray(op)
    n = op.size // 2
    return [
        [int(q) for q in range(n) if op[q]],
        [int(q) for q in range(n) if op[n + q]],
        int(op[-1]),
    ]
