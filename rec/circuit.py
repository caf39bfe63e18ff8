"""Record executions of the tableau simulator, instruction by instruction.

At each instruction every result of the random decisions inside it is enumerated
(scripted generator), then the execution continues from one of them.
"""
import copy
from fractions import Fraction

import numpy as np
import plaquette
from plaquette import circuit as pc
from plaquette.device import Device
from plaquette.device._circuitsim import CircuitSimulator

from rec.circuit_gen import I, gate_args, rand_prog
from rec.base import Recorder, RecorderBug, ScriptedRng, all_scripts, err_name, tab_json

PD = 16


def obs(sim):
    return tab_json(sim.state.tableau), [int(m) for m in sim.meas_results], [
        int(bool(e)) for e in sim.erasure]


def hidden(sim):
    return tuple(sorted((k, v) for k, v in vars(sim).items() if isinstance(v, bool)))


def branches(sim):
    """All results of the next instruction: [(sim copy, weight)], or an error."""

    def one(r):
        s = copy.copy(sim)
        s.state = copy.deepcopy(sim.state)
        s.meas_results = list(sim.meas_results)
        s.erasure = list(sim.erasure)
        plaquette.rng = r
        try:
            next(s)
        except RecorderBug:
            raise
        except Exception as e:
            return err_name(e)
        return s

    out, keys, err = [], {}, ""
    for s, w in all_scripts(one):
        if isinstance(s, str):
            err = s
            continue
        key = (np.asarray(s.state.tableau).tobytes(), tuple(map(int, s.meas_results)),
               tuple(map(bool, s.erasure)), hidden(s))
        if key in keys:
            out[keys[key]][1] += w
        else:
            keys[key] = len(out)
            out.append([s, w])
    return out, err


def execute(prog, n, rnd, init=None, via_device=False):
    """Case for one program; init: tableau to start from."""
    c = pc.Circuit()
    b = pc.CircuitBuilder(c)
    for k, ins in enumerate(prog):
        a = gate_args(ins)
        c.append(*a)
    # make sure all n qubits exist
    if c.number_of_qubits < n:
        n = c.number_of_qubits
    sim = CircuitSimulator(b if rnd.random() < 0.3 else c)
    iter(sim)
    start = []
    if init is not None:
        sim.state.tableau = init.copy()
        start = [tab_json(init)]
    steps = []
    for ins in prog:
        outs, err = branches(sim)
        st = {"ins": ins, "err": err, "succ": [], "pick": 0}
        if not err:
            for s, w in outs:
                t, m, e = obs(s)
                st["succ"].append({"tab": t, "meas": m, "eras": e,
                                   "w": [w.numerator, w.denominator]})
            st["pick"] = rnd.randrange(len(outs)) + 1
        steps.append(st)
        if err:
            break
        sim = outs[st["pick"] - 1][0]
    case = {"n": n, "init": start, "steps": steps}
    if not steps or not steps[-1]["err"]:
        raw, er = sim.process_results()
        case["final"] = {"meas": [int(x) for x in raw],
                         "eras": [] if er is None else [int(bool(x)) for x in er],
                         "none": er is None, "ended": ended(sim)}
    else:
        case["final"] = {"meas": [], "eras": [], "none": True, "ended": True,
                         "skip": True}
    case["final"].setdefault("skip", False)
    case["final"]["err_only"] = False
    return case


def ended(sim):
    try:
        next(sim)
    except StopIteration:
        return True
    return False


def alphabet(n, noise):
    out = []
    for q in range(n):
        for g in "XYZH":
            out.append(I(g, [q]))
        out += [I("M", [q]), I("R", [q])]
        if noise:
            out += [I("DEPOLARIZE", [q]), I("E_ERASE", [q], [4]), I("E_PAULI", [q], [1, 2, 4])]
            for g in "XYZHMR":
                out.append(I("ERROR", [q], [4], g))
    for a in range(n):
        for b in range(n):
            if a != b:
                out += [I("CX", [a, b]), I("CZ", [a, b]), I("M", [a, b])]
                if noise:
                    out.append(I("E_PAULI2", [a, b], [1] * 15))
    return out


def closure(rec, n, noise, full):
    """Walk the simulator's reachable tableaux on n qubits: every instruction of the
    alphabet from every reachable state (or tableau, if full)."""
    from plaquette import pauli

    def key(t):
        if full:
            return t.tobytes()
        return canon(t)

    seen = {}
    todo = [pauli.zero_state(n)]
    seen[key(todo[0])] = 0
    k = 0
    pad = I("M", [n - 1])
    while todo:
        t = todo.pop()
        for ins in alphabet(n, noise):
            k += 1
            nm = f"closure{n}-{'n' if noise else 'u'}-{k}"
            rnd = rec.rng(nm)
            prog = [ins, pad] if n - 1 not in ins["q"] else [ins]
            try:
                case = execute(prog, n, rnd, init=t)
            except RecorderBug:
                raise
            except Exception as e:
                if rec.mine(k):
                    rec.emit({"id": nm, "kind": "closure", "crash": repr(e)})
                continue
            case["steps"] = case["steps"][:1]
            if case["n"] != n:
                raise RecorderBug("closure: qubit count")
            case["final"]["skip"] = True
            case["id"], case["kind"] = nm, "closure"
            if rec.mine(k):
                rec.emit(case)
            for s in case["steps"][0]["succ"]:
                nt = from_json(s["tab"], n)
                kk = key(nt)
                if kk not in seen:
                    seen[kk] = len(seen)
                    todo.append(nt)
        if len(seen) > (40000 if full else 2000):
            break
    return len(seen)


def from_json(t, n):
    rows = []
    for r in t["d"] + t["s"]:
        v = np.zeros(2 * n + 1, dtype="u1")
        v[r[0]] = 1
        v[[n + q for q in r[1]]] = 1
        v[-1] = r[2]
        rows.append(v)
    return np.array(rows, dtype="u1")


def canon(t):
    """All stabilizer group elements (small n), as a hashable set."""
    from plaquette import pauli
    n = t.shape[0] // 2
    els = set()
    for m in range(1 << n):
        p = np.zeros(2 * n + 1, dtype="u1")
        for i in range(n):
            if m >> i & 1:
                p, _ = pauli.multiply(p, t[n + i])
        els.add(p.tobytes())
    return frozenset(els)


def main():
    rec = Recorder()
    noise = bool(rec.cfg.get("noise"))
    count = int(rec.cfg.get("count", 100))
    for k in range(count):
        if not rec.mine(k):
            continue
        rnd = rec.rng("circuit", noise, k)
        n = rnd.choice([1, 2, 2, 3, 3, 4, 5] if noise else [1, 2, 3, 4, 4, 5, 6])
        prog = rand_prog(rnd, n, rnd.randint(6, 16 if noise else 24), noise)
        rec.run(f"rand-{'n' if noise else 'u'}-{k}", execute, prog, n, rnd, kind="random")
    for n, full in rec.cfg.get("closure", []):
        closure(rec, n, noise, full)
    rec.close()


main()
