"""Record device sessions: random histories of run/sample/reset/step/append."""
import itertools

import numpy as np
import plaquette
from plaquette import circuit as pc
from plaquette.device import Device
from plaquette.device._circuitsim import CircuitSimulator
from plaquette.device._stimsim import StimSimulator

from rec import circuit_gen as cg
from rec.base import Recorder, RecorderBug, err_name, tab_json

PD = 4


def circuit_pool(rnd, n):
    out = []
    for _ in range(n):
        nq = rnd.choice([1, 2, 2, 3])
        prog = []
        for _ in range(rnd.randint(2, 6)):
            r = rnd.random()
            if r < 0.5:
                prog.append(cg.rand_unitary(rnd, nq))
            elif r < 0.8:
                prog.append(cg.rand_meas(rnd, nq))
            else:
                prog.append(rnd.choice([
                    cg.I("E_ERASE", [rnd.randrange(nq)], [rnd.choice([0, 2, 4])]),
                    cg.I("E_PAULI", [rnd.randrange(nq)], [1, 1, 1]),
                    cg.I("ERROR", [rnd.randrange(nq)], [2], rnd.choice("XZ")),
                ]))
        prog.append(cg.I("X", [nq - 1]))
        prog.append(cg.I("M", list(range(nq))))
        out.append(prog)
    return out


class Session:
    """Executes one session; deterministic given its seed."""

    def __init__(self, seed, pool, devs, builders, kw):
        plaquette.rng = np.random.default_rng(seed)
        self.circ = []
        for p, b in zip(pool, builders):
            c = cg.build(p, PD)
            self.circ.append(pc.CircuitBuilder(c) if b else c)
        self.kinds = devs
        self.dev = []
        for k, w in zip(devs, kw):
            self.dev.append(Device(k, **w) if k != "sim" and k != "stimsim" else None)
        self.live = [None] * len(devs)
        self.draws = [None] * len(devs)
        self.ver = [None] * len(devs)
        self.seed = [w.get("stim_seed") for w in kw]
        self.kw = kw
        self.evs = []
        self.edits = [0] * len(pool)

    def base(self, i):
        c = self.circ[i]
        return c.circ if isinstance(c, pc.CircuitBuilder) else c

    def do(self, op, d=0, cid=0, reset=True, ins=None):
        ev = {"op": op, "d": d + 1, "cid": cid + 1, "reset": reset, "err": "", "m": [],
              "e": [], "none": True, "tab": [], "nq": 0, "stop": False, "draw": []}
        if op == "append":
            ev["ins"] = ins
            c = self.circ[cid]
            a = cg.gate_args(ins, PD)
            (c.circ if isinstance(c, pc.CircuitBuilder) else c).append(*a)
            self.edits[cid] += 1
            self.evs.append(ev)
            return
        if op == "replace":
            ev["ins"], ev["at"] = ins
            gates = self.base(cid).gates
            name, *args = cg.gate_args(ev["ins"], PD)
            ev["at"] = max(k for k, (g, q) in enumerate(gates) if g in "XYZH" and tuple(q) == tuple(args)) + 1
            gates[ev["at"] - 1] = (name, type(gates[ev["at"] - 1][1])(args))
            self.edits[cid] += 1
            self.evs.append(ev)
            return
        kind = self.kinds[d]
        try:
            if op == "run":
                if kind in ("sim", "stimsim"):
                    if self.live[d] is None:
                        cls = CircuitSimulator if kind == "sim" else StimSimulator
                        self.dev[d] = cls(self.circ[cid], **self.kw[d])
                    r = self.dev[d].get_sample(after_reset=reset) if reset is not None else None
                    raw, er = r
                else:
                    self.dev[d].run(self.circ[cid], after_reset=reset)
                    raw, er = self.dev[d].get_sample()
                if self.live[d] != cid:
                    self.draws[d] = 0
                    if kind == "stim":   # made anew with its own arguments
                        self.seed[d] = self.kw[d].get("stim_seed")
                self.live[d] = cid
            elif op == "reset":
                if kind in ("sim", "stimsim"):
                    self.dev[d].reset()
                else:
                    self.dev[d].reset_backend()
                self.draws[d] = 0
                raw, er = self.results(d)
            elif op == "iter":
                iter(self.dev[d])
                raw, er = self.results(d)
            elif op == "next":
                try:
                    next(self.dev[d])
                except StopIteration:
                    ev["stop"] = True
                raw, er = self.results(d)
            elif op == "sample":
                raw, er = self.results(d)
            ev["m"] = [int(x) for x in raw]
            ev["none"] = er is None
            ev["e"] = [] if er is None else [int(bool(x)) for x in er]
            if kind in ("clifford", "sim"):
                ev["tab"] = [tab_json(self.dev[d].state.tableau)]
                ev["nq"] = int(self.dev[d].n_qubits)
            elif op == "run" and self.seed[d] is not None:
                self.draws[d] += 1
                if self.draws[d] == 1:
                    self.ver[d] = self.version(cid)
                elif self.ver[d] != self.version(cid):
                    # sampler numbering after an append is unspecified
                    self.ver[d] = -1
            if ev["draw"] == [] and op == "run" and self.draws[d] and self.ver[d] == self.version(cid):
                ev["draw"] = [cid, self.seed[d], self.kw[d].get("batch_size", 1024),
                              self.draws[d], self.version(cid)]
        except RecorderBug:
            raise
        except Exception as e:
            ev["err"] = err_name(e)
        self.evs.append(ev)

    def version(self, cid):
        return self.edits[cid]

    def results(self, d):
        k = self.kinds[d]
        if k in ("sim", "stimsim"):
            return self.dev[d].process_results()
        return self.dev[d].get_sample()


def random_ops(rnd, pool, devs, length):
    """Abstract operations; only sequences whose meaning is documented."""
    ops = []
    live = [None] * len(devs)
    progs = [list(p) for p in pool]
    stale = [False] * len(devs)     # circuit grew while device holds it
    canstep = [False] * len(devs)
    emptied = [False] * len(devs)
    for _ in range(length):
        d = rnd.randrange(len(devs))
        k = devs[d]
        stimlike = k.startswith("stim")
        r = rnd.random()
        if live[d] is None or r < 0.5:
            if live[d] is not None and (k in ("sim", "stimsim") or rnd.random() < 0.6):
                cid = live[d]
            else:
                cid = rnd.randrange(len(pool))
            reset = True
            if live[d] == cid and not stale[d] and rnd.random() < 0.5:
                reset = False
            if stimlike and rnd.random() < 0.9:
                reset = True
            if k == "stimsim" and stale[d]:
                reset = True
            ops.append(("run", d, cid, reset, None))
            if not (stimlike and not reset):
                live[d] = cid
                stale[d] = False
                canstep[d] = False
                emptied[d] = False
        elif r < 0.62:
            if not (stimlike and emptied[d]):
                ops.append(("sample", d, 0, True, None))
        elif r < 0.7:
            if stimlike:
                # cid: the new seed, if any
                ops.append(("reset_stim", d, rnd.choice([None, 0, 11, 0, 11]), rnd.random() < 0.5, None))
                emptied[d] = True
            elif not stale[d]:
                ops.append(("reset", d, 0, True, None))
                canstep[d] = False
        elif r < 0.92:
            if not stimlike and not stale[d]:
                if not canstep[d] or rnd.random() < 0.1:
                    ops.append(("iter", d, 0, True, None))
                    canstep[d] = True
                for _ in range(rnd.randint(1, 4)):
                    ops.append(("next", d, 0, True, None))
        else:
            cid = rnd.randrange(len(pool))
            nq = 1 + max(q for i in progs[cid] for q in i["q"])
            ins = cg.rand_unitary(rnd, nq) if rnd.random() < 0.5 else cg.I("M", [rnd.randrange(nq)])
            for j in range(len(devs)):
                if live[j] == cid:
                    stale[j] = True
            how = "append"
            # the last X, Y, Z or H of the last qubit
            at = [k for k, i in enumerate(pool[cid]) if i["g"] in ("X", "Y", "Z", "H") and i["q"] == [nq - 1]]
            if rnd.random() < 0.5 and at:
                how, ins = "replace", (cg.I(rnd.choice("XYZH"), [nq - 1]), 0)
            else:
                progs[cid].append(ins)
            ops.append((how, d, cid, True, ins))
    return ops


def play(seed, pool, devs, builders, kw, ops):
    s = Session(seed, pool, devs, builders, kw)
    for op, d, cid, reset, ins in ops:
        if op == "reset_stim":
            # Stim: reset has no results of its own to show until the next run
            f = s.dev[d].reset if devs[d] == "stimsim" else s.dev[d].reset_backend
            f() if cid is None else f(new_seed=cid) if reset else f(cid)
            s.draws[d] = 0
            if cid is not None:
                s.seed[d] = cid
            continue
        s.do(op, d, cid, reset, ins)
    return s.evs


def case(rnd, k, length):
    pool = circuit_pool(rnd, 2)
    devs = [rnd.choice(["clifford", "clifford", "stim", "sim", "stimsim"]) for _ in range(2)]
    if k % 5 == 0:
        devs[1] = devs[0] = rnd.choice(["stim", "clifford"])
    builders = [rnd.random() < 0.4 for _ in pool]
    kw = []
    for dk in devs:
        w = {}
        if dk.startswith("stim"):
            w["batch_size"] = rnd.choice([1, 2, 3, 1024])
            if rnd.random() < 0.7:
                w["stim_seed"] = rnd.choice([0, 11])
        kw.append(w)
    ops = random_ops(rnd, pool, devs, length)
    return finish(rnd.randrange(1 << 30), pool, devs, builders, kw, ops)


def seeds(rnd):
    """Stim sessions about seeds: draws after resets, of two devices."""
    pool = circuit_pool(rnd, 1)
    pool[0] = [cg.I("H", [0, 1, 2, 3]), cg.I("M", [0, 1, 2, 3])] + pool[0]
    devs = [rnd.choice(["stim", "stimsim"]) for _ in range(2)]
    size = rnd.choice([1, 2, 64])
    kw = [{"batch_size": size} | ({"stim_seed": rnd.choice([0, 11])} if rnd.random() < 0.6 else {}) for _ in devs]
    ops = [("run", d, 0, True, None) for d in range(2)]
    for _ in range(rnd.randint(3, 6)):
        d = rnd.randrange(2)
        if rnd.random() < 0.7:
            ops.append(("reset_stim", d, rnd.choice([None, 0, 11]), rnd.random() < 0.5, None))
        ops += [("run", d, 0, True, None)] * rnd.randint(1, 3)
    return finish(rnd.randrange(1 << 30), pool, devs, [rnd.random() < 0.4], kw, ops)


def finish(seed, pool, devs, builders, kw, ops):
    evs = play(seed, pool, devs, builders, kw, ops)
    again = play(seed, pool, devs, builders, kw, ops)
    names = {"stimsim": "stim"}
    return {"circs": pool, "devs": [names.get(x, x) for x in devs], "evs": evs,
            "api": devs, "builders": builders, "kw": [str(w) for w in kw],
            "repro": strip(evs) == strip(again)}


def strip(evs):
    return [{k: v for k, v in e.items()} for e in evs]


def exhaustive(rec, depth):
    """Every history of the given length over a small operation alphabet."""
    p1 = [cg.I("X", [0]), cg.I("M", [0]), cg.I("E_ERASE", [0], [0])]
    p2 = [cg.I("H", [1]), cg.I("CX", [1, 0]), cg.I("M", [1, 0]), cg.I("R", [1])]
    alpha = [("run", 0, 0, True, None), ("run", 0, 0, False, None), ("run", 0, 1, True, None),
             ("sample", 0, 0, True, None), ("reset", 0, 0, True, None),
             ("iter+next", 0, 0, True, None), ("next", 0, 0, True, None)]
    k = 0
    for bld in (False, True):
        for seq in itertools.product(range(len(alpha)), repeat=depth):
            ops, ok, live, can = [], True, None, False
            for a in seq:
                op = alpha[a]
                if op[0] == "run":
                    if not op[3] and live not in (None, op[2]):
                        ok = False
                    live, can = op[2], False
                    ops.append(op)
                elif live is None:
                    ok = False
                elif op[0] == "iter+next":
                    ops += [("iter",) + op[1:], ("next",) + op[1:]]
                    can = True
                elif op[0] == "next":
                    ok = ok and can
                    ops.append(op)
                else:
                    if op[0] == "reset":
                        can = False
                    ops.append(op)
            if not ok:
                continue
            k += 1
            if rec.mine(k):
                rec.run(f"hist-{depth}-{k}", finish, k, [p1, p2], ["clifford"], [bld, bld],
                        [{}], ops, kind="history")


def main():
    rec = Recorder()
    for k in range(int(rec.cfg["count"])):
        if rec.mine(k):
            rnd = rec.rng("session", k)
            if k % 6 == 2:
                rec.run(f"seed-{k}", seeds, rnd, kind="session")
                continue
            rec.run(f"sess-{k}", case, rnd, k, rnd.randint(4, 14), kind="session")
    for d in range(1, int(rec.cfg.get("depth", 4)) + 1):
        exhaustive(rec, d)
    rec.close()


main()
