"""Record what the Stim backend does with random programs."""
from collections import Counter
from fractions import Fraction

import numpy as np
import plaquette
from plaquette import circuit as pc
from plaquette.device import Device

from rec import circuit_gen as cg
from rec.base import Recorder, RecorderBug, err_name

PD = 4
KNOWN = {"X", "Y", "Z", "H", "CX", "CZ", "M", "R", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2",
         "DEPOLARIZE1", "X_ERROR", "Y_ERROR", "Z_ERROR", "E", "ELSE_CORRELATED_ERROR"}


def frac(x):
    f = Fraction(x).limit_denominator(5000)
    if abs(float(f) - x) > 1e-12:
        return None
    return [f.numerator, f.denominator]


def translated(circ):
    """The program given to Stim, or None when it cannot be interpreted here."""
    try:
        from plaquette.device._stimsim import circuit_to_stim
        sc, flags = circuit_to_stim(circ)
        out = []
        for ins in sc:
            name = {"CORRELATED_ERROR": "E"}.get(ins.name, ins.name)
            if name not in KNOWN:
                return None
            args = [frac(a) for a in ins.gate_args_copy()]
            if None in args:
                return None
            ts = []
            for t in ins.targets_copy():
                if name in ("E", "ELSE_CORRELATED_ERROR"):
                    code = 1 if t.is_x_target else 2 if t.is_y_target else 3
                    ts.append([code, t.value])
                elif t.is_qubit_target:
                    ts.append(t.value)
                else:
                    return None
            if name in ("M",) and args:
                return None
            out.append({"g": name, "t": ts, "a": args})
        return out, [bool(f) for f in flags], sc.num_qubits
    except (ImportError, AttributeError, TypeError):
        return None


def bits(prog):
    """Rough log2 of the number of branches / of the denominators."""
    b = 0.0
    for i in prog:
        g = i["g"]
        k = len(i["q"])
        if g == "ERROR":
            b += 2
        elif g == "DEPOLARIZE" or i["i"] == "DEPOLARIZE":
            b += 1.6 * k
        elif g == "E_PAULI":
            b += 2
        elif g == "E_PAULI2":
            b += 4
        elif g == "E_ERASE":
            b += 4
        elif g in ("M", "R"):
            b += 0.5 * k
        elif g.startswith("ERROR"):
            b += 2
    return b


def case(rnd, k, shots, budget):
    while True:
        n = rnd.choice([1, 2, 2, 3, 3, 4])
        prog = []
        for _ in range(rnd.randint(1, 3)):
            prog.append(cg.rand_unitary(rnd, n))
        for _ in range(rnd.randint(2, 9)):
            r = rnd.random()
            if r < 0.45:
                blk = cg.rand_noise(rnd, n, PD)
                if rnd.random() < 0.85:
                    # mostly what Stim supports
                    if blk[0]["g"] == "ERROR":
                        blk = [cg.I("ERROR", [rnd.randrange(n)], [rnd.choice([0, 1, 2, 4])],
                                    rnd.choice("XYZ"))]
                prog += blk
            elif r < 0.75:
                prog.append(cg.rand_unitary(rnd, n))
            else:
                prog.append(cg.rand_meas(rnd, n))
        prog.append(cg.I("M", rnd.sample(range(n), n)))
        if k % 9 == 0 and not any(i["g"].startswith("ERROR") for i in prog):
            prog.insert(2, cg.I("DEPOLARIZE", [rnd.randrange(n)]))
        if bits(prog) <= budget:
            break
    circ = cg.build(prog, PD)
    # Stim reorders nothing, but qubits never named do not exist: name them all
    plaquette.rng = np.random.default_rng([k, 77])
    res = {"n": max(n, circ.number_of_qubits), "prog": prog, "stim": [], "ns": 1,
           "flags": [], "freq": [], "shots": 0, "err": ""}
    bs = rnd.choice([1, 7, 64, 1024])
    kw = {"batch_size": bs}
    if rnd.random() < 0.5:
        kw["stim_seed"] = rnd.randrange(1 << 30)
    dev = Device("stim", **kw)
    try:
        cnt = Counter()
        nsh = shots if bs > 1 else shots // 8
        for _ in range(nsh):
            dev.run(circ)
            raw, er = dev.get_sample()
            cnt[(tuple(int(x) for x in raw), () if er is None else tuple(int(x) for x in er))] += 1
        res["shots"] = nsh
        res["freq"] = [[list(m), list(e), c] for (m, e), c in sorted(cnt.items())]
    except RecorderBug:
        raise
    except Exception as e:
        res["err"] = err_name(e)
        return res
    t = translated(circ)
    if t is not None:
        res["stim"], res["flags"], res["ns"] = t
    return res


def main():
    rec = Recorder()
    for k in range(int(rec.cfg["count"])):
        if rec.mine(k):
            rnd = rec.rng("stim", k)
            rec.run(f"stim-{k}", case, rnd, k, int(rec.cfg["shots"]), rec.cfg.get("budget", 12),
                    kind="stim", limit=200)
    rec.close()


main()
