"""Record how raw results are unpacked (C12)."""
import numpy as np
import plaquette
from plaquette import Device
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.device import MeasurementSample

from rec.base import Recorder, err_name
from rec.qec import choose_code, rand_errors, spell


def ints(a):
    return np.asarray(a).astype(int).tolist()


def weights(code, sel, anc):
    if anc:
        return [1] * len(sel)
    n = code.n_data_qubits
    ops = [np.asarray(code.logical_ops[i]) for i in sel]
    return [int(np.count_nonzero(o[:n] | o[n:-1])) for o in ops]


def unpack(code, sel, logical, anc, raw, eras, given):
    w = weights(code, sel, anc)
    keep = raw.copy()
    kw = {"logical_ops": logical} if given else {}
    if anc or not given:
        args = (code, raw, eras, anc) if anc else (code, raw, eras)
    else:
        args = (code, raw, eras)
    err, out = "", {}
    try:
        s = MeasurementSample.from_code_and_raw_results(*args, **kw)
        out = {"initial": ints(s.logical_op_initial), "final": ints(s.logical_op_final),
               "toggle": ints(s.logical_op_toggle), "gens": ints(s.stabilizer_gen),
               "syndrome": ints(s.syndrome),
               "eras": [] if s.erased_qubits is None else ints(s.erased_qubits)}
    except Exception as e:
        err = err_name(e)
    return {"w": w, "nstab": int(code.n_stabgens), "rounds": int(code.n_rounds), "n": int(code.n_data_qubits),
            "raw": ints(keep), "eras": [] if eras is None else ints(eras), "err": err, "out": out,
            "intact": bool(np.array_equal(raw, keep)), "sel": list(sel), "anc": anc, "given": given}


def rand_selection(rnd, code):
    for _ in range(20):
        sel = [2 * i + rnd.randrange(2) for i in range(code.n_logical_qubits)]
        if rnd.random() < 0.5:
            rnd.shuffle(sel)
        return sel
    return sel


def synthetic(rnd, big):
    name, code = choose_code(rnd, rnd.choice([1, 2, 3, 5]), big)
    sel = rand_selection(rnd, code)
    anc = rnd.random() < 0.4
    w = weights(code, sel, anc)
    given = anc is False and (len(set(w)) > 1 or rnd.random() < 0.5)
    n = 2 * sum(w) + (code.n_rounds + 1) * code.n_stabgens
    bad = rnd.random() < 0.15
    if bad:
        n = max(0, n + rnd.choice([-1, 1, -code.n_stabgens - 1, 3]))
        given = not anc
    raw = np.array([rnd.randrange(2) for _ in range(n)], dtype=rnd.choice(["u1", "u1", bool]))
    eras = None
    if rnd.random() < 0.6:
        m = code.n_rounds * code.n_data_qubits
        if not bad and rnd.random() < 0.1:
            m += rnd.choice([-1, 1, code.n_data_qubits])
        m = max(1, m)
        eras = np.array([rnd.randrange(2) for _ in range(m)], dtype=bool)
    return {"code": name} | unpack(code, sel, spell(rnd, sel), anc, raw, eras, given)


def simulated(rnd, big):
    """Results of a real run; every data qubit can be erased."""
    name, code = choose_code(rnd, rnd.choice([1, 2, 3]), big)
    sel = rand_selection(rnd, code)
    anc = rnd.random() < 0.4
    q, g = rand_errors(rnd, code)
    if rnd.random() < 0.5:
        q["erasure"] = {d.equbit_idx: {"p": rnd.choice([0.5, 0.9, 1.0])} for d in code.lattice.dataqubits}
    else:
        q.pop("erasure", None)
    logical = spell(rnd, sel)
    try:
        circ = generate_qec_circuit(code, q, g, logical, anc)
    except (ValueError, NotImplementedError):
        return None  # operators that cannot be measured (C10)
    plaquette.rng = np.random.default_rng(rnd.randrange(2 ** 32))
    dev = Device(rnd.choice(["clifford", "stim"]))
    dev.run(circ)
    raw, eras = dev.get_sample()
    given = not anc and (len(set(weights(code, sel, anc))) > 1 or rnd.random() < 0.5)
    return {"code": name} | unpack(code, sel, logical, anc, raw, eras, given)


def main():
    rec = Recorder()
    for i in range(int(rec.cfg["count"])):
        if rec.mine(i):
            rec.run(f"s{i}", synthetic, rec.rng("s", i), rec.thorough, kind="sample")
            rec.run(f"d{i}", simulated, rec.rng("d", i), False, kind="sample")
    rec.close()


if __name__ == "__main__":
    main()
