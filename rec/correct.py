"""Record complete error correction: errors in, corrections and verdicts out (C17)."""
import itertools

import numpy as np
import plaquette
from plaquette import Device
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.decoders import (FusionBlossomDecoder, PyMatchingDecoder, UnionFindDecoder,
                                UnionFindNoWeights)
from plaquette.decoders.decoderbase import check_success
from plaquette.device import MeasurementSample

from rec.base import Recorder, err_name
from rec.codes import MAKE
from rec.decode import frame_of
from rec.qec import choose_code, ops_of, rand_sel, spell

PLAIN = {"pm": PyMatchingDecoder, "fb": FusionBlossomDecoder, "uf": UnionFindDecoder, "ufn": UnionFindNoWeights}


def uniform(code, p, unit=False):
    """Error data under which every error is equally likely."""
    ed = {"pauli": {v.equbit_idx: {"x": p, "z": p} for v in code.lattice.dataqubits},
          "measurement": {v.equbit_idx: {"p": 2 * p if unit else p} for v in code.lattice.stabgens}}
    return ed


def decoders(code):
    out = [(k, d.from_code(code, None, weighted=False)) for k, d in PLAIN.items()]
    out += [(k + "w", PLAIN[k].from_code(code, uniform(code, 0.03), weighted=True)) for k in ("pm", "fb", "uf")]
    return out


# -- patterns of errors -----------------------------------------------------------
# e: per round {qubit: letter}; m: wrong results (round, stabilizer); era: per round set of qubits
def syndrome(code, e, m):
    R, n = code.n_rounds, code.n_data_qubits
    syn = np.zeros((R, len(code.stabilisers)), dtype=bool)
    for r in range(R):
        for i, s in enumerate(code.stabilisers):
            s = np.asarray(s)
            for q, p in e[r].items():
                syn[r, i] ^= bool((p in "XY" and s[n + q]) ^ (p in "YZ" and s[q]))
    for r, i in m:
        syn[r, i] ^= True
        syn[r + 1, i] ^= True
    return syn


def items_single(code, letters):
    R, n, S = code.n_rounds, code.n_data_qubits, len(code.stabilisers)
    for r in range(R):
        for q in range(n):
            for p in letters:
                yield [{q: p} if t == r else {} for t in range(R)], [], [[]] * R
    for r in range(R - 1):
        for i in range(S):
            yield [{}] * R, [(r, i)], [[]] * R


def items_erased(code, letters, k):
    """All erasures of k qubits in one round."""
    R, n = code.n_rounds, code.n_data_qubits
    for qs in itertools.combinations(range(n), k):
        for ps in itertools.product("I" + letters, repeat=k):
            e = {q: p for q, p in zip(qs, ps) if p != "I"}
            yield [e] + [{}] * (R - 1), [], [list(qs)] + [[]] * (R - 1)


def item_random(rnd, code, letters, d):
    R, n, S = code.n_rounds, code.n_data_qubits, len(code.stabilisers)
    over = rnd.random() < 0.1  # beyond the guarantee: only the verdict counts
    s = 0 if rnd.random() < 0.5 else rnd.randint(0, d - 1)
    t = (d - 1 - s) // 2 + (rnd.randint(1, 2) if over else 0)
    sites = [(r, q) for r in range(R) for q in range(n)]
    if rnd.random() < 0.4:  # a line of neighbours
        q0 = rnd.randrange(n)
        sites = [(rnd.randrange(R), (q0 + i) % n) for i in range(min(n, s + t + 2))]
        sites = list(dict.fromkeys(sites))
    pick = rnd.sample(sites, min(len(sites), s + t))
    e, era, m = [{} for _ in range(R)], [[] for _ in range(R)], []
    for k, (r, q) in enumerate(pick):
        if k < s:
            era[r].append(q)
            p = rnd.choice("I" + letters)
            if p != "I":
                e[r][q] = p
        elif R > 1 and rnd.random() < 0.3:
            x = (rnd.randrange(R - 1), rnd.randrange(S))
            if x not in m:
                m.append(x)
        else:
            e[r][q] = rnd.choice(letters)
    return e, m, era


def rand_toggle(rnd, code):
    sel = [2 * i + rnd.randrange(2) for i in range(code.n_logical_qubits)]
    return sel, spell(rnd, sel), [rnd.randrange(2) for _ in sel]


def run_item(rnd, code, decs, item):
    n, R = code.n_data_qubits, code.n_rounds
    e, m, era = item
    syn = syndrome(code, e, m)
    er = np.zeros((R, n), dtype=bool)
    for r in range(R):
        er[r, era[r]] = True
    out = {"e": [[[q, "IXYZ".index(p)] for q, p in sorted(x.items())] for x in e], "m": [list(x) for x in m],
           "era": [sorted(x) for x in era], "syn": syn.astype(int).tolist(), "ans": []}
    sel, logical, tog = rand_toggle(rnd, code)
    out |= {"sel": sel, "toggle": tog}
    for name, dec in decs:
        if er.any() and name.startswith("pm"):
            continue
        a = {"dec": name, "err": "", "frame": [[], []], "ok": 0}
        try:
            f = dec.decode(er, syn)
            a["frame"] = frame_of(f, n)
            a["ok"] = int(bool(check_success(code, f, np.array(tog, dtype="u1"), logical)))
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as ex:
            if type(ex).__name__ == "Hang":
                raise
            a["err"] = err_name(ex)
        out["ans"].append(a)
    return out


def patterns(rnd, fam, L, d, R, items, letters):
    code = MAKE[fam](R, L)
    decs = decoders(code)
    return {"kind": "patterns", "code": f"{fam}-{L}", "d": d, "rounds": R, **ops_of(code), "err": "",
            "items": [run_item(rnd, code, decs, i) for i in items(code)]}


# -- through the circuit ------------------------------------------------------------
def pipeline(rnd, big):
    fam, L, d, letters = rnd.choice([("planar", 3, 3, "XYZ"), ("rotated", 3, 3, "XYZ"), ("xzzx", 3, 3, "XYZ"),
                                     ("toric", 3, 3, "XYZ"), ("repetition", 5, 5, "X"), ("planar", 4, 4, "XYZ"),
                                     ("rotated", 5, 5, "XYZ"), ("repetition", 3, 3, "X"), ("repetition", 7, 7, "X")])
    R = rnd.choice([1, 1, 2, 3])
    code = MAKE[fam](R, L)
    n, S = code.n_data_qubits, len(code.stabilisers)
    # the same errors occur in every round
    while True:
        t, mm, s = rnd.randint(0, d // 2), rnd.randint(0, d // 2) if R > 1 else 0, rnd.choice([0, 0, 1, 2])
        if 2 * (t * R + mm * (R - 1)) + s * R < d:
            break
    D = [v.equbit_idx for v in code.lattice.dataqubits]
    A = [v.equbit_idx for v in code.lattice.stabgens]
    qs = rnd.sample(range(n), t + s)
    err = {q: rnd.choice(letters) for q in qs[:t]}
    if letters == "X":
        s, qs = 0, qs[:t]
    ms = rnd.sample(range(S), mm)
    q = {}
    if err:
        q["pauli"] = {D[i]: {p.lower(): 1.0} for i, p in err.items()}
    if ms:
        q["measurement"] = {A[i]: {"p": 1.0} for i in ms}
    if s:
        # one of the two simulators needs an erasure instruction for every qubit
        q["erasure"] = {D[i]: {"p": 1.0 if i in qs[t:] else 0.0} for i in range(n)}
    sel, logical, _ = rand_toggle(rnd, code)
    sel = [i & ~1 | 1 for i in sel] if letters == "X" else [2 * k + (sel[0] & 1) for k in range(len(sel))]
    logical = spell(rnd, sel)
    anc = rnd.random() < 0.4
    circ = generate_qec_circuit(code, q, {}, logical, anc)
    plaquette.rng = np.random.default_rng(rnd.randrange(2 ** 32))
    be = rnd.choice(["clifford", "stim"])
    dev = Device(be)
    e = [dict(err) for _ in range(R)]
    m = [(r, i) for r in range(R - 1) for i in ms]
    case = {"kind": "pipeline", "code": f"{fam}-{L}", "d": d, "rounds": R, **ops_of(code), "err": "", "backend": be,
            "anc": anc, "sel": sel, "e": [[[x, "IXYZ".index(p)] for x, p in sorted(y.items())] for y in e],
            "m": [list(x) for x in m], "era": [sorted(qs[t:])] * R, "runs": []}
    for _ in range(3):
        dev.run(circ)
        raw, eras = dev.get_sample()
        w = [1] * len(sel) if anc else [int(np.count_nonzero(np.asarray(code.logical_ops[i])[:n]
                                                             | np.asarray(code.logical_ops[i])[n:-1])) for i in sel]
        kw = {"logical_ops": logical} if len(set(w)) > 1 and not anc else {}
        if anc:
            kw["logical_ancilla"] = True
        r = MeasurementSample.from_code_and_raw_results(code, raw, eras, **kw)
        run = {"syn": np.asarray(r.syndrome).astype(int).tolist(),
               "era": [] if r.erased_qubits is None else np.asarray(r.erased_qubits).astype(int).tolist(),
               "toggle": np.asarray(r.logical_op_toggle).astype(int).tolist(), "ans": []}
        for name, dec in decoders(code):
            if s and name.startswith("pm"):
                continue
            a = {"dec": name, "err": "", "frame": [[], []], "ok": 0}
            try:
                f = dec.decode(r.erased_qubits, r.syndrome)
                a["frame"] = frame_of(f, n)
                a["ok"] = int(bool(check_success(code, f, r.logical_op_toggle, logical)))
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as ex:
                if type(ex).__name__ == "Hang":
                    raise
                a["err"] = err_name(ex)
            run["ans"].append(a)
        case["runs"].append(run)
    return case


# -- verdicts ----------------------------------------------------------------------
def verdict(rnd, big):
    """check_success on arbitrary corrections, toggles and selections."""
    name, code = choose_code(rnd, 1, big)
    n, k = code.n_data_qubits, code.n_logical_qubits
    items = []
    for _ in range(12):
        sel = rand_sel(rnd, k)
        logical = spell(rnd, sel)
        if rnd.random() < 0.25:
            sel, logical = list(range(2 * k)), None
        f = np.array([rnd.randrange(2) for _ in range(2 * n)] + [0], dtype="u1")
        if rnd.random() < 0.5:
            f[rnd.sample(range(2 * n), 2 * n - 2)] = 0
        f[-1] = rnd.randrange(2)
        g = f.copy()
        ops = [np.asarray(code.logical_ops[i]) for i in sel]
        tog = [int(o[:n] @ f[n:-1] + o[n:-1] @ f[:n]) % 2 for o in ops]
        if rnd.random() < 0.5:
            tog = [b ^ int(rnd.random() < 0.3) for b in tog]
        ok = check_success(code, f, np.array(tog, dtype="u1"), logical)
        items.append({"sel": sel, "frame": frame_of(f, n), "toggle": tog, "ok": int(bool(ok)),
                      "kept": int((f == g).all())})
    return {"kind": "verdict", "code": name, **ops_of(code), "err": "", "items": items}


PLAN = [  # family, size, distance, letters
    ("planar", 3, 3, "XYZ"), ("rotated", 3, 3, "XYZ"), ("xzzx", 3, 3, "XYZ"), ("toric", 3, 3, "XYZ"),
    ("repetition", 3, 3, "X"), ("repetition", 5, 5, "X"), ("planar", 2, 2, "XYZ"), ("rotated", 2, 2, "XYZ"),
    ("shor", 0, 3, "XYZ"), ("toric", 2, 2, "XYZ"), ("planar", 4, 4, "XYZ"), ("rotated", 4, 4, "XYZ"),
    ("planar", 5, 5, "XYZ"), ("rotated", 5, 5, "XYZ"), ("xzzx", 5, 5, "XYZ"), ("toric", 4, 4, "XYZ"),
    ("repetition", 7, 7, "X"), ("toric", 5, 5, "XYZ")]


def main():
    rec = Recorder()
    big, k = rec.thorough, 0
    for fam, L, d, letters in PLAN:
        for R in (1, 2, 3):
            plans = []
            if d >= 3 and (R == 1 or d == 3 or big):
                plans.append(("single", lambda c, l=letters: items_single(c, l)))
            if R == 1 and d in (2, 3):
                plans += [(f"erased{j}", lambda c, l=letters, j=j: items_erased(c, l, j)) for j in range(1, d)]
            if R == 1 and d == 4 and big:
                plans += [(f"erased{j}", lambda c, l=letters, j=j: items_erased(c, l, j)) for j in (1, 2)]
            for what, items in plans:
                # split the exhaustive list into cases of bounded size
                c0 = MAKE[fam](R, L)
                all_items = list(items(c0))
                if not big and len(all_items) > 700:
                    all_items = rec.rng(fam, L, what).sample(all_items, 500)
                for j in range(0, len(all_items), 60):
                    k += 1
                    if rec.mine(k):
                        rec.run(f"{fam}{L}-{R}-{what}-{j}", patterns, rec.rng(fam, L, R, what, j), fam, L, d, R,
                                lambda c, s=all_items[j:j + 60]: s, letters, kind="patterns", limit=120)
            for j in range(int(rec.cfg["random"])):
                k += 1
                if rec.mine(k):
                    r = rec.rng(fam, L, R, "rand", j)
                    rec.run(f"{fam}{L}-{R}-rand-{j}", patterns, r, fam, L, d, R,
                            lambda c, r=r: [item_random(r, c, letters, d) for _ in range(20)], letters,
                            kind="patterns", limit=120)
    for i in range(int(rec.cfg["pipeline"])):
        if rec.mine(i):
            rec.run(f"pipe{i}", pipeline, rec.rng("pipe", i), big, kind="pipeline")
    for i in range(int(rec.cfg["verdict"])):
        if rec.mine(i):
            rec.run(f"v{i}", verdict, rec.rng("v", i), big, kind="verdict")
    rec.close()


if __name__ == "__main__":
    main()
