"""Record generated QEC circuits (C10, C11)."""
import copy
import itertools

from plaquette.circuit.generator import QECCircuitGenerator, generate_qec_circuit
from plaquette.codes import LatticeCode

from rec.base import Recorder, err_name, op_json
from rec.codes import MAKE, rand_code, vec

NARGS = {"E_ERASE": 1, "E_PAULI": 3, "E_PAULI2": 15}


def prog_of(circ):
    out = []
    for g, a in circ.gates:
        a = list(a)
        p, i = [], ""
        if g in NARGS:
            p, a = a[:NARGS[g]], a[NARGS[g]:]
        elif g in ("ERROR", "ERROR_ELSE"):
            p, i, a = a[:1], a[1], a[2:]
        elif g == "ERROR_CONTINUE":
            i, a = a[0], a[1:]
        if g != "E_ERASE" and p and not any(p):
            continue  # an error of probability zero is no error
        p = [repr(float(v)) for v in p]
        step = {"CX": 2, "CZ": 2, "E_PAULI2": 2}.get(g, 1)
        for k in range(0, len(a), step):  # broadcast instructions one by one
            out.append({"g": g, "q": [int(q) for q in a[k:k + step]], "p": p, "i": i})
    return out


def ops_of(code):
    return {"n": int(code.n_data_qubits), "stabs": [op_json(s) for s in code.stabilisers],
            "logs": [op_json(s) for s in code.logical_ops]}


def spell(rnd, sel):
    """The same selection as letters or as indices."""
    byname = all(i // 2 == k for k, i in enumerate(sel))
    if byname and rnd.random() < 0.6:
        return "".join("XZ"[i % 2] for i in sel)
    r = rnd.random()
    return list(sel) if r < 0.7 else tuple(sel)


def random_latticecode(rnd, rounds):
    css = rnd.random() < 0.4
    n, ops, logs = rand_code(rnd, css, 3 if css else 1)
    if rnd.random() < 0.7:  # no Y factors: conjugate Y away where possible
        for q in range(n):
            ys = [o for o in ops + logs if q in o[0] and q in o[1]]
            xs = [o for o in ops + logs if q in o[0] and q not in o[1]]
            zs = [o for o in ops + logs if q in o[1] and q not in o[0]]
            if ys and not xs:
                for o in ys:
                    o[1] -= {q}
            elif ys and not zs:
                for o in ys:
                    o[0] -= {q}
    free = set(range(n)) - set().union(*[o[0] for o in logs])
    if free and rnd.random() < 0.25:  # Y factors, but not in the logical operators
        q = rnd.choice(sorted(free))
        for o in ops:
            if q in o[0]:
                o[1] ^= {q}
    return LatticeCode.from_operators([vec(n, o) for o in ops], [vec(n, o) for o in logs], rounds)


def measures_all(code):
    """Whether the time steps of the edges measure the operators (and not something else)."""
    lat = code.lattice
    at = [{e.data.dataqubit_idx: (e.factor, e.measurement_time_step, i) for i, e in enumerate(lat.edges) if e.op is v}
          for v in lat.stabgens]
    return all(sum((a[q][0] != b[q][0]) and a[q][1:] < b[q][1:] for q in set(a) & set(b)) % 2 == 0
               for a, b in itertools.combinations(at, 2))


def schedule(rnd, code):
    """Give the operators of a code time steps: any that measure them, or some but not all."""
    lat = code.lattice
    edges = [e for v in lat.stabgens for e in v.edges]
    r = rnd.random()
    if r < 0.4:
        return ""
    if r < 0.5:  # not all edges have one
        for e in edges:
            e.measurement_time_step = rnd.choice([None, 0, 1])
        rnd.choice(edges).measurement_time_step = None
        lat.n_time_steps = 2
        return "-unscheduled"
    for _ in range(20):
        n = rnd.randint(1, 2 + max(len(v.edges) for v in lat.stabgens))
        for e in edges:
            e.measurement_time_step = rnd.randrange(n)
        if measures_all(code):
            break
    else:  # one operator after another
        n = 0
        for v in rnd.sample(lat.stabgens, len(lat.stabgens)):
            for e in rnd.sample(v.edges, len(v.edges)):
                e.measurement_time_step = n
                n += rnd.random() < 0.6
            n += 1
    lat.n_time_steps = n
    return "-scheduled"


def choose_code(rnd, rounds, big):
    r = rnd.random()
    if r < 0.3:
        code = random_latticecode(rnd, rounds)
        return "random" + schedule(rnd, code), code
    fam, sizes = rnd.choice([("repetition", [3, 5, 7]), ("toric", [2, 3]), ("planar", [2, 3]),
                             ("rotated", [2, 3, 4]), ("xzzx", [2, 3, 4]), ("five", [0]), ("shor", [0])])
    L = rnd.choice(sizes + ([sizes[-1] + (2 if fam == "repetition" else 1)] if big else []))
    code = MAKE[fam](rounds, L)
    name = f"{fam}-{L}"
    if r > 0.6 and fam not in ("five", "shor", "repetition"):
        lat = code.lattice
        S, D = lat.stabgens, lat.dataqubits
        q = [D[i] for i in rnd.sample(range(len(D)), rnd.choice([0, 1, 1, 2]))]
        t = [rnd.choice(S)] if rnd.random() < 0.3 else []
        g = []
        if rnd.random() < 0.3:
            v = rnd.choice(S)
            g = [(v, rnd.choice(v.neighbours))]
        P = lambda v: tuple(v.pos)  # noqa: E731
        name += f"-fab{[v.equbit_idx for v in q + t]}{[(a.equbit_idx, b.equbit_idx) for a, b in g]}"
        try:
            code.apply_fabrication_errors(faulty_qubits=[P(v) for v in q],
                                          faulty_gates=[(P(a), P(b)) for a, b in g],
                                          faulty_stabilizers=[P(v) for v in t])
            code.n_data_qubits + code.stabilisers[0].size
        except Exception:
            code = MAKE[fam](rounds, L)
            name = f"{fam}-{L}"
    return name, code


def noisefree(name, code, sel, anc, rnd):
    base = {"kind": "noisefree", "code": name, "rounds": int(code.n_rounds), "sel": list(sel),
            "anc": anc, "err": "", "prog": [], **ops_of(code)}
    try:
        circ, _ = generate(rnd, code, {}, {}, spell(rnd, sel), anc)
    except Exception as e:
        return base | {"err": err_name(e)}
    return base | {"prog": prog_of(circ)}


def generate(rnd, code, q, g, logical, anc):
    """The circuit, by one of the ways to ask for it, and whether earlier ones were kept."""
    if rnd.random() < 0.5:
        return generate_qec_circuit(code, q, g, logical, anc), True
    gen = QECCircuitGenerator(code, q, g, anc)
    if rnd.random() < 0.4:
        return gen.get_circuit(logical), True
    # a generator that was used before (also for a selection that is refused)
    first, text = None, ""
    try:
        first = gen.get_circuit(spell(rnd, rand_sel(rnd, code.n_logical_qubits)))
        text = str(first)
    except Exception:
        pass
    circ = gen.get_circuit(logical)
    return circ, first is None or str(first) == text


def builtin_case(rnd, fam, L, rounds, sel, anc):
    return noisefree(f"{fam}-{L}", MAKE[fam](rounds, L), sel, anc, rnd)


def rand_sel(rnd, k):
    if k >= 2 and rnd.random() < 0.4:
        # logical qubits in any order, possibly with one anticommuting pair anywhere
        sel = [2 * i + rnd.randrange(2) for i in rnd.sample(range(k), k)]
        if rnd.random() < 0.6:
            i, j = rnd.sample(range(k), 2)
            sel[j] = sel[i] ^ 1
        return sel
    if rnd.random() < 0.8:
        return [2 * i + rnd.randrange(2) for i in range(k)]
    return [rnd.randrange(2 * k) for _ in range(k)]


def random_case(rnd, big):
    rounds = rnd.choice([1, 1, 2, 3])
    name, code = choose_code(rnd, rounds, big)
    return noisefree(name, code, rand_sel(rnd, code.n_logical_qubits), rnd.random() < 0.5, rnd)


# -- error data ----------------------------------------------------------------
def prob(rnd):
    r = rnd.random()
    return 0.0 if r < 0.1 else rnd.choice([0.25, 0.5, 1.0]) if r < 0.2 else rnd.random() / 16


def channel(rnd, keys, total):
    ks = [k for k in keys if rnd.random() < total] or [rnd.choice(keys)]
    if rnd.random() < 0.5:
        rnd.shuffle(ks)
    return {k: prob(rnd) / (1 if len(ks) == 1 else len(ks)) for k in ks}


TWO = [a + b for a in "ixyz" for b in "ixyz"][1:]


def rand_errors(rnd, code):
    lat = code.lattice
    D = [v.equbit_idx for v in lat.dataqubits]
    S = [v.equbit_idx for v in lat.stabgens]
    dens = rnd.choice([0.2, 0.6, 1.0])
    some = lambda xs: [x for x in xs if rnd.random() < dens]  # noqa: E731
    q, g = {}, {}
    if rnd.random() < 0.7:
        q["pauli"] = {d: channel(rnd, "xyz", 0.6) for d in some(D)}
    if rnd.random() < 0.6:
        q["erasure"] = {d: {"p": prob(rnd)} for d in some(D)}
    if rnd.random() < 0.7:
        q["measurement"] = {s: {"p": prob(rnd)} for s in some(S)}
    for k in "HRM":
        if rnd.random() < 0.5:
            g[k] = {s: channel(rnd, "xyz", 0.6) for s in some(S)}
    for k in ("CX", "CZ"):
        if rnd.random() < 0.6:
            g[k] = {(e.op.equbit_idx, e.data.equbit_idx): channel(rnd, TWO, rnd.choice([0.1, 0.9]))
                    for e in some(list(lat.edges)) if e.op in lat.stabgens}
    return q, g


def err_json(q, g):
    s = lambda v: repr(float(v))  # noqa: E731
    nz = lambda es: [e for e in es if any(float(p) for p in e["p"])]  # noqa: E731
    out = {
        "pauli": nz([{"q": [k], "p": [s(v.get(a, 0)) for a in "xyz"]} for k, v in q.get("pauli", {}).items()]),
        "erasure": [{"q": [k], "p": [s(v["p"])]} for k, v in q.get("erasure", {}).items()],
        "measurement": nz([{"q": [k], "p": [s(v["p"])]} for k, v in q.get("measurement", {}).items()]),
    }
    for k in "HRM":
        out[k] = nz([{"q": [a], "p": [s(v.get(c, 0)) for c in "xyz"]} for a, v in g.get(k, {}).items()])
    for k in ("CX", "CZ"):
        out[k] = nz([{"q": list(a), "p": [s(v.get(c, 0)) for c in TWO]} for a, v in g.get(k, {}).items()])
    return out


def noisy_case(rnd, big):
    rounds = rnd.choice([1, 2, 3, 4])
    name, code = choose_code(rnd, rounds, big)
    sel = rand_sel(rnd, code.n_logical_qubits)
    anc = rnd.random() < 0.4
    q, g = rand_errors(rnd, code)
    errs = err_json(q, g)
    logical = spell(rnd, sel)
    before = ops_of(code)
    case = noisefree(name, code, sel, anc, rnd) | {"kind": "noisy", "errs": errs, "noisy": [], "kept": 1}
    if case["err"]:
        return case
    q1, g1 = copy.deepcopy(q), copy.deepcopy(g)
    try:
        circ, same = generate(rnd, code, q1, g1, logical, anc)
    except Exception as e:
        return case | {"err": err_name(e)}
    return case | {"noisy": prog_of(circ), "kept": int(same and q1 == q and g1 == g and ops_of(code) == before)}


def request_case(rnd):
    """Requests with one defect (or none) in the error data or the selection."""
    rounds = rnd.choice([1, 2])
    fam, L = rnd.choice([("planar", 2), ("rotated", 3), ("toric", 2), ("repetition", 3)])
    code = MAKE[fam](rounds, L)
    lat = code.lattice
    k = code.n_logical_qubits
    q, g = rand_errors(rnd, code)
    sel = [2 * i + rnd.randrange(2) for i in range(k)]
    D = [v.equbit_idx for v in lat.dataqubits]
    S = [v.equbit_idx for v in lat.stabgens]
    Lg = [v.equbit_idx for v in lat.logical_ops]
    what = rnd.choice(["none", "none", "qkey", "gkey", "pq", "eq", "mq", "pk", "ek", "mk", "hq", "hk", "cxa",
                       "cxd", "cxk", "len", "letter", "index", "far"])
    out = [len(lat.equbits), -1, 10 ** 6]
    if what == "qkey":
        q[rnd.choice(["Pauli", "x", "erasures", "CX"])] = {}
    elif what == "gkey":
        g[rnd.choice(["CY", "pauli", "X", "cx"])] = {}
    elif what == "pq":
        q["pauli"] = {rnd.choice(S + Lg + out): {"x": 0.1}}
    elif what == "eq":
        q["erasure"] = {rnd.choice(S + Lg + out): {"p": 0.1}}
    elif what == "mq":
        q["measurement"] = {rnd.choice(D + Lg + out): {"p": 0.1}}
    elif what == "pk":
        q["pauli"] = {D[0]: {rnd.choice(["X", "p", "w", "i"]): 0.1}}
    elif what == "ek":
        q["erasure"] = {D[0]: {"p": 0.1, rnd.choice(["P", "x"]): 0.1}}
    elif what == "mk":
        q["measurement"] = {S[0]: {"p": 0.1, rnd.choice(["P", "x"]): 0.1}}
    elif what == "hq":
        g[rnd.choice("HRM")] = {rnd.choice(D + Lg + out): {"x": 0.1}}
    elif what == "hk":
        g[rnd.choice("HRM")] = {S[0]: {rnd.choice(["X", "p", "xx"]): 0.1}}
    elif what == "cxa":
        g[rnd.choice(["CX", "CZ"])] = {(rnd.choice(D + Lg + out), D[0]): {"xx": 0.1}}
    elif what == "cxd":
        g[rnd.choice(["CX", "CZ"])] = {(S[0], rnd.choice(S + Lg + out)): {"xx": 0.1}}
    elif what == "cxk":
        g[rnd.choice(["CX", "CZ"])] = {(S[0], D[0]): {rnd.choice(["x", "XX", "ii", "p"]): 0.1}}
    elif what == "len":
        sel = sel[:-1] if rnd.random() < 0.5 else sel + [0]
    elif what == "letter":
        sel = "".join(rnd.choice("YIx") for _ in range(k))
    elif what == "index":
        sel[0] = rnd.choice([-1, 2 * k, 2 * k + 5])
    elif what == "far":
        sel = [0, 1] if k == 2 else [0, 1]
    valid = what == "none"
    err = ""
    try:
        generate_qec_circuit(code, q, g, sel if isinstance(sel, str) else list(sel), rnd.random() < 0.5)
    except Exception as e:
        err = err_name(e)
    return {"kind": "request", "what": what, "valid": valid, "err": err, "code": f"{fam}-{L}",
            "n": 1, "stabs": [], "logs": [], "sel": [], "rounds": 1, "anc": False, "prog": []}


def main():
    rec = Recorder()
    mode = rec.cfg["mode"]
    k = 0
    if mode == "noisefree":
        fams = [("repetition", [3, 5, 7]), ("toric", [2, 3]), ("planar", [2, 3, 4]), ("rotated", [2, 3, 4, 5]),
                ("xzzx", [2, 3, 4, 5]), ("five", [0]), ("shor", [0])]
        for fam, ls in fams:
            for L in ls + ([ls[-1] + 2] if rec.thorough and fam not in ("five", "shor") else []):
                kq = 2 if fam == "toric" else 1
                for sel in itertools.product(*[[2 * i, 2 * i + 1] for i in range(kq)]):
                    for anc in (False, True):
                        for rounds in ([1, 2, 3] if L <= 3 else [2]):
                            k += 1
                            if rec.mine(k):
                                cid = f"{fam}-{L}-{rounds}-{''.join(map(str, sel))}-{int(anc)}"
                                rec.run(cid, builtin_case, rec.rng(cid), fam, L, rounds, list(sel), anc,
                                        kind="noisefree")
        for i in range(int(rec.cfg["count"])):
            if rec.mine(i):
                rec.run(f"r{i}", random_case, rec.rng("nf", i), rec.thorough, kind="noisefree")
    else:
        for i in range(int(rec.cfg["count"])):
            if rec.mine(i):
                rec.run(f"n{i}", noisy_case, rec.rng("ny", i), rec.thorough, kind="noisy")
        for i in range(int(rec.cfg["count"])):
            if rec.mine(i):
                rec.run(f"q{i}", request_case, rec.rng("rq", i), kind="request")
    rec.close()


if __name__ == "__main__":
    main()
