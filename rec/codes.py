"""Record built-in codes and codes from operators (C07)."""
import numpy as np
from plaquette.codes import LatticeCode, StabilizerCode
from plaquette.codes import latticebase as lb

from rec.base import Recorder, err_name, op_json

MAKE = {
    "repetition": lambda r, L: LatticeCode.make_repetition(r, L),
    "toric": lambda r, L: LatticeCode.make_toric(r, L),
    "planar": lambda r, L: LatticeCode.make_planar(r, L),
    "rotated": lambda r, L: LatticeCode.make_rotated_planar(r, L),
    "xzzx": lambda r, L: LatticeCode.make_rotated_planar(r, L, xzzx=True),
    "five": lambda r, L: LatticeCode.make_five_qubit(r),
    "shor": lambda r, L: LatticeCode.make_shor(r),
}


def attempt(f):
    try:
        f()
        return ""
    except Exception as e:
        return err_name(e)


def lattice_ops(lat):
    """Operators read off the edges of the lattice itself."""
    out = []
    for ops in (lat.stabgens, lat.logical_ops):
        rows = []
        for v in ops:
            x, z = set(), set()
            for e in v.edges:
                q = e.data.dataqubit_idx
                if e.factor in (lb.Pauli.X, lb.Pauli.Y):
                    x ^= {q}
                if e.factor in (lb.Pauli.Z, lb.Pauli.Y):
                    z ^= {q}
            rows.append([sorted(x), sorted(z), 0])
        out.append(rows)
    return out


def show(code, rounds):
    stabs = [op_json(s) for s in code.stabilisers]
    logs = [op_json(s) for s in code.logical_ops]
    lat = code.lattice
    n = len(lat.dataqubits)
    eq = [v.equbit_idx for v in lat.equbits]
    al = (lattice_ops(lat) == [stabs, logs] and eq == list(range(len(eq)))
          and [v.dataqubit_idx for v in lat.dataqubits] == list(range(n))
          and [v.stabgen_idx for v in lat.stabgens] == list(range(len(stabs)))
          and [v.logical_idx for v in lat.logical_ops] == list(range(len(logs)))
          and list(lat.equbits) == [*lat.dataqubits, *lat.stabgens, *lat.logical_ops]
          and all(lat.lattice[v.pos] is v for v in lat.vertices))
    plain = StabilizerCode.from_codelattice(lat)
    al = (al and plain == code and code == plain and not plain != code
          and [op_json(s) for s in plain.stabilisers] == stabs and [op_json(s) for s in plain.logical_ops] == logs
          and (plain.n_data_qubits, plain.n_stabgens, plain.n_logical_ops, plain.n_logical_qubits, plain.n_ext_qubits)
          == (n, len(stabs), len(logs), len(logs) // 2, n + len(stabs) + len(logs)))
    return {
        "n": n, "stabs": stabs, "logs": logs,
        "pos": [[int(x) for x in q.pos] for q in lat.dataqubits],
        "counts": {"n_data": int(code.n_data_qubits), "n_stab": int(code.n_stabgens),
                   "n_log": int(code.n_logical_ops), "k": int(code.n_logical_qubits),
                   "n_ext": int(code.n_ext_qubits)},
        "lx": [op_json(s) for s in code.logical_x], "lz": [op_json(s) for s in code.logical_z],
        "rounds": rounds, "rounds_shown": int(code.n_rounds),
        "check": attempt(code.check), "check_rank": attempt(lambda: code.check(rank=True)),
        "aligned": bool(al), "err": "",
    }


def builtin(fam, size, rounds):
    base = {"kind": "builtin", "family": fam, "size": size}
    try:
        code = MAKE[fam](rounds, size)
        code = (code, show(code, rounds))[1]
    except Exception as e:
        return base | {"err": err_name(e)}
    return base | code


def refuse(size):
    return {"kind": "refuse", "err": attempt(lambda: LatticeCode.make_repetition(1, size))}


# -- random codes ------------------------------------------------------------
def rand_code(rnd, css=False, kmin=1):
    """A random valid code by random Clifford conjugation of a trivial one."""
    n = rnd.randint(max(2, kmin + 1), 7)
    k = rnd.randint(kmin, n - 1)
    ops = [[set(), {i}] for i in range(n - k)]
    logs = []
    for i in range(n - k, n):
        logs += [[{i}, set()], [set(), {i}]]
    every = ops + logs
    for _ in range(rnd.randint(0, 12)):
        g = "CX" if css else rnd.choice(["H", "S", "CX"])
        if g == "H":
            q = rnd.randrange(n)
            for o in every:
                a, b = q in o[0], q in o[1]
                if a != b:
                    o[0] ^= {q}
                    o[1] ^= {q}
        elif g == "S":
            q = rnd.randrange(n)
            for o in every:
                if q in o[0]:
                    o[1] ^= {q}
        else:
            a, b = rnd.sample(range(n), 2)
            for o in every:
                if a in o[0]:
                    o[0] ^= {b}
                if b in o[1]:
                    o[1] ^= {a}
    if rnd.random() < 0.3 and len(ops) > 1:  # mix generators
        i, j = rnd.sample(range(len(ops)), 2)
        ops[i] = [ops[i][0] ^ ops[j][0], ops[i][1] ^ ops[j][1]]
    if rnd.random() < 0.25 and len(ops) > 1:  # redundant generator
        i, j = rnd.sample(range(len(ops)), 2)
        ops.append([ops[i][0] ^ ops[j][0], ops[i][1] ^ ops[j][1]])
    return n, ops, logs


def some_code(rnd):
    """A random code, or the operators of a built-in one."""
    if rnd.random() < 0.75:
        return rand_code(rnd)
    fam = rnd.choice(sorted(MAKE))
    code = MAKE[fam](1, rnd.choice([3, 5, 7]) if fam == "repetition" else rnd.choice([2, 2, 3]))
    n = code.n_data_qubits
    ops, logs = ([[set(p) for p in op_json(o)[:2]] for o in os] for os in (code.stabilisers, code.logical_ops))
    return n, ops, logs


def spoil(rnd, n, ops, logs):
    r = rnd.random()
    if r < 0.25 and len(ops) > 1:
        ops.pop(rnd.randrange(len(ops)))
    elif r < 0.85:
        o = rnd.choice(ops + logs)
        q = rnd.randrange(n)
        o[rnd.randrange(2)] ^= {q}
        if not (o[0] or o[1]):
            o[0] |= {q}
    else:
        i, j = rnd.sample(range(len(logs)), 2)
        logs[i], logs[j] = logs[j], logs[i]


def vec(n, o, s=0):
    v = np.zeros(2 * n + 1, dtype=np.uint8)
    v[list(o[0])] = 1
    v[[n + q for q in o[1]]] = 1
    v[-1] = s
    return v


def js(o):
    return [sorted(o[0]), sorted(o[1]), 0]


def fromops(rnd):
    n, ops, logs = some_code(rnd)
    if rnd.random() < 0.5:
        spoil(rnd, n, ops, logs)
    rounds = rnd.choice([0, 1, 2, 5])
    given = {"n": n, "stabs": [js(o) for o in ops], "logs": [js(o) for o in logs]}
    base = {"kind": "fromops", "given": given}
    try:
        code = LatticeCode.from_operators([vec(n, o) for o in ops], [vec(n, o) for o in logs], rounds)
        return base | show(code, rounds)
    except Exception as e:
        return base | given | {"err": err_name(e)}


def equal(rnd):
    n, ops, logs = some_code(rnd)
    a = ([vec(n, o) for o in ops], [vec(n, o) for o in logs])
    m, ops2, logs2 = n, [[set(o[0]), set(o[1])] for o in ops], [[set(o[0]), set(o[1])] for o in logs]
    r = rnd.random()
    if r < 0.4:
        spoil(rnd, n, ops2, logs2)
    elif r < 0.55 and len(ops2) > 1:
        ops2.pop()
    elif r < 0.65 and len(logs2) > 2:
        logs2 = logs2[:-2]
    elif r < 0.75:
        m, ops2, logs2 = rand_code(rnd)
    elif r < 0.82:
        rnd.shuffle(rnd.choice([ops2, logs2]))
    b = ([vec(m, o) for o in ops2], [vec(m, o) for o in logs2])
    x, y = StabilizerCode(*a), StabilizerCode(*b)
    return {"kind": "equal", "a": {"n": n, "stabs": [js(o) for o in ops], "logs": [js(o) for o in logs]},
            "b": {"n": m, "stabs": [js(o) for o in ops2], "logs": [js(o) for o in logs2]},
            "eq": bool(x == y), "ne": bool(x != y)}


def select(rnd):
    n, ops, logs = rand_code(rnd)
    code = StabilizerCode([vec(n, o) for o in ops], [vec(n, o) for o in logs])
    k = len(logs) // 2
    ln = k if rnd.random() < 0.75 else rnd.randint(0, k + 1)
    byname = rnd.random() < 0.5
    if byname:
        sel = [rnd.choice("XZ" if rnd.random() < 0.9 else "XZYIx") for _ in range(ln)]
    else:
        sel = [rnd.randrange(2 * k) if rnd.random() < 0.9 else rnd.choice([-1, 2 * k, 2 * k + 3])
               for _ in range(ln)]
    out = {"kind": "select", "k": k, "sel": sel, "byname": byname, "err": "", "got": []}
    try:
        got = code.logical_ops_to_indices("".join(sel) if byname else sel)
        out["got"] = [int(i) for i in got]
    except Exception as e:
        out["err"] = err_name(e)
    return out


def signed(rnd):
    """Operators with signs; a generator may be there twice, with both signs."""
    n, ops, logs = some_code(rnd)
    r = rnd.random()
    if r < 0.3:
        spoil(rnd, n, ops, logs)
    elif r < 0.7 and len(ops) > 1:
        i, j = rnd.sample(range(len(ops)), 2)
        ops[i] = ops[j]
    sign = lambda: rnd.choice([0, 0, 1])  # noqa: E731
    stabs, given_logs = [vec(n, o, sign()) for o in ops], [vec(n, o, sign()) for o in logs]
    code = StabilizerCode(stabs, given_logs)
    how = rnd.choice(["operators", "texts"])
    if how == "operators":
        lat = LatticeCode.from_operators(stabs, given_logs, 1).lattice
    else:   # with "+", "-" or without a sign
        txt = lambda o: (rnd.choice(["", "+", "-"]) +  # noqa: E731
                         "".join("IXZY"[(q in o[0]) + 2 * (q in o[1])] for q in range(n)))
        lat = lb.CodeLatticeFromStab(n, [txt(o) for o in ops], [txt(o) for o in logs])
    return {"kind": "signed", "given": {"n": n, "stabs": [js(o) for o in ops], "logs": [js(o) for o in logs]},
            "made": {"n": len(lat.dataqubits), "stabs": [op_json(o) for o in lat.stabilisers],
                     "logs": [op_json(o) for o in lat.logical_operators]},
            "check": attempt(code.check), "check_rank": attempt(lambda: code.check(rank=True))}


def misfit(rnd):
    """Operators that are not those of any code."""
    n, ops, logs = rand_code(rnd)
    how = rnd.choice(["odd", "odd", "longer", "shorter"])
    lat = rnd.random() < 0.5
    a, b = [vec(n, o) for o in ops], [vec(n, o) for o in logs]
    if how == "odd":
        b.pop(rnd.randrange(len(b)))
    else:
        m = n + 1 if how == "longer" else max(max((q for o in ops + logs for p in o for q in p), default=0), 1)
        if how == "shorter" and m >= n:
            m = n + 2
        b = [vec(m, [{q for q in p if q < m} for p in o]) for o in logs]
    make = (lambda: LatticeCode.from_operators(a, b, 1)) if lat else (lambda: StabilizerCode(a, b))
    return {"kind": "refuse", "what": f"{how} {'lattice' if lat else 'plain'}", "err": attempt(make)}


def main():
    rec = Recorder()
    big = rec.thorough
    sizes = {
        "repetition": [3, 5, 7, 9, 15] + [21, 41] * big, "toric": [2, 3, 4, 5] + [6, 7] * big,
        "planar": [2, 3, 4, 5, 6] + [7, 8] * big, "rotated": [2, 3, 4, 5, 6, 7] + [8, 9] * big,
        "xzzx": [2, 3, 4, 5, 6, 7] + [8, 9] * big, "five": [0], "shor": [0],
    }
    k = 0
    for fam, ls in sizes.items():
        for L in ls:
            for r in (1, 4):
                k += 1
                if rec.mine(k):
                    rec.run(f"{fam}-{L}-{r}", builtin, fam, L, r, kind="builtin")
    for s in (0, 2, 4, 6, 10):
        k += 1
        if rec.mine(k):
            rec.run(f"even-{s}", refuse, s, kind="refuse")
    for name, f, cnt in (("fromops", fromops, 6), ("equal", equal, 2), ("select", select, 2), ("misfit", misfit, 1),
                         ("signed", signed, 2)):
        for i in range(int(rec.cfg["count"]) * cnt // 10):
            if rec.mine(i):
                rec.run(f"{name}-{i}", f, rec.rng(name, i), kind=name)
    rec.close()


if __name__ == "__main__":
    main()
