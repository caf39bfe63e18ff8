"""Record histories of stabilizer states under the functions of plaquette.pauli (C20)."""
import contextlib
import io

import numpy as np

import plaquette
from plaquette import device as pd
from plaquette import pauli as pp

from rec.base import Recorder, all_scripts, err_name, op_json, tab_json
from rec.pauliops import rand_op

GATES = {"h": pp.hadamard, "s": pp.phase_gate, "x": pp.x, "y": pp.y, "z": pp.z,
         "cx": pp.control_not_gate, "cz": pp.control_phase_gate}
MAXN = 5


def obs(t):
    """A tableau as it came out."""
    t = np.asarray(t)
    if t.ndim != 2 or t.shape[0] != t.shape[1] - 1 or t.shape[0] % 2 or not np.isin(t, (0, 1)).all():
        return {"n": -1, "d": [], "s": []}
    return {"n": t.shape[0] // 2, **tab_json(t)}


def branches(state, f):
    """All random branches of f(copy of state) -> (state, outcomes)."""
    old = plaquette.rng
    out, tabs = [], []
    try:
        def one(r):
            plaquette.rng = r
            t, m = f(state.copy())
            return t, [int(v) for v in np.atleast_1d(m)]
        for (t, m), w in all_scripts(one, limit=300):
            out.append({"w": [w.numerator, w.denominator], "out": m, "tab": obs(t)})
            tabs.append(t)
    finally:
        plaquette.rng = old
    return out, tabs


def some_state(rnd, n):
    t = pp.zero_state(n)
    for _ in range(rnd.randint(0, 4 * n)):
        g = rnd.choice(list(GATES))
        if g in ("cx", "cz"):
            if n > 1:
                a, b = rnd.sample(range(n), 2)
                t = GATES[g](t, a, b)
        else:
            t = GATES[g](t, rnd.randrange(n))
    return t


WRAPPED = {"h": "hadamard", "x": "x", "y": "y", "z": "z", "cx": "cx", "cz": "cz"}


def unwrap(q, t):
    """What a QuantumState holds now; nothing if it does not know its size."""
    n = t.shape[1] // 2
    return q.tableau if q.number_of_qubits == n == q.n_q and np.array_equal(np.asarray(q), q.tableau) else np.zeros((0, 0))


def through(rnd, name, f, *args):
    """The function f, or the method of QuantumState that does the same."""
    if name is None or rnd.random() < 0.6:
        return lambda t: f(t, *args)

    def g(t):
        q = pd.QuantumState(t.shape[1] // 2)
        q.tableau = t
        getattr(q, name)(*args)
        return unwrap(q, t)
    return g


def letters(rnd, op, short):
    t = pp.pauli_to_string(op, not short)
    return t[1:] if t[0] == "+" and rnd.random() < 0.6 and len(t) > 1 else t


def make(rnd):
    """string_to_state on generators of a random state, possibly damaged."""
    n = rnd.randint(1, 4)
    t = some_state(rnd, n)
    d, s = t[:n].copy(), t[n:].copy()
    for _ in range(rnd.randint(0, 3)):  # other generators of the same group
        if n > 1:
            i, j = rnd.sample(range(n), 2)
            s[i] = pp.multiply(s[i], s[j])[0]
            d[j] = pp.multiply(d[i], d[j])[0]
    how = rnd.random()
    both = rnd.random() < 0.5
    if how < 0.15 and n > 1:
        i, j = rnd.sample(range(n), 2)
        s[i] = s[j] if rnd.random() < 0.5 else pp.multiply(s[j], s[(j + 1) % n])[0]
    elif how < 0.3:
        s[rnd.randrange(n)] = rand_op(rnd, n)
    elif how < 0.4 and both:
        d[rnd.randrange(n)] = rand_op(rnd, n)
    elif how < 0.5:
        s = s[:-1] if n > 1 else s
    elif how < 0.55 and both and n > 1:
        d = d[:-1]
    short = rnd.random() < 0.2
    q = n if short or rnd.random() < 0.3 else None
    ss = [letters(rnd, o, short) for o in s]
    ds = [letters(rnd, o, short) for o in d] if both else None
    try:
        st, err = pp.string_to_state(ss, ds, q), ""
    except Exception as e:
        st, err = None, err_name(e)
    return st, {"ev": "make", "stabs": [list(x) for x in ss], "dests": [list(x) for x in ds or []],
                "both": both, "qubits": -1 if q is None else q, "err": err,
                "br": [{"w": [1, 1], "out": [], "tab": obs(st)}] if not err else []}


def refused(f):
    try:
        f()
        return ""
    except Exception as e:
        return err_name(e)


def step(rnd, st):
    """One step: (next state, event)."""
    n = st.shape[1] // 2
    kind = rnd.choice(["gate"] * 6 + ["measure"] * 4 + ["base"] * 4 + ["insert", "append", "tensor",
                      "reset", "reset", "show", "refuse", "apply"])
    ev = {"ev": kind, "err": ""}
    if kind == "gate":
        g = rnd.choice(list(GATES))
        if g in ("cx", "cz"):
            if n < 2:
                return None
            qs = [rnd.sample(range(n), 2) for _ in range(rnd.choice([1, 1, 2, 3]))]
            if len(qs) == 1 and rnd.random() < 0.6:
                args = qs[0]
            else:
                args = [q[0] for q in qs], [q[1] for q in qs]
        else:
            qs = [[rnd.randrange(n)] for _ in range(rnd.choice([1, 1, 2, 3]))]
            if len(qs) == 1 and rnd.random() < 0.6:
                args = qs[0]
            else:
                args = [[q[0] for q in qs]]
        f = through(rnd, WRAPPED.get(g), GATES[g], *args)
        form = rnd.choice([list, list, tuple, np.array, *[iter] * (g not in ("cx", "cz"))])
        if isinstance(args[0], list) and form is not list:  # targets in any sequence (or iterable)
            f = lambda t: GATES[g](t, *map(form, args))  # noqa: E731
        ev.update(g=g, qs=qs)
        fun = lambda t: (f(t), [])  # noqa: E731
    elif kind == "measure":
        op = rand_op(rnd, n, rnd.choice([0.3, 0.7, 1]))
        if rnd.random() < 0.4:  # something in the group
            op = np.zeros(2 * n + 1, dtype="u1")
            for r in st[n:]:
                if rnd.random() < 0.5:
                    op = pp.multiply(op, r)[0]
            op[-1] ^= rnd.randrange(2)
        fo = rnd.choice([None, None, 0, 1])
        if rnd.random() < 0.5:
            arg = pp.pauli_to_string(op, rnd.random() < 0.5)
            if arg in ("+", "-"):
                arg += "I"
        else:
            arg = op.copy()
        ev.update(op=op_json(op), forced=-1 if fo is None else fo)
        fun = lambda t: pp.measure(t, arg if isinstance(arg, str) else arg.copy(),  # noqa: E731
                                   forced_outcome=fo)
    elif kind == "base":
        b = rnd.choice("XZ")
        ts = rnd.sample(range(n), rnd.randint(1, min(n, 3)))
        des = rnd.random() < 0.5 and len(ts) < n
        r = rnd.random()
        fo = (None if r < 0.5 else rnd.randrange(2) if r < 0.7
              else [rnd.choice([None, 0, 1]) for _ in ts])
        tt = ts[0] if len(ts) == 1 and rnd.random() < 0.6 else rnd.choice([list, list, tuple, np.array])(ts)
        each = fo if isinstance(fo, list) else [fo] * len(ts)
        ev.update(base=b, ts=ts, des=des, forced=[-1 if v is None else v for v in each])
        f = pp.measure_x_base if b == "X" else pp.measure_z_base
        fun = lambda t: f(t, tt, destructive=des, forced_outcomes=fo)  # noqa: E731
    elif kind == "insert":
        if n >= MAXN:
            return None
        pos = [rnd.randint(0, n) for _ in range(rnd.choice([1, 1, 2]))]
        if n + len(pos) > MAXN:
            pos = pos[:1]
        arg = pos[0] if len(pos) == 1 and rnd.random() < 0.6 else rnd.choice([list, tuple, np.array])(pos)
        ev.update(pos=sorted(pos))
        fun = lambda t: (pp.insert_qubit_at(t, arg), [])  # noqa: E731
    elif kind == "append":
        if n >= MAXN:
            return None
        ev.update(ev="insert", pos=[n])
        fun = lambda t: (pp.append_qubit(t), [])  # noqa: E731
    elif kind == "tensor":
        if n >= MAXN:
            return None
        o = some_state(rnd, rnd.randint(1, MAXN - n))
        left = rnd.random() < 0.5
        ev.update(other=obs(o), left=left)
        fun = lambda t: (pp.tensor_product(o, t) if left else pp.tensor_product(t, o), [])  # noqa: E731
    elif kind == "reset":
        p = rnd.choice(["", "-", "+"]) + rnd.choice("XYZ")
        ts = rnd.sample(range(n), rnd.randint(1, min(n, 3)))
        arg = ts[0] if len(ts) == 1 and rnd.random() < 0.6 else list(ts)
        ev.update(letter=p[-1], neg=p[0] == "-", ts=ts)
        form = rnd.choice([list, list, tuple, np.array, iter])
        name = "reset_qubits_to_eigenstate" if p in ("X", "Z") and isinstance(arg, list) else None
        f = through(rnd, name, pp.reset_qubits_to_eigenstate, p, arg)
        if isinstance(arg, list) and form is not list:
            f = lambda t: pp.reset_qubits_to_eigenstate(t, p, form(arg))  # noqa: E731
        fun = lambda t: (f(t), [])  # noqa: E731
    elif kind == "apply":
        op = np.zeros(2 * n + 1, dtype="u1")
        for r in st[n:]:
            if rnd.random() < 0.5:
                op = pp.multiply(op, r)[0]
        ev.update(op=op_json(op))
        t = pp.apply_operator(op, st.copy())
        ev.update(rows=[op_json(r) for r in t], before=[op_json(r) for r in st], br=[])
        return st, ev
    elif kind == "show":
        ident = rnd.random() < 0.5
        d, s = pp.state_to_stabiliser_string(st, ident)
        dests = rnd.random() < 0.5
        text = io.StringIO()
        if rnd.random() < 0.5:
            pp.pprint_state(st, ident, show_destabilisers=dests, file=text)
        else:
            with contextlib.redirect_stdout(text):
                pp.pprint_state(st, show_identities=ident, show_destabilisers=dests)
        ev.update(printed=text.getvalue(), dests=dests)
        q = pd.QuantumState(n)
        q.tableau = st
        ev.update(whole=str(q) + "\n")
        back, err = None, ""
        try:
            back = pp.string_to_state(s, None, n)
        except Exception as e:
            err = err_name(e)
        ev.update(d=[list(v) for v in d], s=[list(v) for v in s], ident=ident, tab=obs(st), err=err,
                  br=[] if err else [{"w": [1, 1], "out": [], "tab": obs(back)}])
        return st, ev
    else:
        def random_measurement():
            op = rand_op(rnd, n)
            while not pp.commutator_sign(op, st[n:]).any():
                op = rand_op(rnd, n)
            return st.copy(), op
        fs = {"wide measurement": lambda: pp.measure(st.copy(), rand_op(rnd, n + 1)),
              "insert": lambda: pp.insert_qubit_at(st.copy(), n + 1),
              "insert2": lambda: pp.insert_qubit_at(st.copy(), [0, n + 1]),
              "pairs": lambda: pp.control_not_gate(st.copy(), [0, 0], [n - 1]),
              "pairs2": lambda: pp.control_phase_gate(st.copy(), [0], [n - 1, 0]),
              "x": lambda: pp.x(st.copy(), [n]), "z": lambda: pp.z(st.copy(), n),
              "two letters": lambda: pp.reset_qubits_to_eigenstate(st.copy(), "XZ", [0]),
              "no letter": lambda: pp.reset_qubits_to_eigenstate(st.copy(), "", [0]),
              "another letter": lambda: pp.single_qubit_pauli_operator(rnd.choice(["QX", "--Z", "I", "x", "+"]), 0, n),
              "two letters (state)": lambda: pd.QuantumState(n).reset_qubits_to_eigenstate("XZ", [0]),
              "forced outcome": lambda: pp.measure(*random_measurement(), forced_outcome=rnd.choice([2, -1, 3])),
              "one operator for a state": lambda: pp.insert_qubit_at(rand_op(rnd, n), 0),
              "half a state": lambda: pp.state_to_stabiliser_string(st[n:].copy(), True),
              "half a state printed": lambda: pp.pprint_state(st[:-1].copy(), file=io.StringIO()),
              "mixed2": lambda: pp.tensor_product(rand_op(rnd, 1), st.copy()),
              "mixed": lambda: pp.tensor_product(st.copy(), rand_op(rnd, 1)),
              "forced": lambda: pp.measure_z_base(st.copy(), list(range(n)),
                                                  forced_outcomes=[0] * (n + 1))}
        what = rnd.choice(sorted(fs))
        ev.update(what=what, err=refused(fs[what]), br=[])
        return st, ev
    ev["br"], tabs = branches(st, fun)
    k = rnd.randrange(len(tabs))
    ev["next"] = k + 1
    return tabs[k], ev


def history(rnd):
    evs = []
    if rnd.random() < 0.45:
        st, ev = make(rnd)
        evs.append(ev)
    else:
        n = rnd.randint(1, 4)
        st = pp.zero_state(n)
        evs.append({"ev": "zero", "n": n, "err": "",
                    "br": [{"w": [1, 1], "out": [], "tab": obs(st)}]})
    if st is not None:
        for _ in range(rnd.randint(3, 12)):
            r = step(rnd, st)
            if r is not None:
                st, ev = r
                evs.append(ev)
    for ev in evs:
        ev.setdefault("next", 1)
    return {"kind": "states", "evs": evs}


def main():
    R = Recorder()
    for i in range(R.cfg["count"]):
        if R.mine(i):
            R.run(f"h{i}", history, R.rng("states", i), kind="states")
    R.close()


if __name__ == "__main__":
    main()
