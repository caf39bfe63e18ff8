"""Record calls of the functions on Pauli operators (C19)."""
import numpy as np

from plaquette import pauli as pp

from rec.base import Recorder, err_name, op_json


def rand_op(rnd, n, dense=None):
    d = rnd.choice([0.2, 0.6, 1.0]) if dense is None else dense
    a = np.zeros(2 * n + 1, dtype="u1")
    for q in range(n):
        if rnd.random() < d:
            k = rnd.choice([1, 2, 3])
            a[q], a[n + q] = k & 1, k >> 1
    a[-1] = rnd.randrange(2)
    return a


def ops_json(a):
    return [op_json(o) for o in a]


def call(f, *args, **kw):
    """Result of a call, the error if it is refused; arguments must survive."""
    arrs = [x for a in list(args) + list(kw.values())
            for x in (a if isinstance(a, (list, tuple)) else [a]) if isinstance(x, np.ndarray)]
    before = [x.copy() for x in arrs]
    try:
        r, err = f(*args, **kw), ""
    except Exception as e:
        r, err = None, err_name(e)
    same = all(x.shape == y.shape and (x == y).all() for x, y in zip(arrs, before))
    return r, err, same


def phase_exp(ph):
    for e, v in enumerate([1, 1j, -1, -1j]):
        if abs(complex(ph) - v) < 1e-9:
            return e
    return -1


def is_op(a):
    return isinstance(a, np.ndarray) and a.ndim == 1 and a.size % 2 == 1


def opres(a):
    """An operator that came out: [x, z, sign] with its size; size -1 if none."""
    if not is_op(a):
        return {"op": [[], [], 0], "n": -1}
    if not all(int(v) in (0, 1) for v in a):
        return {"op": [[], [], 0], "n": -2}
    return {"op": op_json(a), "n": a.size // 2}


def mul(ops, ip):
    r, err, same = call(pp.multiply, *ops, initial_phase=1j ** ip)
    c = {"kind": "mul", "ops": ops_json(ops), "ip": ip, "err": err, "same": same,
         "ns": [len(o) // 2 for o in ops], "res": opres(None), "ph": -1}
    if not err:
        c["res"], c["ph"] = opres(r[0]), phase_exp(r[1])
    return c


def comm(a, b, la, lb, ign):
    """a, b: lists of operators, passed as one operator, a list or a 2D array."""
    form = {"one": lambda v: v[0], "list": list, "state": np.array}
    r, err, same = call(pp.commutator_sign, form[la](a), form[lb](b), ignore_destabilisers=ign)
    c = {"kind": "comm", "a": ops_json(a), "b": ops_json(b), "ign": ign, "err": err, "same": same,
         "shape": [], "data": []}
    if not err:
        r = np.asarray(r)
        c["shape"] = list(r.shape)
        c["data"] = [int(v) for v in r.flatten()]
    return c


def parse(text, qubits):
    r, err, _ = call(pp.string_to_pauli, text, qubits)
    return {"kind": "parse", "text": list(text), "qubits": -1 if qubits is None else qubits,
            "err": err, "res": opres(r)}


def show(op):
    n = len(op) // 2
    c = {"kind": "show", "n": n, "op": op_json(op)}
    for name, ident in (("long", True), ("short", False)):
        r, err, same = call(pp.pauli_to_string, op, ident)
        c[name] = list(r) if isinstance(r, str) else ["?"]
        c[name + "err"] = err if same else "modified"
        back, err, _ = call(pp.string_to_pauli, r or "?", n)
        c[name + "back"] = opres(back)
    return c


def asdict(op, qubits, ident):
    n = len(op) // 2
    d, err, same = call(pp.pauli_to_dict, op)
    c = {"kind": "dict", "n": n, "op": op_json(op), "err": err, "same": same, "items": [],
         "qubits": -1 if qubits is None else qubits, "res": opres(None), "err2": ""}
    if not err:
        c["items"] = [[int(k), str(v)] for k, v in sorted(d.items())]
        e = dict(d)
        if ident:
            e.update({q: "I" for q in range(n) if q not in e})
        keys = sorted(e, key=lambda k: (k * 7) % 5)
        r, c["err2"], _ = call(pp.dict_to_pauli, {k: e[k] for k in keys}, qubits)
        c["least"] = max(e, default=-1) + 1
        c["res"] = opres(r)
    return c


def pad(op, total):
    r, err, same = call(pp.pad_operator, op, total)
    return {"kind": "pad", "n": len(op) // 2, "op": op_json(op), "total": total, "err": err,
            "same": same, "res": opres(r)}


def count(ops, form, ident):
    arg = {"one": lambda: ops[0], "list": lambda: list(ops), "state": lambda: np.array(ops)}[form]()
    r, err, same = call(pp.count_qubits, arg, include_identities=ident)
    return {"kind": "count", "ops": ops_json(ops), "ns": [len(o) // 2 for o in ops], "form": form,
            "ident": ident, "err": err, "same": same,
            "res": [] if err else [int(v) for v in r]}


def single(letter, q, n):
    r, err, _ = call(pp.single_qubit_pauli_operator, letter, q, n)
    return {"kind": "single", "letter": list(letter), "q": q, "n": n, "err": err, "res": opres(r)}


def tensor(ops):
    r, err, same = call(pp.tensor_product, *ops)
    return {"kind": "tensor", "ops": ops_json(ops), "ns": [len(o) // 2 for o in ops], "err": err,
            "same": same, "res": opres(r)}


def apply(ops, rows, two):
    arg = np.array(ops) if two else ops[0]
    r, err, same = call(pp.apply_operator, arg, np.array(rows))
    ok = isinstance(r, np.ndarray) and r.ndim == 2 and r.shape == np.array(rows).shape
    return {"kind": "apply", "ops": ops_json(ops), "rows": ops_json(rows), "two": two, "err": err,
            "same": same, "n": len(rows[0]) // 2, "on": len(ops[0]) // 2, "res": ops_json(r) if ok else []}


FUNCTIONS = {
    "multiply": lambda a: pp.multiply(*a), "tensor_product": lambda a: pp.tensor_product(*a),
    "apply_operator": lambda a: pp.apply_operator(*a), "pauli_to_string": lambda a: pp.pauli_to_string(*a),
    "state_to_stabiliser_string": lambda a: pp.state_to_stabiliser_string(*a, True),
    "unpack_tableau": lambda a: pp.unpack_tableau(*a)}
ARITY = {"multiply": [0, 1, 2, 2, 3], "tensor_product": [0, 2], "apply_operator": [2]}


def shapes_for(rnd, fn):
    """Arguments of a call, described by shape only: a text, or an array of bits."""
    n = rnd.randint(1, 3)

    def one():
        r = rnd.random()
        if r < 0.1:
            return "Z" * n
        w = 2 * n + 1 + rnd.choice([0, 0, 0, 0, 1, -1, 2])
        if r < 0.5:
            return [w]
        return [rnd.choice([2 * n, 2 * n, 2 * n, n]), w]
    args = [one() for _ in range(rnd.choice(ARITY.get(fn, [1])))]
    if fn == "multiply":
        # an even length is nothing the documentation of products speaks of
        args = [a if isinstance(a, str) or a[-1] % 2 else [2 * n + 1] for a in args]
    return args


def shaped(fn, args):
    """Whether a call with arguments of these shapes is refused."""
    rnd = __import__("random").Random(str((fn, args)))
    arrs = [a if isinstance(a, str) else
            np.array([rnd.randrange(2) for _ in range(int(np.prod(a)))], dtype="u1").reshape(a)
            for a in args]
    _, err, same = call(lambda *x: FUNCTIONS[fn](x), *arrs)
    return {"kind": "shaped", "fn": fn, "err": err, "same": same,
            "args": [[] if isinstance(a, str) else list(a) for a in args]}


def wild_text(rnd):
    n = rnd.randint(1, 6)
    sign = rnd.choice(["", "", "+", "-"])
    if rnd.random() < 0.5:
        t = sign + "".join(rnd.choice("IXYZ") for _ in range(n))
    else:
        qs = rnd.sample(range(rnd.choice([6, 14, 120])), n)
        t = sign + "".join(rnd.choice("IXYZ") + (rnd.choice(["", "0"]) + str(q)) for q in qs)
    r = rnd.random()
    if r < 0.4:  # separators
        for _ in range(rnd.randint(1, 4)):
            k = rnd.randint(0, len(t))
            t = t[:k] + rnd.choice(" _") + t[k:]
    elif r < 0.7:  # damage
        k = rnd.randint(0, len(t))
        how = rnd.randrange(3)
        if how == 0:
            t = t[:k] + rnd.choice("xyzAH.,*?i1\n\t") + t[k:]
        elif how == 1 and t:
            k = rnd.randrange(len(t))
            t = t[:k] + t[k + 1:]
        else:
            t = t[:k] + rnd.choice("IXYZ+-5") + t[k:]
    return t


def open_text(t):
    """Left open by the documentation: inner signs of short forms, repeated qubits, no text."""
    w = t.replace(" ", "").replace("_", "")
    import re
    m = re.fullmatch(r"([-+]?[IXYZ]\d+)+", w)
    if not m:
        return w in ("", "+", "-")
    e = [int(x) for x in re.findall(r"\d+", w)]
    return any(s in w[1:] for s in "+-") or len(set(e)) < len(e) or max(e) > 300


def main():
    R = Recorder()
    k = 0

    def put(f, *a):
        nonlocal k
        k += 1
        if R.mine(k):
            R.run(f"{f.__name__}{k}", f, *a, kind=f.__name__)

    rnd = R.rng("pauliops")
    one = [np.array([a, b, s], dtype="u1") for a in (0, 1) for b in (0, 1) for s in (0, 1)]
    for a in one:
        put(mul, [a], 0)
        for b in one:
            for ip in range(4):
                put(mul, [a, b], ip)
            put(comm, [a], [b], "one", "one", False)
    two = [np.array([a & 1, a >> 1, b & 1, b >> 1, 0], dtype="u1") for a in range(4) for b in range(4)]
    for a in two:
        for b in two:
            put(mul, [a, b], 0)
    for _ in range(R.cfg["count"]):
        n = rnd.choice([1, 2, 3, 4, 5, 8, 30, 120])
        put(mul, [rand_op(rnd, n), rand_op(rnd, n)], rnd.randrange(4))
        m = rnd.choice([2, 3, 5])
        put(mul, [rand_op(rnd, m) for _ in range(rnd.choice([3, 3, 4, 5]))], rnd.randrange(4))
        if rnd.random() < 0.1:
            put(mul, [rand_op(rnd, n), rand_op(rnd, n + 1)], 0)
        n = rnd.choice([1, 2, 3, 4, 40, 150])
        ign = rnd.random() < 0.4
        la, lb = (rnd.choice(["one", "list", "state"]) for _ in range(2))
        ln = lambda f: 1 if f == "one" else rnd.choice([2, 4] if ign else [1, 2, 3, 4])  # noqa: E731
        na, nb = ln(la), ln(lb)
        put(comm, [rand_op(rnd, n) for _ in range(na)], [rand_op(rnd, n) for _ in range(nb)], la, lb,
            ign)
        t = wild_text(rnd)
        if not open_text(t):
            put(parse, t, rnd.choice([None, None, len(t), 3, 6, 130]))
        n = rnd.choice([1, 2, 3, 5, 12, 101])
        put(show, rand_op(rnd, n))
        n = rnd.choice([1, 2, 3, 5, 12])
        put(asdict, rand_op(rnd, n), rnd.choice([None, n, n + 2, max(0, n - 1)]), rnd.random() < 0.3)
        put(pad, rand_op(rnd, n), rnd.choice([0, n - 1, n, n + 1, n + 4]))
        form = rnd.choice(["one", "list", "state"])
        put(count, [rand_op(rnd, n if form != "list" else rnd.randint(1, 6), rnd.choice([0, 0.5, 1]))
                    for _ in range(1 if form == "one" else rnd.randint(1, 4))], form,
            rnd.random() < 0.4)
        put(single, rnd.choice(["", "+", "-"]) + rnd.choice("XYZXYZA"), rnd.randint(-1, 5),
            rnd.randint(0, 6))
        put(tensor, [rand_op(rnd, rnd.randint(1, 4)) for _ in range(rnd.randint(1, 5))])
        fn = rnd.choice(sorted(FUNCTIONS))
        put(shaped, fn, shapes_for(rnd, fn))
        n = rnd.choice([1, 2, 3, 4])
        rows = [rand_op(rnd, n) for _ in range(2 * n)]
        if rnd.random() < 0.5:
            put(apply, [rand_op(rnd, n if rnd.random() < 0.9 else n + 1)], rows, False)
        else:
            put(apply, [rand_op(rnd, n) for _ in range(2 * n if rnd.random() < 0.8 else n + 1)],
                rows, True)
    R.close()


if __name__ == "__main__":
    main()
