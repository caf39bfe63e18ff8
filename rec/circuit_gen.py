"""Random programs in the abstract instruction format of StabCircuit.tla."""
from plaquette import circuit as pc


def I(g, q, p=(), i=""):  # noqa: E743
    return {"g": g, "q": list(q), "p": list(p), "i": i}


def gate_args(ins, PD=16):
    """Arguments for Circuit.append of an abstract instruction."""
    ps = [p / PD for p in ins["p"]]
    if ins["g"] in ("ERROR", "ERROR_ELSE"):
        return (ins["g"], ps[0], ins["i"], *ins["q"])
    if ins["g"] == "ERROR_CONTINUE":
        return (ins["g"], ins["i"], *ins["q"])
    return (ins["g"], *ps, *ins["q"])


def build(prog, PD=16):
    c = pc.Circuit()
    for ins in prog:
        c.append(*gate_args(ins, PD))
    return c


# -- program generators ------------------------------------------------------
def qs(rnd, n, k):
    return rnd.sample(range(n), k)


def rand_unitary(rnd, n):
    g = rnd.choice(["X", "Y", "Z", "H", "H", "H", "CX", "CX", "CZ", "CZ"])
    if g in ("CX", "CZ") and n > 1:
        if n >= 4 and rnd.random() < 0.25:  # disjoint pairs
            return I(g, qs(rnd, n, 4))
        a = []
        for _ in range(rnd.choice([1, 1, 2, 3])):  # pairs may share qubits, applied in order
            a += qs(rnd, n, 2)
        return I(g, a)
    if g in ("CX", "CZ"):
        g = "H"
    k = rnd.choice([1, 1, 1, 2, 3])
    q = qs(rnd, n, min(k, n))
    if rnd.random() < 0.1:
        q.append(q[0])
    return I(g, q)


def rand_meas(rnd, n):
    g = rnd.choice(["M", "M", "M", "R"])
    k = min(n, rnd.choice([1, 1, 2, 3]))
    q = qs(rnd, n, k)
    if rnd.random() < 0.15:
        q.append(rnd.choice(q))
    return I(g, q)


def split(rnd, parts, total):
    """parts non-negative integers with sum at most total."""
    mode = rnd.random()
    if mode < 0.25:
        out = [0] * parts
        out[rnd.randrange(parts)] = rnd.choice([total, total // 2, 1])
        return out
    cuts = sorted(rnd.randint(0, total) for _ in range(parts))
    return [b - a for a, b in zip([0] + cuts, cuts)]


def rand_noise(rnd, n, PD=16):
    r = rnd.random()
    if r < 0.15:
        return [I("DEPOLARIZE", qs(rnd, n, min(n, rnd.choice([1, 1, 2]))))]
    if r < 0.35:
        return [I("E_PAULI", qs(rnd, n, 1), split(rnd, 3, PD))]
    if r < 0.5 and n > 1:
        return [I("E_PAULI2", qs(rnd, n, 2), split(rnd, 15, PD))]
    if r < 0.65:
        return [I("E_ERASE", qs(rnd, n, 1), [rnd.choice([0, 1, 5, 8, PD] if PD == 16 else [0, 1, 1, 2, PD])])]
    return rand_block(rnd, n, PD)


def inner(rnd, n):
    r = rnd.random()
    if r < 0.6:
        return rnd.choice("XYZ"), qs(rnd, n, min(n, rnd.choice([1, 1, 2])))
    if r < 0.75:
        return "H", qs(rnd, n, 1)
    if r < 0.85 and n > 1:
        return rnd.choice(["CX", "CZ"]), qs(rnd, n, 2)
    if r < 0.92:
        return "M", qs(rnd, n, 1)
    if r < 0.96:
        return "R", qs(rnd, n, 1)
    return "DEPOLARIZE", qs(rnd, n, 1)


def rand_block(rnd, n, PD=16):
    prob = lambda: [rnd.choice([0, 1, 4, 8, 8, 13, PD] if PD == 16 else [0, 1, 2, 2, PD])]  # noqa: E731
    g, q = inner(rnd, n)
    out = [I("ERROR", q, prob(), g)]
    while rnd.random() < 0.65 and len(out) < 6:
        g, q = inner(rnd, n)
        if rnd.random() < 0.5:
            out.append(I("ERROR_CONTINUE", q, (), g))
        else:
            out.append(I("ERROR_ELSE", q, prob(), g))
    return out


def rand_prog(rnd, n, length, noise):
    prog = []
    # entangle first, so that signs and correlations matter
    for _ in range(rnd.randint(0, n + 2)):
        prog.append(rand_unitary(rnd, n))
    while len(prog) < length:
        r = rnd.random()
        if noise and r < 0.6:
            prog.extend(rand_noise(rnd, n))
        elif r < 0.75:
            prog.append(rand_unitary(rnd, n))
        else:
            prog.append(rand_meas(rnd, n))
        if noise and rnd.random() < 0.03:  # ill-formed continuation
            prog.append(rand_unitary(rnd, n))
            prog.append(I(rnd.choice(["ERROR_CONTINUE", "ERROR_ELSE"]), [0], [8], "X"))
            if prog[-1]["g"] == "ERROR_CONTINUE":
                prog[-1]["p"] = []
    # the highest qubit must be named so that the circuit has n qubits
    if not any(n - 1 in i["q"] for i in prog):
        prog.append(I("M", [n - 1]))
    return prog
