"""Record editing sessions on Circuit / CircuitBuilder (C05)."""
from plaquette import circuit as pc

from rec.base import Recorder, err_name

PLAIN = ["X", "Y", "Z", "H", "CX", "CZ", "M", "R", "DEPOLARIZE"]
BUILD = {"DEPOLARIZE": "depolarize", "E_ERASE": "e_erase", "E_PAULI": "e_pauli",
         "E_PAULI2": "e_pauli2", "ERROR": "error", "ERROR_CONTINUE": "error_continue",
         "ERROR_ELSE": "error_else"}
BUILD.update({g: g for g in PLAIN if g != "DEPOLARIZE"})


def Q(n, txt=None):
    return {"t": "q", "v": str(n), "f": str(float(n)), "n": n, "u": 0 <= n <= 1,
            "raw": n, "txt": txt or str(n)}


def P(x, txt=None):
    x = float(x)
    return {"t": "p", "v": str(x), "f": str(x), "n": 0, "u": 0 <= x <= 1, "raw": x,
            "txt": txt or str(x)}


def G(g):
    return {"t": "g", "v": g, "f": g, "n": 0, "u": False, "raw": g, "txt": g}


def BAD(s):
    return {"t": "bad", "v": s, "f": s, "n": 0, "u": False, "raw": s, "txt": s}


def rprob(rnd):
    r = rnd.random()
    if r < 0.3:
        return P(rnd.choice([0.0, 1.0, 0.5, 0.25]))
    if r < 0.4:
        return P(1e-3, "1e-3")
    if r < 0.5:
        return P(rnd.choice([1e-7, 1 / 3, 0.1 + 0.2, 1 - 1e-12]))
    if r < 0.6:
        return Q(rnd.choice([0, 1]))
    return P(rnd.random())


def rq(rnd):
    n = rnd.choice([0, 1, 2, 3, 5, 9, 10, 11, 37, 120, 1000])
    return Q(n, rnd.choice([None, None, None, "0" + str(n)]))


def instr(rnd):
    r = rnd.random()
    qs = lambda k: [rq(rnd) for _ in range(k)]  # noqa: E731
    if r < 0.45:
        g = rnd.choice(PLAIN)
        k = 2 * rnd.randint(1, 3) if g in ("CX", "CZ") else rnd.randint(0 if rnd.random() < .1 else 1, 5)
        return g, qs(k)
    if r < 0.55:
        return "E_ERASE", [rprob(rnd), *qs(1)]
    if r < 0.65:
        return "E_PAULI", [rprob(rnd) for _ in range(3)] + qs(1)
    if r < 0.72:
        return "E_PAULI2", [rprob(rnd) for _ in range(15)] + qs(2)
    g = rnd.choice(PLAIN)
    k = 2 * rnd.randint(1, 2) if g in ("CX", "CZ") else rnd.randint(1, 3)
    if r < 0.82:
        return "ERROR", [rprob(rnd), G(g), *qs(k)]
    if r < 0.91:
        return "ERROR_ELSE", [rprob(rnd), G(g), *qs(k)]
    return "ERROR_CONTINUE", [G(g), *qs(k)]


def broken(rnd):
    """An instruction that must be refused."""
    r = rnd.randrange(8)
    if r == 0:
        return rnd.choice(["S", "x", "MX", "CNOT", "TICK", "ERRORS", "E_PAULI3", "CY"]), [rq(rnd)]
    if r == 1:
        return rnd.choice(["ERROR", "ERROR_ELSE"]), [
            P(rnd.choice([-0.1, 1.5, 1.0000001, -1e-9, 2.0, 5])), G("X"), rq(rnd)]
    if r == 2:
        g, a = rnd.choice(PLAIN), [rq(rnd), rq(rnd)]
        a[rnd.randrange(2)] = BAD(rnd.choice(["a", "1.5", "q1", "X", "0x1"]))
        return g, a
    if r == 3:
        return "E_PAULI", [rprob(rnd) for _ in range(rnd.choice([1, 2, 4, 5]))] + [rq(rnd)]
    if r == 4:
        return "E_PAULI2", [rprob(rnd) for _ in range(rnd.choice([13, 14, 16]))] + [rq(rnd), rq(rnd)]
    if r == 5:
        return "E_ERASE", rnd.choice([[rprob(rnd)], [rprob(rnd), rq(rnd), rq(rnd)],
                                      [BAD("p"), rq(rnd)]])
    if r == 6:
        return rnd.choice(["ERROR", "ERROR_ELSE"]), [rprob(rnd), G(rnd.choice(["S", "foo", "h"])), rq(rnd)]
    return rnd.choice([("ERROR", [G("X"), rq(rnd)]), ("ERROR_ELSE", [BAD("p"), G("X"), rq(rnd)]),
                       ("ERROR_CONTINUE", [G("S"), rq(rnd)]),
                       ("ERROR_CONTINUE", [G("X"), BAD("one")])])


def norm(gates):
    return [[n, [str(x) for x in a]] for n, a in gates]


def textline(rnd, g, args):
    sep = rnd.choice([" ", " ", "  ", "\t"])
    s = sep.join([g] + [a["txt"] for a in args])
    if rnd.random() < 0.2:
        s = rnd.choice(["  ", "\t"]) + s
    if rnd.random() < 0.2:
        s += rnd.choice(["  # X 0 comment", "#M 1", " # # Z 2", "   "])
    return s


def session(rnd, steps):
    circ = pc.Circuit()
    evs = []
    for k in range(steps):
        bad = rnd.random() < 0.2
        via = rnd.choice(["append", "append", "text", "text", "builder"])
        if k == 0 and rnd.random() < 0.3:
            via = "from_str"
        n = rnd.randint(1, 4) if via in ("text", "from_str") else 1
        lines = [instr(rnd) for _ in range(n)]
        if bad and via != "from_str":
            lines[rnd.randrange(n)] = broken(rnd)
        err = ""
        try:
            if via in ("text", "from_str"):
                txt = []
                for g, a in lines:
                    while rnd.random() < 0.2:
                        txt.append(rnd.choice(["", "   ", "# note", "  # X 0", "#"]))
                    txt.append(textline(rnd, g, a))
                t = "\n".join(txt) + rnd.choice(["", "\n", "\n\n  "])
                if via == "from_str":
                    circ = pc.Circuit.from_str(t)
                else:
                    circ.append_from_str(t)
            elif via == "append" or lines[0][0] not in BUILD:
                asstr = rnd.random() < 0.3
                circ.append(lines[0][0], *[a["txt"] if asstr else a["raw"] for a in lines[0][1]])
            else:
                b = pc.CircuitBuilder(circ)
                getattr(b, BUILD[lines[0][0]])(*[a["raw"] for a in lines[0][1]])
        except Exception as e:
            err = err_name(e)
        text = str(circ)
        gates = norm(circ.gates)
        ev = {"via": via, "err": err, "gates": gates,
              "lines": [{"name": g, "args": [{k: a[k] for k in "tvfnu"} for a in args]}
                        for g, args in lines],
              "text": [ln.rstrip() for ln in text.split("\n")] if gates else [],
              "reparsed": norm(pc.Circuit.from_str(text).gates) if gates else [],
              "nq": circ.number_of_qubits, "nm": circ.number_measured_qubits}
        if circ.n_q != circ.number_of_qubits:
            ev["nq"] = -1
        evs.append(ev)
    return {"evs": evs}


def main():
    rec = Recorder()
    for k in range(int(rec.cfg["count"])):
        if rec.mine(k):
            rnd = rec.rng("doc", k)
            rec.run(f"doc-{k}", session, rnd, rnd.randint(1, 8), kind="doc")
    rec.close()


main()
