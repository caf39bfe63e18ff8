"""Record OpenQASM exports (C06)."""
import itertools
import re

from plaquette.circuit import Circuit
from plaquette.circuit.openqasm import convert_to_openqasm

from rec import circuit_gen as cg
from rec.base import Recorder, err_name

G1 = {"x", "y", "z", "h", "reset"}


def parse(txt):
    """Parse the OpenQASM 2 subset; returns (qreg, creg, atoms, complaint)."""
    txt = re.sub(r"//.*", "", txt)
    parts = txt.split(";")
    if parts[-1].strip():
        return 0, 0, [], "missing semicolon"
    st = [" ".join(p.split()) for p in parts[:-1]]
    st = [s for s in st if s]
    if not st or st[0] != "OPENQASM 2.0":
        return 0, 0, [], "no version header"
    q = c = None
    atoms = []
    inc = False
    for s in st[1:]:
        m = re.fullmatch(r'include "qelib1\.inc"', s)
        if m:
            inc = True
            continue
        m = re.fullmatch(r"(qreg|creg) (\w+)\[(\d+)\]", s)
        if m:
            if m[1] == "qreg":
                if q is not None:
                    return 0, 0, [], "two quantum registers"
                q = (m[2], int(m[3]))
            else:
                if c is not None:
                    return 0, 0, [], "two classical registers"
                c = (m[2], int(m[3]))
            continue
        if q is None or c is None:
            return 0, 0, [], "operation before registers"
        m = re.fullmatch(r"measure (\w+)\[(\d+)\] ?-> ?(\w+)\[(\d+)\]", s)
        if m:
            if m[1] != q[0] or m[3] != c[0] or int(m[4]) >= c[1] or int(m[2]) >= q[1]:
                return 0, 0, [], "index outside register"
            atoms.append({"op": "measure", "q": [int(m[2])], "c": int(m[4])})
            continue
        m = re.fullmatch(r"(\w+) (.*)", s)
        if not m:
            return 0, 0, [], "unknown statement " + s
        ops = [re.fullmatch(r"(\w+)\[(\d+)\]", o.strip()) for o in m[2].split(",")]
        if any(o is None or o[1] != q[0] or int(o[2]) >= q[1] for o in ops):
            return 0, 0, [], "bad operands " + s
        ops = [int(o[2]) for o in ops]
        if not (m[1] in G1 and len(ops) == 1 or m[1] in ("cx", "cz") and len(ops) == 2 and ops[0] != ops[1]):
            return 0, 0, [], "unknown gate " + s
        if m[1] != "reset" and not inc:
            return 0, 0, [], "gate library not included"
        atoms.append({"op": m[1], "q": ops, "c": -1})
    if q is None or c is None:
        return 0, 0, [], "missing register"
    return q[1], c[1], atoms, ""


def case(prog, ignore, as_text):
    circ = cg.build(prog)
    out = {"prog": prog, "ignore": ignore, "err": "", "malformed": "", "qreg": 0, "creg": 0,
           "atoms": []}
    try:
        txt = convert_to_openqasm(str(circ) if as_text else circ, ignore_unsupported=ignore)
    except Exception as e:
        out["err"] = err_name(e)
        return out
    out["qreg"], out["creg"], out["atoms"], out["malformed"] = parse(txt)
    return out


def rand(rnd):
    n = rnd.randint(1, 12)
    prog = []
    noisy = rnd.random() < 0.4
    for _ in range(rnd.randint(1, 12)):
        r = rnd.random()
        if noisy and r < 0.3:
            prog += cg.rand_noise(rnd, n)
        elif r < 0.6:
            prog.append(cg.rand_unitary(rnd, n))
        else:
            prog.append(cg.rand_meas(rnd, n))
    return prog, rnd.random() < 0.7, rnd.random() < 0.3


def main():
    rec = Recorder()
    for k in range(int(rec.cfg["count"])):
        if rec.mine(k):
            rec.run(f"qasm-{k}", case, *rand(rec.rng("qasm", k)), kind="qasm")
    # every sequence of up to `len` instructions over a small alphabet
    alpha = [cg.I(g, q) for g in ("X", "Y", "Z", "H", "M", "R") for q in ([0], [1, 0])]
    alpha += [cg.I("CX", [1, 0]), cg.I("CZ", [0, 1, 2, 1]), cg.I("DEPOLARIZE", [2]),
              cg.I("ERROR", [0], [8], "X"), cg.I("ERROR_CONTINUE", [1], [], "X"),
              cg.I("ERROR_ELSE", [1], [4], "Z"), cg.I("E_ERASE", [2], [8]),
              cg.I("E_PAULI", [1], [1, 1, 1]), cg.I("E_PAULI2", [1, 2], [1] * 15)]
    k = 0
    for ln in range(1, int(rec.cfg["length"]) + 1):
        for prog in itertools.product(alpha, repeat=ln):
            for ign in (False, True):
                k += 1
                if rec.mine(k):
                    rec.run(f"qall-{k}", case, list(prog), ign, k % 3 == 0, kind="qasm")
    rec.close()


main()
