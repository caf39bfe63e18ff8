"""Record applications of fabrication errors (C09)."""
import itertools

from plaquette.codes import LatticeCode
from plaquette.codes import latticebase as lb

from rec.base import Recorder, err_name, op_json
from rec.codes import MAKE


def P(v):
    return [int(x) for x in v.pos]


def ops(vs):
    return [sorted([P(e.data), int(e.factor)] for e in v.edges) for v in vs]


def show(lat):
    return {"data": [P(v) for v in lat.dataqubits], "stabpos": [P(v) for v in lat.stabgens],
            "logpos": [P(v) for v in lat.logical_ops], "stabs": ops(lat.stabgens),
            "logs": ops(lat.logical_ops), "index": [P(v) for v in lat.equbits]}


def rows(lat, tabs):
    out = []
    for t in tabs:
        x, z, _ = op_json(t)
        n = len(lat.dataqubits)
        o = [[P(lat.dataqubits[q]) if q < n else [-1, -1], 2 if q in z and q in x else (1 if q in x else 3)]
             for q in sorted(set(x) | set(z))]
        out.append(sorted(o))
    return out


def earlier(code, rnd, via_code):
    """Apply other fabrication errors first (undone by a new code if refused)."""
    lat = code.lattice
    data = [v.equbit_idx for v in rnd.sample(lat.dataqubits, rnd.choice([1, 1, 2]))]
    for on in data if rnd.random() < 0.5 else [None]:
        (code if via_code else lat).apply_fabrication_errors(
            faulty_qubits=data if on is None else [0])


def case(fam, size, fq, fg, fs, setting, given, via_code, idx, bad=None, hist=None):
    code = MAKE[fam](1, size)
    if hist is not None:
        try:
            earlier(code, hist, via_code)
        except Exception:
            code = MAKE[fam](1, size)
    lat = code.lattice
    fq = [i % len(lat.dataqubits) for i in fq]
    fg = [(i % len(lat.stabgens), j) for i, j in fg if lat.stabgens[i % len(lat.stabgens)].neighbours]
    fs = [i % len(lat.stabgens) for i in fs]
    lat.fabrication_err_keep_gauge, lat.fabrication_err_boundary_join = setting
    before = show(lat)
    turns = itertools.cycle([True, False, False, True, True])

    def ref(v, force=None):
        i = idx if force is None else force
        if i == "mixed":   # some qubits by number, some by position
            i = next(turns)
        return ({"pos": P(v), "idx": v.equbit_idx if i else -1},
                v.equbit_idx if i else tuple(v.pos))

    D, S, L = lat.dataqubits, lat.stabgens, lat.logical_ops
    q = [ref(D[i]) for i in fq]
    g = [(ref(S[i]), ref(S[i].neighbours[j % len(S[i].neighbours)])) for i, j in fg]
    s = [ref(S[i]) for i in fs]
    if bad == 0:
        q.append(ref(S[0]))
    elif bad == 1:
        s.append(ref(D[0]))
    elif bad == 2:
        far = next(d for d in D if d not in S[0].neighbours)
        g.append((ref(S[0]), ref(far)))
    elif bad == 3:
        q.append(ref(L[0]))
    elif bad == 4:
        g.append((ref(D[0]), ref(D[1])))
    elif bad == 6:
        g.append((ref(L[-1]), ref(L[-1].neighbours[0])))
    elif bad == 7:
        s.append(ref(L[0]))
    elif bad == 5:
        q.append(({"pos": [-1, -1], "idx": len(lat.equbits) + 3}, len(lat.equbits) + 3))
    kw = {}
    if given[0]:
        kw["keep_gauge"] = given[0]
    if given[1]:
        kw["boundary_join"] = given[1] == "yes"
    err = ""
    try:
        (code if via_code else lat).apply_fabrication_errors(
            faulty_qubits=[b for _, b in q], faulty_gates=[(a[1], b[1]) for a, b in g],
            faulty_stabilizers=[b for _, b in s], **kw)
    except Exception as e:
        err = err_name(e)
    bads = bad is not None
    after = show(lat) if not err or bads else before
    cv = []
    if not err:
        if via_code and S:
            cv = [rows(lat, code.stabilisers), rows(lat, code.logical_ops)]
            if (code.n_data_qubits, code.n_stabgens) != (len(D), len(S)) or code.n_ext_qubits != len(lat.equbits):
                cv = ["counts"]
            if [op_json(t) for t in code.logical_x] != [op_json(t) for t in code.logical_ops[::2]]:
                cv = ["logical_x"]
            if [op_json(t) for t in code.logical_z] != [op_json(t) for t in code.logical_ops[1::2]]:
                cv = ["logical_z"]
        elif S and all(v.edges for v in S):
            cv = [rows(lat, lat.stabilisers), rows(lat, lat.logical_operators)]
        else:
            cv = [after["stabs"], after["logs"]]
    return {"family": fam, "size": size, "before": before, "fq": [a for a, _ in q],
            "fg": [[a[0], b[0]] for a, b in g], "fs": [a for a, _ in s],
            "set": {"gauge": setting[0], "join": setting[1]}, "given": {"gauge": given[0], "join": given[1]},
            "now": {"gauge": lat.fabrication_err_keep_gauge, "join": lat.fabrication_err_boundary_join}, "err": err, "after": after, "code": cv}


def main():
    rec = Recorder()
    n = 0
    # every set of removed qubits, small planar codes
    for size, most in ((2, 3), (3, 2 + rec.thorough)):
        nd = size * size + (size - 1) ** 2
        for m in range(0, most + 1):
            for fq in itertools.combinations(range(nd), m):
                n += 1
                if rec.mine(n):
                    rec.run(f"all-{size}-{'_'.join(map(str, fq))}", case, "planar", size, fq, (), (),
                            ("none", False), ("", ""), n % 2 == 0, n % 3 == 0, kind="fab")
    for k in range(int(rec.cfg["count"])):
        if not rec.mine(k):
            continue
        rnd = rec.rng("fab", k)
        fam = rnd.choice(["planar"] * 5 + ["rotated", "toric"])
        size = rnd.choice([3, 4, 4, 5, 6] if fam == "planar" else [3, 4])
        code = MAKE[fam](1, size)
        nd, ns = code.n_data_qubits, code.n_stabgens
        m = rnd.choice([1, 1, 2, 3, 4, 6])
        fq, fg, fs = [], [], []
        for _ in range(m):
            r = rnd.random()
            if r < 0.6:
                fq.append(rnd.randrange(nd))
            elif r < 0.85:
                fg.append((rnd.randrange(ns), rnd.randrange(4)))
            elif len(fs) < 1 and m < 4:
                fs.append(rnd.randrange(ns))
        setting, given = ("none", False), ("", "")
        if rnd.random() < 0.3:
            setting = (rnd.choice(["half", "all", "none"]), rnd.random() < 0.6)
        if rnd.random() < 0.3:
            given = (rnd.choice(["half", "all", "none", ""]), rnd.choice(["yes", "no", "no", ""]))
        plain = (given[0] or setting[0]) == "none" and not (setting[1] if not given[1] else given[1] == "yes")
        bad = rnd.randrange(8) if rnd.random() < 0.12 else None
        rec.run(f"fab-{k}", case, fam, size, fq, fg, fs, setting, given, plain and rnd.random() < 0.5,
                bad == 5 or rnd.choice([True, False, "mixed"]), bad,
                rnd if rnd.random() < 0.3 else None, kind="fab")
    rec.close()


if __name__ == "__main__":
    main()
