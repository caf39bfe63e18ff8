"""Record syndrome graphs built from codes and error data (C13)."""
import copy
import math
import warnings

import numpy as np
from plaquette.codes import LatticeCode
from plaquette.decoders import UnionFindDecoder
from plaquette.decoders.decoderbase import check_weights_sane
from plaquette.syngraph import (QubitErrorEdge, SyndromeGraph, SyndromeGraphManager,
                                StabilizerErrorEdge)
from plaquette.syngraph.weights import WeightComputation

from rec.base import Recorder, err_name, op_json
from rec.codes import MAKE, rand_code, vec
from rec.qec import choose_code, ops_of


def graphlike_code(rnd, rounds):
    """A code from a random graph of single-qubit checks (repetition-like), or CSS."""
    n, ops, logs = rand_code(rnd, css=True, kmin=1)
    return "css", LatticeCode.from_operators([vec(n, o) for o in ops], [vec(n, o) for o in logs], rounds)


def pick_code(rnd, rounds, big):
    r = rnd.random()
    if r < 0.2:
        return graphlike_code(rnd, rounds)
    return choose_code(rnd, rounds, big)


def rand_permille(rnd, code, full=False):
    """Error data in thousandths: {"pauli": {q: {x,y,z}}, "measurement": {q: {p}}, "erasure": ...}."""
    D = [v.equbit_idx for v in code.lattice.dataqubits]
    S = [v.equbit_idx for v in code.lattice.stabgens]
    small = rnd.random() < 0.7
    v = lambda: rnd.choice([0, 0, 1, 5, 10, 20, 50, 100, 150] if small else [0, 3, 77, 200, 300, 333])  # noqa: E731
    uni = rnd.random() < 0.3
    out = {}
    if full or rnd.random() < 0.9:
        same = {k: v() for k in "xyz"}
        out["pauli"] = {}
        for q in D:
            if full or rnd.random() < 0.8:
                p = dict(same) if uni else {k: v() for k in "xyz" if full or rnd.random() < 0.8}
                out["pauli"][q] = p
    if full or rnd.random() < 0.7:
        m = v()
        out["measurement"] = {q: ({"p": m if uni else v()} if full or rnd.random() < 0.9 else {})
                              for q in S if full or rnd.random() < 0.8}
    if rnd.random() < 0.3:
        out["erasure"] = {q: {"p": v()} for q in D if rnd.random() < 0.7}
    if rnd.random() < 0.05:  # an error that surely happens
        q = rnd.choice(D)
        out.setdefault("pauli", {})[q] = {"x": 1000, "y": 0, "z": 0}
    return out


def as_errordata(pm):
    return {g: {q: {k: v / 1000 for k, v in d.items()} for q, d in qs.items()} for g, qs in pm.items()}


def effective(code, pm, herald=True):
    """Per qubit x, y, z and per stabilizer p, in thousandths (plain data for the spec)."""
    n, s = code.n_data_qubits, len(code.stabilisers)
    out = {k: [0] * n for k in "xyz"} | {"m": [0] * s, "e": [0] * n}
    if herald:  # the weights do not consider erasures
        pm = {k: v for k, v in pm.items() if k != "erasure"}
    for q, d in pm.get("erasure", {}).items():
        out["e"][code.lattice.equbits[q].dataqubit_idx] = d.get("p", 0)
    for q, d in pm.get("pauli", {}).items():
        i = code.lattice.equbits[q].dataqubit_idx
        for k in "xyz":
            out[k][i] = d.get(k, 0)
    for q, d in pm.get("measurement", {}).items():
        out["m"][code.lattice.equbits[q].stabgen_idx] = d.get("p", 0)
    return out


class ErasureWeights(WeightComputation):
    """Count erasures like any other error."""

    erasure_weights = True


def wjson(w, mode):
    w = float(w)
    if math.isnan(w):
        return {"s": "nan", "v": 0}
    if math.isinf(w):
        return {"s": "inf" if w > 0 else "-inf", "v": 0}
    if mode == "errordata":  # the probability the weight stands for, in 1e-9
        return {"s": "num", "v": round(1e9 / (1 + math.exp(min(w, 600)))), "l": round(min(w, 600) * 4)}
    return {"s": "num", "v": round(w * 4)}


def eid(e):
    if isinstance(e, QubitErrorEdge):
        return [e.pauli_str, int(e.time_step), int(np.asarray(e.qubit_idx).item())]
    assert isinstance(e, StabilizerErrorEdge)
    return ["M", int(e.time_step), int(e.stabgen_idx)]


def show(g, mode):
    vid = lambda v: [int(v.time_step), int(v.stabgen_idx)]  # noqa: E731
    edges = [{"id": eid(e), "v": [vid(v) for v in e.vertices], "on": bool(e.enabled),
              "w": wjson(e.weight, mode)} for e in g.edges]
    comps = []
    for cp in g.components:
        comps.append({
            "v": [vid(g.vertices[i]) for i in cp.parent_vertex_idx], "n": int(cp.n_vertices),
            "e": [eid(g.edges[i]) for i in cp.parent_edge_idx],
            "ends": [[int(i) for i in e] for e in cp.edges],
            "w": [wjson(w, mode) for w in cp.edge_weights],
            "dang": bool(cp.has_dangling_edges)})
    st = {k: (v if not isinstance(v, list) else sorted(map(int, v))) for k, v in g.get_statistics().items()}
    return {"edges": edges, "comps": comps, "stat": st,
            "nontriv": [int(g.components.index(c)) for c in g.components_with_edges],
            "at": [[vid(v) for v in row] for row in g.vertices_at_time]}


def comp_erased(g, k, cp):
    return [int(b) for b in cp.edge_erased] if len(cp.edges) else []


def play(rnd, g, code):
    """Hand syndromes and erasures in, results out, several times over."""
    R, S, n = code.n_rounds, len(code.stabilisers), code.n_data_qubits
    steps = []
    for _ in range(rnd.randint(1, 4)):
        d = rnd.choice([0.1, 0.5, 0.0])
        syn = [[int(rnd.random() < d) for _ in range(S)] for _ in range(R)]
        era = [[int(rnd.random() < d / 2) for _ in range(n)] for _ in range(R)]
        t1, t2 = rnd.choice([bool, "u1"]), rnd.choice([bool, "u1"])
        st = {"syn": syn, "era": era}
        if rnd.random() < 0.15:
            g.set_syndrome(None)
            st["syn"] = [[0] * S for _ in range(R)]
        else:
            g.set_syndrome(np.array(syn).reshape(R, S).astype(t1))
        if rnd.random() < 0.15:
            g.set_erasure(None)
            st["era"] = [[0] * n for _ in range(R)]
        else:
            g.set_erasure(np.array(era).reshape(R, n).astype(t2))
        st["csyn"] = [[int(b) for b in cp.syndrome] for cp in g.components]
        st["cera"] = [comp_erased(g, k, cp) for k, cp in enumerate(g.components)]
        sel = []
        for cp in g.components_with_edges:
            r = np.array([rnd.random() < 0.4 for _ in cp.edges], dtype=bool)
            cp.set_edge_decoder_results(r)
            sel.append([int(b) for b in r])
        st["sel"] = sel
        st["early"] = ""
        if g.components_with_edges and rnd.random() < 0.5:
            try:
                g.result_as_pauli_frame()
            except Exception as e:
                st["early"] = err_name(e)
        else:
            st["early"] = "skip"
        g.update_decoder_results()
        st["frame"] = op_json(np.asarray(g.result_as_pauli_frame()).ravel())
        st["all"] = [int(b) for b in g.combine_decoding_results(
            [np.array(s, dtype=bool) for s in sel])]
        steps.append(st)
    return steps


def rand_weights(rnd, n, s):
    q = lambda k: (lambda: rnd.choice([1, 2, 3, 4, 6, 10]))() / 4  # noqa: E731
    r = rnd.random()

    def arr(k):
        a = [q(0) if rnd.random() < 0.95 else math.inf for _ in range(k)]
        m = rnd.random()
        if m < 0.35:
            a = [a[0]] * k
            return a, (a[0] if k else 1.0)
        return a, np.array(a)
    out, given = {}, {}
    for name, k in (("pauli_x", n), ("pauli_z", n), ("measurement", s)):
        a, val = arr(k)
        if r < 0.1:
            a, val = [math.nan] * k, math.nan
        elif r < 0.2 and rnd.random() < 0.3:
            a, val = [math.nan] * k, math.nan
        elif r < 0.25 and k > 1:
            i = rnd.randrange(k)
            a = list(a)
            a[i] = math.nan
            val = np.array(a)
        out[name], given[name] = a, val
    return out, given


def graph_case(rnd, big):
    rounds = rnd.choice([1, 1, 2, 3])
    name, code = pick_code(rnd, rounds, big)
    mode = rnd.choice(["none", "errordata", "errordata", "errordata", "user"])
    via = rnd.choice(["direct", "manager", "decoder"])
    base = {"kind": "graph", "code": name, "rounds": rounds, "mode": mode, "via": via, **ops_of(code),
            "pm": {}, "uw": {}, "err": "", "g": {}, "steps": [], "floor": 0}
    n, s = code.n_data_qubits, len(code.stabilisers)
    ed = ws = None
    weighted = None
    if mode == "errordata":
        pm = rand_permille(rnd, code)
        herald = via != "direct" or rnd.random() < 0.5
        base["pm"] = effective(code, pm, herald)
        ed = as_errordata(pm)
        if via == "decoder" and (any(x >= 500 for k in "xyzm" for x in base["pm"][k]) or any(
                base["pm"]["x"][i] + base["pm"]["y"][i] >= 500 or
                base["pm"]["y"][i] + base["pm"]["z"][i] >= 500 for i in range(n))):
            via = base["via"] = "manager"  # decoders refuse such weights (C14)
    elif mode == "user":
        uw, ws = rand_weights(rnd, n, s)
        base["uw"] = {"X": [wjson(w, mode) for w in uw["pauli_x"]], "Z": [wjson(w, mode) for w in uw["pauli_z"]],
                      "M": [wjson(w, mode) for w in uw["measurement"]]}
        if via == "decoder":
            via = base["via"] = "manager"
    if mode == "none":
        if rnd.random() < 0.5 and via == "manager":
            weighted = False
            if rnd.random() < 0.5:
                ed = as_errordata(rand_permille(rnd, code))
            elif rnd.random() < 0.5:
                ws = rand_weights(rnd, n, s)[1]
        if via == "decoder":
            weighted = False
            ed = as_errordata(rand_permille(rnd, code)) if rnd.random() < 0.5 else None
    elif rnd.random() < 0.5:
        weighted = True
    try:
        if via == "direct":
            if mode == "errordata":
                ws = (WeightComputation if herald else ErasureWeights)(code, ed).get_edge_weights()
            g = SyndromeGraph.from_code(code, ws)
        elif via == "manager":
            g = SyndromeGraphManager(code, ed, weighted=weighted, weights=ws).sgraph
        else:
            base["floor"] = 1
            g = UnionFindDecoder.from_code(code, ed, weighted=weighted).synmgr.sgraph
    except ValueError as e:
        return base | {"err": err_name(e)}
    except Exception as e:
        return base | {"err": "crash " + err_name(e) + str(e)[:200]}
    base["g"] = show(g, mode)
    base["steps"] = play(rnd, g, code)
    return base


def sane(*weights):
    """Refuse weights that decoders do not take, and those reported as doubtful."""
    w = np.array(weights) if weights else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not check_weights_sane(w):
            raise LookupError("doubtful")


def refuse_case(rnd, i):
    """Requests that make no sense."""
    code = MAKE["planar"](1, 2)
    D = [v.equbit_idx for v in code.lattice.dataqubits]
    S = [v.equbit_idx for v in code.lattice.stabgens]
    ok = {"pauli": {D[0]: {"x": 0.1}}}
    W = dict(pauli_x=1.0, pauli_z=1.0, measurement=1.0)
    n, s = len(D), len(S)
    opts = [
        ("both", 1, lambda: SyndromeGraphManager(code, ok, weights=W)),
        ("nothing to weigh with", 1, lambda: SyndromeGraphManager(code, None, weighted=True)),
        ("unknown error", 1, lambda: SyndromeGraphManager(code, {"foo": {}})),
        ("unknown error", 1, lambda: SyndromeGraphManager(code, {"pauli": {}, "readout": {D[0]: {"p": 0.1}}})),
        ("pauli on ancilla", 1, lambda: SyndromeGraphManager(code, {"pauli": {S[0]: {"x": 0.1}}})),
        ("measurement on data", 1, lambda: SyndromeGraphManager(code, {"measurement": {D[0]: {"p": 0.1}}})),
        ("missing qubit", 1, lambda: SyndromeGraphManager(code, {"pauli": {999: {"x": 0.1}}})),
        ("short weights", 1, lambda: SyndromeGraph.from_code(code, dict(W, pauli_x=np.ones(n - 1)))),
        ("short weights", 1, lambda: SyndromeGraph.from_code(code, dict(W, measurement=np.ones(s + 1)))),
        ("syndrome shape", 1, lambda: SyndromeGraph.from_code(code, None).set_syndrome(np.zeros((2, s), bool))),
        ("syndrome shape", 1, lambda: SyndromeGraph.from_code(code, None).set_syndrome(np.zeros((1, n), bool))),
        ("erasure shape", 1, lambda: SyndromeGraph.from_code(code, None).set_erasure(np.zeros((1, n + 1), bool))),
        ("late weights", 1, lambda: SyndromeGraph.from_code(code, W).set_edge_weights(**W)),
        ("fine", 0, lambda: SyndromeGraphManager(code, ok, weighted=True)),
        ("fine", 0, lambda: SyndromeGraphManager(code, None)),
        ("fine", 0, lambda: SyndromeGraphManager(code, None, weights=W)),
        ("fine", 0, lambda: SyndromeGraphManager(code, ok, weighted=False)),
        ("fine", 0, lambda: UnionFindDecoder.from_code(code, None)),
        ("fine", 0, lambda: UnionFindDecoder.from_code(code, None, weights=W)),
        ("fine", 0, lambda: UnionFindDecoder.from_code(code, copy.deepcopy(ok))),
        ("both", 1, lambda: UnionFindDecoder.from_code(code, copy.deepcopy(ok), weights=W)),
        ("NaN weight", 1, lambda: sane(1.0, math.nan)), ("negative weight", 1, lambda: sane(-0.1, 2.0)),
        ("doubtful zero weight", 1, lambda: sane(1.0, 0.0)), ("doubtful inf weight", 1, lambda: sane(math.inf, 1.0)),
        ("fine weights", 0, lambda: sane(1.0, 0.001, 30.0)), ("fine weights", 0, lambda: sane()),
    ]
    what, bad, f = opts[i % len(opts)]
    try:
        f()
        err = ""
    except Exception as e:
        err = err_name(e)
    return {"kind": "request", "what": what, "bad": bad, "err": err}


def main():
    rec = Recorder()
    for i in range(int(rec.cfg["count"])):
        if rec.mine(i):
            rec.run(f"g{i}", graph_case, rec.rng("g", i), rec.thorough, kind="graph")
    for i in range(27):
        if rec.mine(i):
            rec.run(f"r{i}", refuse_case, rec.rng("r", i), i, kind="request")
    rec.close()


if __name__ == "__main__":
    main()
