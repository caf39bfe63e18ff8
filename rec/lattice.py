"""Record editing sessions on code lattices (C08)."""
from plaquette.codes import latticebase as lb
from plaquette.codes import latticeinstances as li

from rec.base import Recorder, RecorderBug, err_name, op_json

START = [
    (lambda: li.PlanarCodeLattice(2)), (lambda: li.PlanarCodeLattice(3)),
    (lambda: li.RotatedPlanarCodeLattice(3)), (lambda: li.RotatedPlanarCodeLattice(3, True)),
    (lambda: li.ToricCodeLattice(2)), (lambda: li.RepetitionCodeLattice(5)),
    (lambda: li.FiveQubitCodeLattice()),
]


def P(v):
    return [int(x) for x in v.pos]


def ekey(e):
    return [P(e.op), P(e.data), int(e.factor)]


def accepted(check, n):
    """Extended qubit indices that the check accepts."""
    out = []
    for i in range(-2, n + 2):
        try:
            check(i, error="some")
            out.append(i)
        except ValueError:
            pass
    return out


def look(lat, pos):
    """What is found at a position when it may and when it may not be empty."""
    out = []
    for kw in ({}, {"allow_empty": False}):
        try:
            v = lat.get_vertex_at_pos(pos, **kw)
            out.append("none" if v is None else "found" if tuple(v.pos) == pos else "other")
        except Exception as e:
            out.append(err_name(e))
    return out


def show(lat, assigned):
    grid = [v for v in lat.lattice.flat if v is not None]
    for v in lat.vertices:
        if lat.get_vertex_at_pos(v.pos) is not v:
            grid = []
    out = {
        "data": [P(v) for v in lat.dataqubits], "stabs": [P(v) for v in lat.stabgens],
        "logs": [P(v) for v in lat.logical_ops], "ext": [P(v) for v in lat.equbits], "edges": [ekey(e) for e in lat.edges],
        "vertices": [P(v) for v in lat.vertices], "grid": [P(v) for v in grid],
        "adj": [[P(v), [ekey(e) for e in v.edges], [P(n) for n in v.neighbours]]
                for v in lat.vertices],
        "info": [[P(v), v.group.name] for v in lat.stabgens]
        + [[P(v), v.name] for v in lat.logical_ops],
        "time": [[ekey(e), -1 if e.measurement_time_step is None else int(e.measurement_time_step)]
                 for e in lat.edges],
        "steps": -1 if lat.n_time_steps is None else int(lat.n_time_steps),
        "look": [], "isdata": [], "isstab": [], "idx": [], "own": [], "hasops": False, "sops": [], "lops": [],
    }
    if assigned:
        n = len(lat.dataqubits)
        where = {}
        for v in lat.vertices:
            where.setdefault(v.equbit_idx, []).append(v)
        ok = all(len(w) == 1 for w in where.values())
        out["idx"] = [P(v) for v in lat.equbits]
        if not ok or any(lat.equbits[i] is not w[0] for i, w in where.items()):
            out["idx"] = [[-1, -1]]
        own = []
        for vs, attr in ((lat.dataqubits, "dataqubit_idx"), (lat.stabgens, "stabgen_idx"),
                         (lat.logical_ops, "logical_idx")):
            own.append([P(v) for v in sorted(vs, key=lambda v: getattr(v, attr))]
                       if sorted(getattr(v, attr) for v in vs) == list(range(len(vs))) else [[-1, -1]])
        out["own"] = own
        out["isdata"] = accepted(lat.check_equbit_is_data, len(lat.equbits))
        out["isstab"] = accepted(lat.check_equbit_is_stabgen, len(lat.equbits))
        out["look"] = [[[a, b], look(lat, (a, b))] for a in range(lat.lattice.shape[0] + 1)
                       for b in range(lat.lattice.shape[1] + 1) if (a + 2 * b + n) % 3 == 0]
        if n and all(v.edges for v in lat.stabgens + lat.logical_ops):
            out["hasops"] = True
            out["sops"] = [op_json(s) for s in lat.stabilisers]
            out["lops"] = [op_json(s) for s in lat.logical_operators]
    return out


def choose(rnd, lat, free):
    """One operation as a dict; preconditions sometimes violated."""
    data, stabs, logs = lat.dataqubits, lat.stabgens, lat.logical_ops
    ops = stabs + logs
    w = [("add_data", 3), ("add_stabgen", 2), ("add_logical", 2), ("assign", 3)]
    if lat.edges:
        w += [("order", 2)]
    if data and ops:
        w += [("add_edge", 8)]
    if lat.edges:
        w += [("remove_edge", 3)]
    if lat.vertices:
        w += [("remove_vertex", 3)]
    if stabs:
        w += [("remove_stabilizer", 1)]
    if len(stabs) > 1:
        w += [("superstab", 2)]
    if stabs and logs:
        w += [("multiply", 3)]
    op = rnd.choices([x for x, _ in w], [y for _, y in w])[0]
    if op in ("add_data", "add_stabgen", "add_logical"):
        pos = rnd.choice(free) if free and rnd.random() < 0.9 else (
            tuple(P(rnd.choice(lat.vertices))) if lat.vertices else rnd.choice(free))
        o = {"op": op, "pos": list(pos)}
        if op == "add_stabgen":
            o["tag"] = rnd.choice("UAB")
        if op == "add_logical":
            o["tag"] = rnd.choice(["X", "Z", "X2"])
        return o
    if op == "assign":
        return {"op": op}
    if op == "order":
        wrap = lambda d: -1 if d > 1 else 1 if d < -1 else int(d)  # noqa: E731
        need = {(wrap(e.data.pos[0] - e.op.pos[0]), wrap(e.data.pos[1] - e.op.pos[1]))
                for v in stabs for e in v.edges}
        more = [d for d in [(0, 1), (1, 0), (0, -1), (-1, 0), (1, 1), (-1, -1), (1, -1), (-1, 1)] if d not in need]
        steps = sorted(need) + rnd.sample(more, min(len(more), rnd.randint(0, 2)))
        rnd.shuffle(steps)
        if len(steps) > 1 and rnd.random() < 0.1:
            steps.pop()
        return {"op": op, "steps": [list(d) for d in steps]}
    if op == "add_edge":
        return {"op": op, "v": P(rnd.choice(ops)), "d": P(rnd.choice(data)), "f": rnd.choice([1, 1, 3, 3, 2])}
    if op == "remove_edge":
        k = ekey(rnd.choice(lat.edges))
        return {"op": op, "v": k[0], "d": k[1], "f": k[2]}
    if op == "remove_vertex":
        cand = [v for v in lat.vertices if not v.edges]
        if rnd.random() < 0.4:
            cand = [v for v in logs if not v.edges] or cand
        return {"op": op, "v": P(rnd.choice(cand if cand and rnd.random() < 0.7 else lat.vertices))}
    if op == "remove_stabilizer":
        return {"op": op, "v": P(rnd.choice(stabs))}
    if op == "superstab":
        a = rnd.choice(stabs)
        near = [s for s in stabs if s is not a and any(d in a.neighbours for d in s.neighbours)]
        b = rnd.choice(near if near and rnd.random() < 0.7 else [s for s in stabs if s is not a])
        return {"op": op, "v": P(a), "w": P(b)}
    return {"op": op, "v": P(rnd.choice(logs)), "w": P(rnd.choice(stabs))}


def apply(lat, o, k):
    at = lambda p: lat.lattice[tuple(p)]  # noqa: E731
    op = o["op"]
    if op == "add_data":
        lat.add_data(tuple(o["pos"]))
    elif op == "add_stabgen":
        lat.add_stabgen(tuple(o["pos"]), lb.StabGroup[o["tag"]])
    elif op == "add_logical":
        v = lat.add_logical(tuple(o["pos"]), o["tag"])
        if v is not at(o["pos"]):
            raise RuntimeError("add_logical returned another vertex")
    elif op == "add_edge":
        lat.add_edge(at(o["d"]), at(o["v"]), lb.Pauli(o["f"]))
    elif op == "remove_edge":
        lat.remove_edge(next(e for e in lat.edges if ekey(e) == [o["v"], o["d"], o["f"]]))
    elif op == "remove_vertex":
        lat.remove_vertex(at(o["v"]))
    elif op == "remove_stabilizer":
        lat.remove_stabilizer(at(o["v"]))
    elif op == "superstab":
        a, b = at(o["v"]), at(o["w"])
        if k % 2 and a.edges and b.edges:
            lat.create_superstab_from_edges([a.edges[0], b.edges[-1]])
        else:
            lat.create_superstab(a, b)
    elif op == "multiply":
        lat.multiply_logical_with_stab(at(o["v"]), at(o["w"]))
    elif op == "assign":
        lat.assign_indices()
    elif op == "order":
        lat.assign_stab_edge_order([tuple(d) for d in o["steps"]])
    else:
        raise RecorderBug(op)


def session(rnd, k, steps):
    start = []
    if k % 3 == 0:
        lat = lb.CodeLattice((4, 4))
    else:
        lat = START[k % len(START)]()
        start = [show(lat, False)]
    evs = []
    for j in range(steps):
        free = [tuple(int(x) for x in p) for p in zip(*(lat.lattice == None).nonzero())]  # noqa: E711
        if not free and not lat.vertices:
            break
        o = choose(rnd, lat, free or [P(lat.vertices[0])])
        err = ""
        try:
            apply(lat, o, j)
        except RecorderBug:
            raise
        except Exception as e:
            err = err_name(e)
        evs.append({"o": o, "err": err, "show": {} if err else show(lat, o["op"] == "assign")})
        if err and o["op"] in ("superstab", "multiply", "order"):
            break   # left half-done; nothing is promised about it
    return {"start": start, "shape": [int(x) for x in lat.lattice.shape], "evs": evs}


def main():
    rec = Recorder()
    for k in range(int(rec.cfg["count"])):
        if rec.mine(k):
            rnd = rec.rng("lat", k)
            rec.run(f"lat-{k}", session, rnd, k, rnd.randint(3, int(rec.cfg["steps"])), kind="lattice")
    rec.close()


if __name__ == "__main__":
    main()
