"""Record the erasure decoder, its spanning forests and histories of subgraphs (C23)."""
import numpy as np
from plaquette.decoders import unionfind_erasure as ue

from rec.base import Recorder, err_name
from rec.decode import rand_graph


def graph(rnd, big):
    n, edges = rand_graph(rnd, big)
    if rnd.random() < 0.4 and n > 1:   # parallel edges, more dangling edges
        for _ in range(rnd.randint(1, 3)):
            edges.append(tuple(rnd.choice(edges)) if rnd.random() < 0.5 else (rnd.randrange(n),))
        rnd.shuffle(edges)
    return n, edges


def decode(dec, sel, syn, as_array):
    a = np.array(syn, dtype=bool)
    s = np.array(sel, dtype=int) if as_array else list(sel)
    try:
        r = dec.decode(s, a)
    except Exception as e:
        return {"err": err_name(e), "corr": [], "len": 0, "kept": 1}
    return {"err": "", "corr": [i for i, b in enumerate(r) if b], "len": len(r),
            "kept": int(list(a) == [bool(x) for x in syn] and [int(i) for i in s] == list(sel))}


def peel_case(rnd, big):
    n, edges = graph(rnd, big)
    given = list(edges)
    g = ue.Graph(n, given)
    dec = ue.ErasureDecoder(g)
    out = {"kind": "peel", "n": n, "edges": [list(e) for e in edges], "runs": []}
    for _ in range(rnd.randint(1, 6)):
        q = rnd.choice([0, 0.3, 0.6, 0.9, 1])
        sel = [i for i in range(len(edges)) if rnd.random() < q]
        if rnd.random() < 0.5:
            rnd.shuffle(sel)
        syn = [0] * n
        if rnd.random() < 0.85:
            for i in sel:
                if rnd.random() < 0.5:
                    for v in edges[i]:
                        syn[v] ^= 1
        else:
            syn = [int(rnd.random() < 0.3) for _ in range(n)]
        run = {"op": "decode", "sel": sel, "syn": [v for v in range(n) if syn[v]], "fresh": [], "vs": []}
        arr = rnd.random() < 0.5
        if rnd.random() < 0.3:
            run["op"] = "forest"
            try:
                g2 = ue.Graph(n, given)
                d2 = ue.ErasureDecoder(g2)
                g2.reset_subgraph(False, False)
                g2.enable_edges(sel, True, select_vertices=True)
                g2.update_neighbours()
                d2.construct_forest()
                run |= {"err": "", "corr": [i for i, _ in d2.forest.iter_edges()], "len": len(edges), "kept": 1,
                        "vs": list(d2.forest.iter_vertices())}
            except Exception as e:
                run |= {"err": err_name(e), "corr": [], "len": 0, "kept": 1}
        else:
            run |= decode(dec, sel, syn, arr)
            run["fresh"] = decode(ue.ErasureDecoder(ue.Graph(n, list(edges))), sel, syn, arr)["corr"]
            if given != edges:
                run["kept"] = 0
        out["runs"].append(run)
    return out


def graph_case(rnd, big):
    n, edges = graph(rnd, big)
    g = ue.Graph(n, list(edges))
    out = {"kind": "graph", "n": n, "edges": [list(e) for e in edges], "ops": []}
    state = {"set": False, "nb": False, "lt": False}
    k = len(edges)

    def do(op, a=0, b=0, lst=()):
        nonlocal g
        o = {"op": op, "a": int(a), "b": int(b), "l": list(lst), "err": "", "leaf": -1, "edge": -1, "other": -1,
             "vs": [], "es": [], "ends": [], "von": [], "eon": [], "nb": [], "lf": []}
        out["ops"].append(o)
        try:
            if op == "reset":
                g.reset_subgraph() if a and b and rnd.random() < 0.5 else g.reset_subgraph(bool(a), bool(b))
            elif op == "vertex":
                g.enable_vertex(a, bool(b))
            elif op == "edge":
                g.enable_edge(a, bool(b))
            elif op == "edges":
                g.enable_edges(list(lst), bool(b), select_vertices=bool(a))
            elif op == "update":
                g.update_neighbours()
            elif op == "clear":
                g.clear_neighbours()
            elif op == "leaves":
                g.update_leaves()
            elif op == "copy":
                g = g.copy()
            elif op == "pop":
                o["leaf"], o["edge"], o["other"] = (int(x) for x in g.pop_leaf())
            if op == "reset":
                state.update(set=True)
            elif op in ("update", "clear"):
                state.update(nb=op == "update")
            elif op == "leaves":
                state.update(lt=True)
            elif op == "copy":
                state.update(set=False, nb=False, lt=False)
            o["vs"] = [int(v) for v in g.iter_vertices()]
            es = list(g.iter_edges())
            o["es"], o["ends"] = [int(i) for i, _ in es], [list(e) for _, e in es]
            if state["set"]:
                o["von"] = [v for v in range(n) if g.is_vertex_enabled(v)]
                o["eon"] = [i for i in range(k) if g.is_edge_enabled(i)]
            if state["nb"] and op != "reset":
                o["nb"] = [[v, [list(p) for p in g.get_neighbours(v)]] for v in o["vs"]]
            if state["lt"]:
                o["lf"] = [int(v) for v in g.leaf_vertices]
        except Exception as e:
            o["err"] = err_name(e)
            return False
        return True

    def go():
        if rnd.random() < 0.2 and not do(rnd.choice(["look", "copy"])):
            return
        while True:
            dv = rnd.random() < 0.6
            de = rnd.random() < (0.5 if dv else 0.05)
            if not do("reset", dv, de) or not do(rnd.choice(["clear", "update"])):
                return
            for _ in range(rnd.randint(1, 8)):
                r = rnd.random()
                v, i = rnd.randrange(n), rnd.randrange(k)
                if r < 0.15:
                    ok = do("vertex", v, 1)
                elif r < 0.22:
                    ok = do("vertex", v, 0)
                elif r < 0.35:
                    ok = do("edge", i, rnd.random() < 0.5)
                elif r < 0.65:
                    lst = rnd.sample(range(k), rnd.randint(0, k))
                    ok = do("edges", 1, 1, lst)
                elif r < 0.7:
                    ok = do("edges", 0, rnd.random() < 0.3, rnd.sample(range(k), rnd.randint(0, min(k, 3))))
                elif r < 0.85:
                    ok = do("update")
                elif r < 0.95:
                    ok = do("clear")
                else:
                    ok = do("copy") and do("reset", dv, de) and do("update")
                if not ok:
                    return
            if rnd.random() < 0.6:
                break
        if not do("update") or not do("leaves"):
            return
        for _ in range(n + 2):
            r = rnd.random()
            if r < 0.75 and out["ops"][-1]["lf"]:
                ok = do("pop")
            elif r < 0.85:
                ok = do("edge", rnd.randrange(k), 0)
            elif r < 0.87:
                ok = do("edge", rnd.randrange(k), 1)
            else:
                ok = do("look")
            if not ok:
                return
    go()
    return out


def main():
    rec = Recorder()
    for i in range(int(rec.cfg["peel"])):
        if rec.mine(i):
            rec.run(f"peel{i}", peel_case, rec.rng("peel", i), rec.thorough, kind="peel", limit=30)
    for i in range(int(rec.cfg["graph"])):
        if rec.mine(i):
            rec.run(f"graph{i}", graph_case, rec.rng("graph", i), rec.thorough, kind="graph", limit=30)
    rec.close()


if __name__ == "__main__":
    main()
