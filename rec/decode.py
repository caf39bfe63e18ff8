"""Record decoders on arbitrary small graphs and on codes (C14-C16)."""
import math
import warnings

import numpy as np
from plaquette.codes import LatticeCode
from plaquette.decoders import (FusionBlossomDecoder, PyMatchingDecoder, UnionFindDecoder,
                                UnionFindNoWeights, fusionblossom, matching)
from plaquette.decoders import unionfind_decoder as ufd
from plaquette.decoders import unionfind_interfaces as ufi
from plaquette.syngraph import (QubitErrorEdge, SyndromeGraph, SyndromeGraphComponent,
                                SyndromeGraphManager, SyndromeGraphUpdate, Vertex)

from rec.base import Recorder, err_name, op_json
from rec.qec import ops_of
from rec.syngraph import as_errordata, effective, eid, pick_code, rand_permille

LOW = {"pm": matching.PyMatchingDecoder, "fb": fusionblossom.FusionBlossomDecoder,
       "uf": ufi.UnionFindDecoder, "ufn": ufi.UnionFindNoWeights}
HIGH = {"pm": PyMatchingDecoder, "fb": FusionBlossomDecoder, "uf": UnionFindDecoder,
        "ufn": UnionFindNoWeights}


def component(n, edges, w, unit=0.25):
    vs = [Vertex(vertex_idx=i, stabgen_idx=i, time_step=0) for i in range(n)]
    es = [QubitErrorEdge(edge_idx=k, vertices=tuple(vs[i] for i in e), time_step=0,
                         error_op_idx=k, qubit_idx=k, pauli_str="X") for k, e in enumerate(edges)]
    return SyndromeGraphComponent(vs, es, floats(w, len(edges), unit))


def floats(w, k, unit=0.25):
    return np.array([math.nan] * k if w is None else [x * unit for x in w], dtype=float)


# -- graphs ------------------------------------------------------------------
def rand_graph(rnd, big):
    kind = rnd.random()
    if kind < 0.2:   # grid
        a, b = rnd.choice([(2, 2), (2, 3), (1, 4)] + [(3, 3), (2, 4)] * big)
        n = a * b
        edges = [(i * b + j, i * b + j + 1) for i in range(a) for j in range(b - 1)]
        edges += [(i * b + j, i * b + b + j) for i in range(a - 1) for j in range(b)]
        if rnd.random() < 0.7:
            edges += [(i * b,) for i in range(a)]
            edges += [(i * b + b - 1,) for i in range(a) if rnd.random() < 0.8]
    elif kind < 0.35:  # ring or path
        n = rnd.randint(2, 7 if big else 6)
        edges = [(i, i + 1) for i in range(n - 1)]
        if n > 2 and rnd.random() < 0.5:
            edges.append((n - 1, 0))
        else:
            edges += [(0,)] * (rnd.random() < 0.8) + [(n - 1,)] * (rnd.random() < 0.8)
    else:
        n = rnd.randint(1, 7 if big else 6)
        edges = [tuple(rnd.sample([v, rnd.randrange(v)], 2)) for v in range(1, n)]
        for _ in range(rnd.randint(0, 6 if big else 4)):
            if n > 1:
                e = tuple(rnd.sample(range(n), 2))
                if set(e) not in [set(x) for x in edges]:
                    edges.append(e)
        for _ in range(rnd.choice([0, 1, 1, 2, 3])):
            edges.append((rnd.randrange(n),))
    edges = [tuple(rnd.sample(e, len(e))) for e in edges] or [(0,)]
    if rnd.random() < 0.7:
        rnd.shuffle(edges)
    if rnd.random() < 0.5:
        p = rnd.sample(range(n), n)
        edges = [tuple(p[v] for v in e) for e in edges]
    return n, edges


def rand_w(rnd, k, dyadic=False):
    """Integer weights; the unit is a quarter."""
    r = rnd.random()
    if dyadic:
        return [4 * rnd.choice([1, 1, 2, 2, 4]) for _ in range(k)]
    if r < 0.35:
        w = [rnd.choice([1, 2, 3, 4, 5]) for _ in range(k)]
        w[rnd.randrange(k)] = 5
        return w
    if r < 0.6:
        w = [rnd.randint(1, 20) for _ in range(k)]
        w[rnd.randrange(k)] = 20
        return w
    if r < 0.8:
        return [rnd.choice([1, 2, 3, 7, 11]) for _ in range(k)]
    if r < 0.85:
        return [rnd.choice([1, 4, 40, 400]) for _ in range(k)]
    if r < 0.93:  # almost the same
        return [rnd.choice([1, 1, 2, 3]) * 4000 + rnd.randint(0, 9) for _ in range(k)]
    return [rnd.randint(1, 3)] * k


def solvable_syndrome(rnd, n, edges):
    p = rnd.choice([0.15, 0.3, 0.5])
    if rnd.random() < 0.5:
        s = [0] * n
        for e in edges:
            if rnd.random() < p:
                for v in e:
                    s[v] ^= 1
        return s
    s = [int(rnd.random() < p) for _ in range(n)]
    if not any(len(e) == 1 for e in edges) and sum(s) % 2:
        s[rnd.randrange(n)] ^= 1
    return s


def library_panics(n, edges, w, syn, era):
    """Does the Fusion Blossom library itself fail on this problem?"""
    import fusion_blossom as fb
    ws = [1] * len(edges) if w is None else [max(1, int(100 * (x / 4) / (max(w) / 4))) for x in w]
    es, virtual = [], []
    for e, x in zip(edges, ws):
        if len(e) == 1:
            virtual.append(n + len(virtual))
            e = (e[0], virtual[-1])
        es.append((e[0], e[1], 2 * x))
    try:
        solver = fb.SolverSerial(fb.SolverInitializer(n + len(virtual), es, virtual))
        solver.solve(fb.SyndromePattern(syndrome_vertices=[i for i, b in enumerate(syn) if b],
                                        erasures=[i for i, b in enumerate(era) if b]))
        solver.subgraph(None)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as ex:
        if type(ex).__name__ == "Hang":
            raise
        return 1
    return 0


def outcome(dec, comp, syn, era):
    s, e = np.array(syn, dtype=bool), np.array(era, dtype=bool)
    comp.set_syndrome(s)
    comp.set_erasure(e)
    try:
        dec.decode()
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as ex:  # the matching libraries panic with a BaseException
        if type(ex).__name__ == "Hang":
            raise
        return {"err": err_name(ex), "sel": [], "kept": 1}
    kept = (comp.syndrome is s or list(comp.syndrome) == list(s)) and list(s) == [bool(x) for x in syn] \
        and list(comp.edge_erased) == [bool(x) for x in era] and list(e) == [bool(x) for x in era]
    return {"err": "", "sel": [int(x) for x in comp.edge_decoder_result], "kept": int(kept)}


def grown(edges, n, w, syn, era, weighted, variant="", coef=None):
    """The region union-find grows, by the implementation itself.

    coef: the coefficient of normalization, in quarters."""
    base = ufd.UnionFind if weighted else ufd.UnionFindNoWeights
    if variant:
        base = type("Variant", (base,), {variant: True})
    uf = base(n, [tuple(e) for e in edges])
    if coef is not None:
        uf.normalization_coefficient = coef // 4 if coef % 4 == 0 and coef < 16 else coef / 4
        assert uf.normalization_coefficient == coef / 4
    if weighted:
        uf.set_weights(floats(w, len(edges)))
    got = uf.union_find(np.where(np.array(era, bool))[0], np.array(syn, dtype=bool))
    return [int(i) for i in got]


def low_case(rnd, big, only=None, length=None, dyadic=False,
             quiet=False):
    n, edges = rand_graph(rnd, big)
    k = len(edges)
    name = only or rnd.choice(["pm", "fb", "uf", "ufn"])
    w = None if name == "ufn" or rnd.random() < 0.25 else rand_w(rnd, k, dyadic)
    # no result of matching depends on the unit of the weights (powers of two are exact)
    unit = rnd.choice([0.25, 0.25, 2**-12, 2**-40, 2**9]) if name in ("pm", "fb") else 0.25
    comp = component(n, edges, w, unit)
    dec = LOW[name]()
    out = {"kind": "low", "dec": name, "n": n, "edges": [list(e) for e in edges], "err": "", "steps": []}
    try:
        dec.set_syngraph(comp)
    except Exception as e:
        return out | {"err": err_name(e)}
    for _ in range(length or rnd.randint(2, 6)):
        if rnd.random() < 0.15 and name != "ufn":
            w = None if rnd.random() < 0.3 else rand_w(rnd, k, dyadic)
            comp.set_edge_weights(floats(w, k, unit))
            dec.update_weights()
        syn = solvable_syndrome(rnd, n, edges)
        q = rnd.choice([0, 0, 0.2, 0.5]) if name != "pm" or rnd.random() < 0.15 else 0
        era = [int(rnd.random() < q) for _ in edges]
        if rnd.random() < 0.3 and name != "pm" and any(era):  # an error within the erasure
            syn = [0] * n
            for i, e in enumerate(edges):
                if era[i] and rnd.random() < 0.5:
                    for v in e:
                        syn[v] ^= 1
        st = {"w": [1] * k if w is None else w, "weighted": int(w is not None), "syn": syn, "era": era}
        st |= outcome(dec, comp, syn, era)
        st["lib"] = library_panics(n, edges, w, syn, era) if st["err"] == "PanicException" else 0
        if st["lib"] and quiet:
            continue
        comp2 = component(n, edges, w, unit)
        dec2 = LOW[name]()
        dec2.set_syngraph(comp2)
        st["fresh"] = outcome(dec2, comp2, syn, era)
        st["grown"] = grown(edges, n, w, syn, era, w is not None) if name.startswith("uf") else []
        st["split"], st["jump"], st["coef"], st["scaled"] = [], [], 0, []
        if name == "ufn":
            st["split"] = grown(edges, n, w, syn, era, False, "split_edges")
        if name == "uf" and w is not None:
            st["jump"] = grown(edges, n, w, syn, era, True, "choose_growth_increment_enabled")
            st["coef"] = rnd.choice([2, 4, 8, 16])
            st["scaled"] = grown(edges, n, w, syn, era, True, coef=st["coef"])
        out["steps"].append(st)
    return out


PANIC = (6, [(5, 1), (5,), (2, 1), (3, 4), (0, 1), (1, 3)], [0, 0, 1, 1, 0, 1], [0, 0, 0, 0, 1, 0])


def panic_case():
    """An erasure on which the Fusion Blossom library panics."""
    n, edges, syn, era = PANIC
    out = {"kind": "low", "dec": "fb", "n": n, "edges": [list(e) for e in edges], "err": "", "steps": []}
    comp = component(n, edges, None)
    dec = LOW["fb"]()
    dec.set_syngraph(comp)
    for s, e in ((syn, era), ([0, 1, 0, 1, 1, 0], [0] * 6), ([1, 0, 0, 1, 1, 0], [0] * 6)):
        st = {"w": [1] * 6, "weighted": 0, "syn": s, "era": e} | outcome(dec, comp, s, e)
        st["lib"] = library_panics(n, edges, None, s, e)
        comp2 = component(n, edges, None)
        dec2 = LOW["fb"]()
        dec2.set_syngraph(comp2)
        st |= {"fresh": outcome(dec2, comp2, s, e), "grown": [], "split": [], "jump": [], "coef": 0, "scaled": []}
        out["steps"].append(st)
    return out


# -- codes ---------------------------------------------------------------------
def frame_of(f, n):
    f = np.asarray(f).ravel()
    assert f.shape == (2 * n + 1,)
    return op_json(f)[:2]


def decode_high(dec, n, era, syn):
    try:
        return {"err": "", "frame": frame_of(dec.decode(era, syn), n)}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as ex:
        if type(ex).__name__ == "Hang":
            raise
        return {"err": err_name(ex), "frame": [[], []]}


def selected(dec):
    return [eid(e) for e in dec.synmgr.sgraph.edges if e.decoder_result]


def uw_json(uw):
    return {k: [{"s": "inf", "v": 0} if v is None else {"s": "num", "v": v} for v in a] for k, a in uw.items()}


def uw_kw(uw):
    f = lambda a: np.array([math.inf if x is None else x / 4 for x in a], dtype=float)  # noqa: E731
    return {"pauli_x": f(uw["X"]), "pauli_z": f(uw["Z"]), "measurement": f(uw["M"])}


class Manager(SyndromeGraphManager):
    """Announces new weights, or a new graph, before some of the runs."""

    def announce(self, kind, weights):
        self.news, self.new_weights = kind, weights

    def update_for_decoding(self, erasure, syndrome):
        news, self.news = getattr(self, "news", SyndromeGraphUpdate.Nothing), SyndromeGraphUpdate.Nothing
        if news == SyndromeGraphUpdate.GraphAndWeights:
            self.sgraph = SyndromeGraph.from_code(self.code, self.new_weights)
        elif news == SyndromeGraphUpdate.Weights:
            fresh = SyndromeGraph.from_code(self.code, self.new_weights)
            w = np.array([float(np.ravel(e.weight)[0]) for e in fresh.edges])
            for comp in self.sgraph.components_with_edges:
                comp.set_edge_weights(w[comp.parent_edge_idx])
        return news


def rand_uw(rnd, n, S, inf):
    uw = {k: rand_w(rnd, m) for k, m in (("X", n), ("Z", n), ("M", S))}
    if inf:
        q = rnd.choice([0.1, 0.3, 0.8])
        uw = {k: [None if rnd.random() < q else v for v in a] for k, a in uw.items()}
    return uw


def reweigh(rnd, uw):
    """Other weights in the same order (so that the same parallel edges are the lightest)."""
    old = sorted({v for a in uw.values() for v in a if v is not None})
    new = sorted(rnd.sample(range(1, 60 + len(old)), len(old)))
    f = dict(zip(old, new))
    f[None] = None
    return {k: [f[v] for v in a] for k, a in uw.items()}


def high_case(rnd, big, only=None, user=None):
    rounds = rnd.choice([1, 1, 2, 3])
    for _ in range(30):
        cname, code = pick_code(rnd, rounds, big)
        n, S = code.n_data_qubits, len(code.stabilisers)
        if rounds * (n + S) <= (90 if big else 50) // (2 if user else 1):
            break
    name = only or rnd.choice(["pm", "fb", "uf", "ufn"])
    out = {"kind": "high", "dec": name, "code": cname, "rounds": rounds, **ops_of(code), "err": "",
           "steps": [], "mode": "none", "pm": {}, "uw": {}}
    ed = ws = None
    weighted = False
    if name != "ufn" and (user or rnd.random() < 0.3):
        out["mode"] = "managed" if rnd.random() < 0.4 else "user"
        uw = rand_uw(rnd, n, S, not user and rnd.random() < 0.4)
        out["uw"] = uw_json(uw)
        ws = uw_kw(uw)
        weighted = rnd.choice([True, None])
    else:
        pm = rand_permille(rnd, code, full=rnd.random() < 0.5)
        if name != "ufn" and rnd.random() < 0.7:
            out["mode"], out["pm"] = "errordata", effective(code, pm)
            weighted = rnd.choice([True, None])
        ed = as_errordata(pm) if out["mode"] == "errordata" or rnd.random() < 0.5 else None
    out["edkept"] = 1

    def make():
        mine = None if ed is None else as_errordata(pm)
        made = HIGH[name].from_code(code, mine, weighted=weighted, weights=ws)
        if ed is not None and mine != as_errordata(pm):
            out["edkept"] = 0
        return made

    try:
        if out["mode"] == "managed":
            man = Manager(code, None, weighted=weighted, weights=ws)
            dec = HIGH[name](man)
        else:
            dec = make()
    except Exception as e:
        return out | {"err": err_name(e)}
    for _ in range(rnd.randint(1, 4)):
        if out["mode"] == "managed" and rnd.random() < 0.6:
            if rnd.random() < 0.5:
                uw = reweigh(rnd, uw)
                news = SyndromeGraphUpdate.Weights
            else:
                uw = rand_uw(rnd, n, S, not user and rnd.random() < 0.4)
                news = SyndromeGraphUpdate.GraphAndWeights
            ws = uw_kw(uw)
            man.announce(news, ws)
        q = rnd.choice([0.05, 0.15, 0.4])
        syn = np.zeros((rounds, S), dtype=bool)
        if rnd.random() < 0.75:  # the syndrome of some error
            for e in dec.synmgr.sgraph.edges:
                if e.enabled and rnd.random() < q:
                    for v in e.vertices:
                        syn[v.time_step, v.stabgen_idx] ^= True
        else:
            syn = np.array([[rnd.random() < q for _ in range(S)] for _ in range(rounds)])
        r = rnd.choice([0, 0, 0.1, 0.3]) if name != "pm" or rnd.random() < 0.2 else 0
        era = np.array([[rnd.random() < r for _ in range(n)] for _ in range(rounds)])
        if rnd.random() < 0.3:
            syn, era = syn.astype("u1"), era.astype("u1")
        s0, e0 = syn.copy(), era.copy()
        st = {"syn": syn.astype(int).tolist(), "era": era.astype(int).tolist(), "uw": {}}
        if out["mode"] == "managed":
            st["uw"] = uw_json(uw)
        st |= decode_high(dec, n, None if not era.any() and rnd.random() < 0.5 else era, syn)
        st["res"] = selected(dec) if not st["err"] else []
        st["kept"] = int((s0 == syn).all() and (e0 == era).all())
        st["fresh"] = decode_high(make(), n, era, syn)
        out["steps"].append(st)
    return out


def request_case(rnd, i):
    n, edges = 3, [(0, 1), (1, 2), (2,)]
    nan = math.nan

    def setup(cls, w):
        c = component(n, edges, [1, 1, 1])
        c.set_edge_weights(np.array(w, dtype=float))
        d = cls()
        d.set_syngraph(c)
        return c, d

    def era(cls):
        c, d = setup(cls, [1, 1, 1])
        c.set_erasure(np.array([True, False, False]))
        d.decode()
    opts = []
    for nm in ("pm", "fb", "uf"):
        opts += [(f"{nm} mixed weights", 1, lambda c=LOW[nm]: setup(c, [1, nan, 2])),
                 (f"{nm} negative weight", 1, lambda c=LOW[nm]: setup(c, [1, -1, 2])),
                 (f"{nm} -inf weight", 1, lambda c=LOW[nm]: setup(c, [1, -math.inf, 2])),
                 (f"{nm} positive weights", 0, lambda c=LOW[nm]: setup(c, [1, 0.25, 2])),
                 (f"{nm} no weights", 0, lambda c=LOW[nm]: setup(c, [nan, nan, nan]))]
    opts += [("ufn weights", 1, lambda: setup(LOW["ufn"], [1, 1, 1])),
             ("ufn no weights", 0, lambda: setup(LOW["ufn"], [nan, nan, nan])),
             ("pm erasure", 1, lambda: era(LOW["pm"])), ("fb erasure", 0, lambda: era(LOW["fb"])),
             ("uf erasure", 0, lambda: era(LOW["uf"]))]
    def coefficient(c):
        uf = ufd.UnionFind(n, edges)
        uf.normalization_coefficient = c
        if uf.normalization_coefficient != c:
            raise AssertionError("another coefficient")
    opts += [("negative coefficient", 1, lambda: coefficient(-0.5)), ("coefficient as text", 1, lambda: coefficient("2")),
             ("no coefficient", 1, lambda: coefficient(None)), ("coefficient 3", 0, lambda: coefficient(3)),
             ("coefficient 1.5", 0, lambda: coefficient(1.5))]
    def surely(cls, x):
        """An error of probability x on a code in which every stabilizer acts on one qubit."""
        op = lambda q, z: np.array([int(k == q + 2 * z) for k in range(4)] + [0], dtype="u1")  # noqa: E731
        code = LatticeCode.from_operators([op(0, 1)], [op(1, 0), op(1, 1)], n_rounds=1)
        cls.from_code(code, {"pauli": {0: {"x": x}}}, weighted=True)
    for nm in ("pm", "fb", "uf"):
        opts += [(f"{nm} certain error", 1, lambda c=HIGH[nm]: surely(c, 1.0)),
                 (f"{nm} likely error", 1, lambda c=HIGH[nm]: surely(c, 0.6)),
                 (f"{nm} unlikely error", 0, lambda c=HIGH[nm]: surely(c, 0.4))]
    what, bad, f = opts[i % len(opts)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            f()
            err = ""
        except Exception as e:
            err = err_name(e)
    return {"kind": "request", "what": what, "bad": bad, "err": err}


def main():
    rec = Recorder()
    mode, big = rec.cfg["mode"], rec.thorough
    for i in range(int(rec.cfg["low"])):
        if rec.mine(i):
            kw = {}
            if mode == "optimal":
                kw = dict(only=["pm", "fb"][i % 2], length=4, quiet=True)
            elif mode == "growth":
                kw = dict(only=["uf", "ufn"][i % 2], length=4, dyadic=True)
            rec.run(f"low{i}", low_case, rec.rng(mode, "low", i), big, kind="low", limit=30, **kw)
    for i in range(int(rec.cfg.get("high", 0))):
        if rec.mine(i):
            kw = {"only": ["pm", "fb"][i % 2], "user": True} if mode == "optimal" else {}
            rec.run(f"high{i}", high_case, rec.rng(mode, "high", i), big, kind="high", limit=60, **kw)
    if mode == "any":
        for i in range(40):
            if rec.mine(i):
                rec.run(f"r{i}", request_case, rec.rng("r", i), i, kind="request")
        if rec.mine(0):
            rec.run("panic", panic_case, kind="low")
    rec.close()


if __name__ == "__main__":
    main()
