"""Record drawings of lattices and circuits (C24)."""
import math
import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import qiskit  # noqa: E402
from plaquette import visualizer  # noqa: E402
from plaquette.codes import latticebase as lb  # noqa: E402

from rec import circuit_gen as cg  # noqa: E402
from rec import lattice as rl  # noqa: E402
from rec.base import Recorder, RecorderBug, err_name  # noqa: E402
from rec.codes import MAKE  # noqa: E402

FRAMES = ("X error", "Z error", "X correction", "Z correction")


def coord(v):
    v = float(v)
    return int(v) if v == int(v) else -999


def segments(name, xs, ys):
    out, cur, odd = [], [], 0
    for x, y in list(zip(xs, ys)) + [(math.nan, math.nan)]:
        if math.isnan(float(x)) or math.isnan(float(y)):
            if len(cur) == 2:
                out.append({"name": name, "a": cur[0], "b": cur[1]})
            elif cur:
                odd = 1
            cur = []
        else:
            cur.append([coord(x), coord(y)])
    return out, odd


def mark(name, x, y, text):
    m = {"name": name, "at": [coord(x), coord(y)], "own": -1, "ext": -1, "set": 0, "text": "", "p": -1}
    if text is None:
        return m
    lines = re.split(r"<br */?>", str(text))
    m["set"] = int("yndrome" in str(text))
    if name == "Logical operator":
        m["text"] = lines[0]
        lines = lines[1:]
    for ln in lines:
        if re.search(r"p *=", ln):
            m["p"] = round(1000 * float(ln.split("=")[1]))
    nums = [int(x) for ln in lines[:2] for x in re.findall(r"-?\d+", ln)]
    m["own"], m["ext"] = (nums + [-1, -1])[:2]
    return m


def read_plotly(fig, d, probs):
    for t in fig.data:
        name = str(t.name)
        if t.mode == "lines":
            s, odd = segments(name, t.x, t.y)
            d["segs"] += s
            d["odd"] |= odd
            look = [t.line.color, t.line.dash]
        elif t.mode == "markers":
            hov = [None] * len(t.x) if t.hovertext is None else list(np.ravel(t.hovertext))
            hov = hov * len(t.x) if len(hov) == 1 else hov
            if name in FRAMES:
                for x, y, h in zip(t.x, t.y, hov):
                    nums = re.findall(r"\d+", str(h))
                    d["frame"].append({"name": name, "at": [round(float(x)), round(float(y))],
                                       "x": round(100 * float(x)), "y": round(100 * float(y)),
                                       "own": int(nums[0]) if nums else -1})
            else:
                if len(hov) != len(t.x):
                    d["odd"] = 1
                d["marks"] += [mark(name, x, y, h) for x, y, h in zip(t.x, t.y, hov)]
            c = t.marker.color
            if not isinstance(c, (str, type(None))):
                if name == "Data qubit" and len(c) == len(t.x):
                    d["probs"] = [[[coord(x), coord(y)], round(1000 * float(p))] for x, y, p in zip(t.x, t.y, c)]
                else:
                    d["odd"] = 1
                c = "scale"
            look = [c, t.marker.symbol]
        else:
            d["odd"] = 1
            continue
        d["styles"].append({"name": name, "kind": t.mode, "look": "/".join(map(str, look)),
                            "grey": int("grey" in str(look[0]))})


def read_mpl(ax, d):
    for t in ax.lines:
        name = str(t.get_label())
        if t.get_linestyle() not in ("None", "", " "):
            s, odd = segments(name, t.get_xdata(), t.get_ydata())
            d["segs"] += s
            d["odd"] |= odd
            kind, look = "lines", [t.get_color(), t.get_linestyle()]
        else:
            d["marks"] += [mark(name, x, y, None) for x, y in zip(t.get_xdata(), t.get_ydata())]
            kind, look = "markers", [t.get_color(), t.get_marker()]
        d["styles"].append({"name": name, "kind": kind, "look": "/".join(map(str, look)),
                            "grey": int("grey" in str(look[0]))})
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    pts = [m["at"] for m in d["marks"]]
    d["inside"] = int(all(x0 <= x <= x1 and y0 <= y <= y1 for x, y in pts))
    leg = ax.get_legend()
    d["legend"] = [] if leg is None else [t.get_text() for t in leg.get_texts()]


def lat_json(lat):
    s = rl.show(lat, False)
    return {k: s[k] for k in ("data", "stabs", "logs", "edges", "info")}


def rand_op(rnd, n):
    q = rnd.choice([0, 0.2, 0.5, 1])
    x = [int(rnd.random() < q) for _ in range(n)]
    z = [int(rnd.random() < q) for _ in range(n)]
    return x, z


def on(bits):
    return [i for i, b in enumerate(bits) if b]


def draw(vis, lat, rnd, bad):
    n, S = len(lat.dataqubits), len(lat.stabgens)
    r = {"op": rnd.choice(["lattice", "data", "data", "data", "mpl"]), "syn": [], "ex": [], "ez": [], "cx": [],
         "cz": [], "only": "", "grey": 0, "stabs": 1, "edges": 1, "bad": ""}
    d = {"req": r, "err": "", "marks": [], "segs": [], "frame": [], "styles": [], "probs": [], "odd": 0,
         "inside": 1, "legend": [], "kept": 1, "lat": lat_json(lat)}
    kw, hold = {}, []
    if bad:
        r["op"] = "data"
    if r["op"] == "data":
        if S and rnd.random() < 0.75:
            r["syn"] = [int(rnd.random() < rnd.choice([0.1, 0.5, 1])) for _ in range(S)]
            kw["syndrome"] = np.array(r["syn"], dtype=rnd.choice([bool, "u1", int]))
        for key, a, b in (("error", "ex", "ez"), ("correction", "cx", "cz")):
            if rnd.random() < 0.6:
                x, z = rand_op(rnd, n)
                r[a], r[b] = on(x), on(z)
                op = np.array(x + z + [rnd.choice([0, 0, 1])], dtype="u1")
                kw[key] = [op] if rnd.random() < 0.5 else op[np.newaxis, :]
        if rnd.random() < 0.3:
            r["only"] = kw["only_pauli"] = rnd.choice("XZ")
        r["grey"] = int(rnd.random() < 0.6)
        if not (r["grey"] and rnd.random() < 0.5):
            kw["grey"] = bool(r["grey"])
        for key in ("stabs", "edges"):
            if rnd.random() < 0.2:
                r[key] = 0
                kw["draw_" + key] = False
        hold = [(k, np.array(v, copy=True)) for k, v in kw.items() if k in ("syndrome", "error", "correction")]
        if bad:
            r["bad"] = rnd.choice(["syndrome of another size", "two errors", "unknown Pauli", "negative height"])
            if r["bad"] == "syndrome of another size":
                kw["syndrome"] = np.ones(S + rnd.choice([-1, 1, 5] if S else [1, 5]), dtype=bool)
            elif r["bad"] == "two errors":
                kw[rnd.choice(["error", "correction"])] = np.zeros((2, 2 * n + 1), dtype="u1")
            elif r["bad"] == "unknown Pauli":
                kw["only_pauli"] = rnd.choice(["Y", "x", "XZ"])
                kw["error"] = np.ones((1, 2 * n + 1), dtype="u1")
            else:
                kw["height"] = -5
                kw["grey"] = True
    try:
        if r["op"] == "lattice":
            read_plotly(vis.draw_lattice(), d, None)
        elif r["op"] == "data":
            read_plotly(vis.draw_latticedata(**kw), d, None)
            d["kept"] = int(all(np.array_equal(np.array(kw[k]), v) for k, v in hold))
        else:
            if rnd.random() < 0.5:
                fig, ax = plt.subplots()
                vis.draw_lattice_mpl(ax) if rnd.random() < 0.5 else vis.draw_lattice_mpl(ax=ax)
            else:
                plt.figure()
                vis.draw_lattice_mpl()
                ax = plt.gca()
            read_mpl(ax, d)
    except RecorderBug:
        raise
    except Exception as e:
        d["err"] = err_name(e)
    finally:
        plt.close("all")
    return d


def edit(lat, rnd, k):
    """A few random edits that can be done."""
    for j in range(rnd.randint(1, 6)):
        free = [tuple(int(x) for x in p) for p in zip(*(lat.lattice == None).nonzero())]  # noqa: E711
        o = rl.choose(rnd, lat, free or [tuple(rl.P(lat.vertices[0]))])
        if o["op"] in ("superstab", "multiply"):
            continue
        try:
            rl.apply(lat, o, j)
        except RecorderBug:
            raise
        except Exception:
            pass
    lat.assign_indices()


def lattice_case(rnd, k, big):
    fam = rnd.choice(list(MAKE))
    code = None
    if rnd.random() < 0.75:
        size = rnd.randint(2, 5 if big else 4)
        code = MAKE[fam](1, size | 1 if fam == "repetition" else size)
        lat = code.lattice
    else:
        lat = lb.CodeLattice((rnd.randint(3, 5), rnd.randint(3, 5)))
        lat.add_data((0, 0))
        for _ in range(3):
            edit(lat, rnd, k)
    edits = code is None or rnd.random() < 0.3
    if edits:
        edit(lat, rnd, k)
    probs = []
    n = len(lat.dataqubits)
    if not edits and rnd.random() < 0.4:
        probs = [rnd.randint(0, 999) for _ in range(n)]
    arg = np.array([p / 1000 for p in probs]) if probs else None
    src = code if code is not None and rnd.random() < 0.6 else lat
    vis = visualizer.LatticeVisualizer(src, arg) if probs or rnd.random() < 0.5 else visualizer.LatticeVisualizer(src)
    out = {"kind": "lattice", "family": fam, "probs": probs, "draws": []}
    for j in range(rnd.randint(2, 6)):
        out["draws"].append(draw(vis, lat, rnd, rnd.random() < 0.2))
        if edits and rnd.random() < 0.4:
            edit(lat, rnd, k + j)
    if probs and [round(1000 * float(p)) for p in arg] != probs:
        out["draws"][-1]["kept"] = 0
    return out


def circuit_case(rnd):
    n = rnd.randint(1, 6)
    prog = []
    for _ in range(rnd.randint(1, 10)):
        r = rnd.random()
        if r < 0.05:
            prog += cg.rand_noise(rnd, n)
        elif r < 0.65:
            prog.append(cg.rand_unitary(rnd, n))
        else:
            i = cg.rand_meas(rnd, n)
            if i["g"] in ("M", "R"):
                prog.append(i)
    if not prog:
        prog.append(cg.I("X", [0]))
    out = {"kind": "circuit", "prog": prog, "err": "", "width": 0, "bits": 0, "atoms": [], "figure": 1}
    circ = cg.build(prog)
    try:
        vis = visualizer.CircuitVisualizer(circ)
        held = [v for v in vars(vis).values() if isinstance(v, qiskit.QuantumCircuit)]
        if len(held) != 1:
            raise RecorderBug("the visualizer does not hold one Qiskit circuit")
        qc = held[0]
        out["width"], out["bits"] = qc.num_qubits, qc.num_clbits
        for i in qc.data:
            if i.operation.name == "barrier":
                continue
            cl = [qc.find_bit(b).index for b in i.clbits]
            out["atoms"].append({"op": i.operation.name, "q": [qc.find_bit(q).index for q in i.qubits],
                                 "c": cl[0] if cl else -1})
        if rnd.random() < 0.15:
            out["figure"] = int(isinstance(vis.draw_circuit(), plt.Figure))
            plt.close("all")
    except RecorderBug:
        raise
    except Exception as e:
        out["err"] = err_name(e)
    return out


def request_case(rnd, i):
    code = MAKE["planar"](1, 2)
    n = len(code.lattice.dataqubits)
    v = visualizer.LatticeVisualizer
    opts = [("three-dimensional lattice", 1, lambda: v(lb.CodeLattice((2, 2, 2)))),
            ("one-dimensional lattice", 1, lambda: v(lb.CodeLattice((4,)))),
            ("two-dimensional lattice", 0, lambda: v(lb.CodeLattice((4, 1)))),
            ("probability missing", 1, lambda: v(code, np.zeros(n - 1))),
            ("probability for an ancilla", 1, lambda: v(code, np.zeros(n + 1))),
            ("probabilities of all qubits", 1, lambda: v(code, np.zeros(code.n_ext_qubits))),
            ("right probabilities", 0, lambda: v(code, np.zeros(n))),
            ("list of probabilities", 0, lambda: v(code.lattice, [0.1] * n))]
    what, bad, f = opts[i % len(opts)]
    try:
        f()
        err = ""
    except Exception as e:
        err = err_name(e)
    return {"kind": "request", "what": what, "bad": bad, "err": err}


def main():
    rec = Recorder()
    for i in range(int(rec.cfg["lattices"])):
        if rec.mine(i):
            rec.run(f"lat{i}", lattice_case, rec.rng("lat", i), i, rec.thorough, kind="lattice", limit=60)
    for i in range(int(rec.cfg["circuits"])):
        if rec.mine(i):
            rec.run(f"circ{i}", circuit_case, rec.rng("circ", i), kind="circuit", limit=60)
    for i in range(8):
        if rec.mine(i):
            rec.run(f"req{i}", request_case, rec.rng("req", i), i, kind="request")
    rec.close()


if __name__ == "__main__":
    main()
