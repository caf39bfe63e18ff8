"""Record histories of ErrorData objects (C18)."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import plaquette
from plaquette.codes import LatticeCode
from plaquette.errors import (ErrorData, generate_constant_errors, generate_empty_qubit_errors,
                              generate_empty_qubit_errors_csv, generate_gaussian_errors)

from rec.base import Recorder, err_name

COLS = ["X", "Y", "Z", "erasure", "measurement"]
ONE, TWO = ["H", "R", "M"], ["CX", "CZ"]
PAULI2 = [a + b for a in "IXYZ" for b in "IXYZ" if a + b != "II"]
FAB = {"available": 1000000001, "missing": 1000000002}


def num(v):
    """A value as an integer, missing values as -1."""
    if isinstance(v, str):
        return FAB.get(v, 1000000009)
    if v is None or pd.isna(v):
        return -1
    v = float(v)
    if v < 0:
        return -2
    return min(round(v * 1e9), 2000000000)


def txt(v):
    return "" if pd.isna(v) else str(v)


CODES = {
    "repetition": lambda: LatticeCode.make_repetition(size=3, n_rounds=1),
    "five": lambda: LatticeCode.make_five_qubit(n_rounds=1),
    "planar": lambda: LatticeCode.make_planar(size=2, n_rounds=1),
    "rotated": lambda: LatticeCode.make_rotated_planar(size=2, n_rounds=1),
}


def flatq(d):
    return [[kind, int(q), str(k), num(v)] for kind, e in d.items() for q, ps in e.items()
            for k, v in ps.items() if kind in ("pauli", "erasure", "measurement")]


def flatg(d):
    out = []
    for g, e in d.items():
        if g in ONE + TWO:
            for q, ps in e.items():
                pl = [int(x) for x in q] if g in TWO else [int(q), -1]
                out += [[g, *pl, str(k), num(v)] for k, v in ps.items()]
    return out


def row(r):
    c = [r.induced_errors] if isinstance(r.induced_errors, str) else list(r.induced_errors)
    return {"g": r.gate, "q": [int(q) for q in r.on_qubits], "c": [str(x).lower() for x in c],
            "p": [num(p) for p in r.probs]}


def observe(ed, code):
    t = ed.qubit_errors
    cols = [c for c in t.columns if c not in ("qubit_id", "qubit_type")]
    tab = []
    if len(t.columns):
        for q in t["qubit_id"]:
            ty = t["qubit_type"][q]
            tab.append({"q": int(q), "t": "" if pd.isna(ty) else ty,
                        "v": {c: num(t[c][q]) for c in cols}})
    o = {"cols": cols, "tab": tab, "en": sorted(ed.enabled_qubit_errors),
         "eg": sorted(ed.enabled_gate_errors),
         "rows": [row(r) for r in ed.gate_errors.itertuples()],
         "qd": flatq(ed.qubit_errors_dict), "gd": [], "gdref": False, "allq": [], "allg": []}
    try:
        o["gd"] = flatg(ed.gate_errors_dict)
        d = ed.error_data_dict
        o["allq"], o["allg"] = flatq(d), flatg(d)
    except KeyError:
        o["gdref"] = True
    try:
        ed.check_against_code(code)
        o["chk"] = ""
    except Exception as e:
        o["chk"] = err_name(e)
    return o


class World:
    def __init__(self, rnd, tmp):
        self.rnd, self.tmp = rnd, tmp
        self.code = CODES[rnd.choice(list(CODES))]()
        lat = self.code.lattice
        self.data = [v.equbit_idx for v in lat.dataqubits]
        self.stab = [v.equbit_idx for v in lat.stabgens]
        self.edges = [i for s in lat.stabgens for e in s.edges
                      for i in (s.equbit_idx, e.data.equbit_idx)]
        self.n = 0

    def p(self):
        return self.rnd.choice([0.0, 1.0, 0.1, 0.25, round(self.rnd.random(), 3),
                                self.rnd.random(), 1e-4])

    def path(self):
        self.n += 1
        return os.path.join(self.tmp, f"f{self.n}.csv")

    # -- tables ----------------------------------------------------------
    def frame(self, full=False, cols=None):
        """A table of qubit errors as (columns, list of (qubit, type, values))."""
        rnd = self.rnd
        if cols is None:
            cols = rnd.sample(COLS + ["fabrication"], rnd.randint(1, 4))
        ids = self.data + self.stab
        if not full:
            ids = rnd.sample(ids, rnd.randint(1, len(ids)))
        if rnd.random() < 0.15:
            ids = ids + [60]
        wrong = rnd.random() < 0.1
        rows = []
        for i in ids:
            t = "data" if i in self.data else rnd.choice(["stab", "ancilla"])
            if wrong and rnd.random() < 0.3:
                t = "data" if t != "data" else "stab"
            vals = {}
            for c in cols:
                if rnd.random() < 0.2:
                    vals[c] = float("nan")
                elif c == "fabrication":
                    vals[c] = rnd.choice(list(FAB))
                else:
                    vals[c] = self.p()
            rows.append((i, t, vals))
        return cols, rows

    def frame_json(self, cols, rows):
        return {"fcols": cols,
                "frame": [{"q": i, "t": t, "v": {c: num(v[c]) for c in cols}} for i, t, v in rows]}

    def frame_csv(self, cols, rows):
        path = self.path()
        with open(path, "w") as f:
            f.write(",".join(["qubit_id", "qubit_type", *cols]) + "\n")
            for i, t, v in rows:
                f.write(",".join([str(i), t, *(txt(v[c]) for c in cols)]) + "\n")
        return path

    def frame_df(self, cols, rows):
        return pd.DataFrame({"qubit_id": [r[0] for r in rows], "qubit_type": [r[1] for r in rows],
                             **{c: [r[2][c] for r in rows] for c in cols}})

    def grow(self, gate=None):
        rnd = self.rnd
        g = gate or rnd.choice(ONE + TWO + TWO)
        if g in ONE:
            q = rnd.choices(self.stab if rnd.random() < 0.95 else self.data, k=rnd.randint(1, 3))
            c = rnd.sample(["X", "Y", "Z"], rnd.randint(1, 3))
            if rnd.random() < 0.03:
                c = ["XX"]
        else:
            k = [2 * j for j in range(len(self.edges) // 2)]
            q = [x for j in rnd.choices(k, k=rnd.randint(1, 3)) for x in self.edges[j:j + 2]]
            if rnd.random() < 0.05:
                q = q[::-1]
            c = rnd.sample(PAULI2, rnd.randint(1, 4))
            if rnd.random() < 0.03:
                c = rnd.choice([["X"], ["XX", "Z"]])
        if rnd.random() < 0.2:
            c = [x.lower() for x in c] if g in ONE else c
        return {"g": g, "q": q, "c": c, "p": [self.p() for _ in c]}

    def grow_json(self, rows):
        return [{"g": r["g"], "q": r["q"], "c": [x.lower() for x in r["c"]],
                 "p": [num(p) for p in r["p"]]} for r in rows]

    def gcsv(self, rows):
        path = self.path()
        quote = '"' if self.rnd.random() < 0.5 else ""
        with open(path, "w") as f:
            f.write("gate,on_qubits,induced_errors,probs\n")
            for r in rows:
                f.write(r["g"] + "," + ",".join(
                    quote + "|".join(map(str, r[k])) + quote for k in "qcp") + "\n")
        return path

    def gdf(self, rows):
        return pd.DataFrame({"gate": [r["g"] for r in rows], "on_qubits": [r["q"] for r in rows],
                             "induced_errors": [r["c"] for r in rows],
                             "probs": [r["p"] for r in rows]})

    # -- configurations ----------------------------------------------------
    def gaussian(self):
        m = self.rnd.choice([0.0, 0.01, 0.1, 0.5, 1.0, round(self.rnd.random(), 3)])
        return m, self.rnd.choice([0.0, 0.001, 0.02, 0.1, 0.3])

    def qlabel(self, label):
        kind = self.rnd.choice(["constant", "constant", "gaussian", "gaussian", "user", "none"])
        if label == "fabrication":
            kind = "user"
        m, sd = self.gaussian() if kind == "gaussian" else (self.p(), 0.0)
        conf = {"constant": ("constant", m), "gaussian": ("gaussian", m, sd),
                "user": ("user",), "none": None}[kind]
        return conf, {"label": label, "kind": kind, "val": num(m), "sd": num(sd)}

    def glabel(self, label):
        rnd = self.rnd
        if rnd.random() < 0.25:
            return ("user",), {"label": label, "kind": "user", "params": []}
        chans = ["X", "Y", "Z"] if label in ONE else PAULI2
        ps, js = [], []
        for ch in rnd.sample(chans, rnd.choice([1, 1, 2, 3])):
            if rnd.random() < 0.5:
                p = self.p()
                ps.append(("constant", ch, p))
                js.append({"kind": "constant", "ch": ch.lower(), "val": num(p), "sd": 0})
            else:
                m, sd = self.gaussian()
                ps.append(("gaussian", ch, m, sd))
                js.append({"kind": "gaussian", "ch": ch.lower(), "val": num(m), "sd": num(sd)})
        return ps, {"label": label, "kind": "params", "params": js}

    def conf(self):
        rnd = self.rnd
        ev = {"op": "conf", "hasq": rnd.random() < 0.8, "hasg": rnd.random() < 0.6,
              "qcfg": [], "gcfg": [], "same": True}
        labels = rnd.sample(COLS + ["fabrication"], rnd.randint(1, 5))
        q = {lb: self.qlabel(lb) for lb in labels} if ev["hasq"] else {}
        ev["qcfg"] = [v[1] for v in q.values()]
        g = ({lb: self.glabel(lb) for lb in rnd.sample(ONE + TWO, rnd.randint(1, 4))}
             if ev["hasg"] else {})
        ev["gcfg"] = [v[1] for v in g.values()]
        ev["file"] = rnd.random() < 0.8
        cols, rows = self.frame(cols=labels)
        ev.update(self.frame_json(cols, rows))
        grows = [self.grow() for _ in range(rnd.randint(1, 4))]
        ev["grows"] = self.grow_json(grows)
        qp = self.frame_csv(cols, rows) if ev["file"] else os.path.join(self.tmp, "absent.csv")
        gp = self.gcsv(grows) if ev["file"] else os.path.join(self.tmp, "absent.csv")
        seed = rnd.randrange(1 << 30)
        eds = []
        for _ in range(2):
            plaquette.rng = np.random.default_rng(seed)
            eds.append(ErrorData.from_lattice(
                self.code.lattice,
                ({k: v[0] for k, v in q.items()}, qp) if ev["hasq"] else None,
                ({k: v[0] for k, v in g.items()}, gp) if ev["hasg"] else None))
        a, b = (observe(e, self.code) for e in eds)
        ev["same"] = a == b
        return eds[0], ev

    # -- histories -----------------------------------------------------------
    def load(self, ed):
        qp, gp = self.path(), self.path()
        ed.save_to_csv(qp, gp)
        return ErrorData.from_csv(qp, gp)

    def update(self, ed, over=None, files=None):
        rnd = self.rnd
        ev = {"op": "update", "over": rnd.random() < 0.35 if over is None else over,
              "hasq": rnd.random() < 0.7, "hasg": rnd.random() < 0.5, "fcols": [], "frame": [],
              "grows": []}
        cols, rows = self.frame(full=rnd.random() < 0.5)
        grows = [self.grow() for _ in range(rnd.randint(1, 3))]
        # a table of single values only
        if rnd.random() < 0.3:
            grows = [{**r, "q": r["q"][:1], "c": r["c"][:1], "p": r["p"][:1]}
                     for r in grows if r["g"] in ONE] or grows
        files = rnd.random() < 0.5 if files is None else files
        args = [None, None]
        if ev["hasq"]:
            if not (files or ev["over"] or ed.qubit_errors.empty) and rnd.random() < 0.2:
                rows = [(i, "", v) for i, _, v in rows]
            ev.update(self.frame_json(cols, rows))
            args[0] = self.frame_csv(cols, rows) if files else self.frame_df(cols, rows)
            if not files and rows[0][1] == "":
                del args[0]["qubit_type"]
        if ev["hasg"]:
            ev["grows"] = self.grow_json(grows)
            args[1] = self.gcsv(grows) if files else self.gdf(grows)
        ev["via"] = "update_from_csv" if files else "update"
        getattr(ed, ev["via"])(*args, overwrite=ev["over"])
        return ev

    def template(self):
        """An empty table for the code, as a frame or as a file."""
        rnd = self.rnd
        names = rnd.choice([None, rnd.sample(COLS + ["fabrication"], rnd.randint(1, 6))])
        ev = {"op": "template", "names": ["X", "Y", "Z"] if names is None else names}
        if rnd.random() < 0.1:
            names = ev["names"] = rnd.sample(COLS, rnd.randint(0, 2)) + [rnd.choice(["W", "x", "T1", "qubit_id"])]
        args = [] if names is None else [names]
        ed = ErrorData()
        try:
            if rnd.random() < 0.5:
                ev["via"] = "generate_empty_qubit_errors"
                ed = ErrorData(qubit_errors=generate_empty_qubit_errors(self.code.lattice, *args),
                               gate_errors=pd.DataFrame())
            else:
                ev["via"] = "generate_empty_qubit_errors_csv"
                path = self.path()
                generate_empty_qubit_errors_csv(self.code.lattice, *args, csv_path=path)
                ed = ErrorData.from_csv(path)
        except ValueError:
            ev["refused"] = True
        return ed, ev

    def start(self):
        rnd = self.rnd
        r = rnd.random()
        if r < 0.12:
            return self.template()
        if r < 0.2:
            ev = {"op": "conf", "hasq": False, "hasg": False, "qcfg": [], "gcfg": [],
                  "same": True, "file": False, "fcols": [], "frame": [], "grows": [],
                  "via": "from_lattice"}
            return ErrorData.from_lattice(self.code.lattice), ev
        if r < 0.75:
            ed, ev = self.conf()
            ev["via"] = "from_lattice"
            return ed, ev
        ed = ErrorData()
        return ed, {"op": "new", "via": "ErrorData"}

    def step(self, ed):
        rnd = self.rnd
        t = ed.qubit_errors
        ids = [int(q) for q in t["qubit_id"]] if len(t.columns) else []
        cols = [c for c in t.columns if c not in ("qubit_id", "qubit_type")]
        op = rnd.choice(["add", "add", "set", "set", "set", "gate", "gate", "update", "update",
                         "enable", "load"])
        if not ids and op in ("add", "set"):
            op = "update"
        if op == "update":
            return ed, self.update(ed)
        if op == "load":
            return self.load(ed), {"op": "load", "via": "save_to_csv"}
        if op == "enable":
            en = [c for c in cols if rnd.random() < 0.7]
            eg = [g for g in ONE + TWO if rnd.random() < 0.7]
            ed.enabled_qubit_errors, ed.enabled_gate_errors = set(en), set(eg)
            return ed, {"op": "enable", "q": en, "p": eg, "via": "enabled errors"}
        if op == "gate":
            r = self.grow()
            ed.add_gate_error(r["g"], r["q"], r["c"], r["p"])
            return ed, {"op": "gate", "grows": self.grow_json([r]), "via": "add_gate_error"}
        name = rnd.choice((cols or COLS) if op == "set" else
                          ([c for c in COLS if c not in cols] or COLS))
        if rnd.random() < 0.1:
            name = rnd.choice(COLS + ["fabrication"])
        q = rnd.sample(ids, rnd.randint(0, len(ids)))
        if rnd.random() < 0.1 and q:
            q = q + [q[0]]
        p = [self.p() for _ in q]
        form, aq, ap = "list", q, p
        if op == "set":
            r = rnd.random()
            if r < 0.25:
                form, q, p = "scalar", [rnd.choice(ids)], [self.p()]
                aq, ap = q[0], p[0]
            elif r < 0.35:
                form = "mixed"
                aq, ap = (q, self.p()) if rnd.random() < 0.5 else (ids[0], p)
            elif r < 0.45:
                p = p + [self.p()] if rnd.random() < 0.5 or not p else p[:-1]
                ap = p
            if isinstance(ap, list) and rnd.random() < 0.3:
                ap = np.array(ap)
        elif rnd.random() < 0.5:
            aq, ap = np.array(q, dtype=int), np.array(p)
        fn = ed.add_qubit_error if op == "add" else ed.update_qubit_error
        ev = {"op": op, "name": name, "q": q, "p": [num(x) for x in p], "form": form,
              "via": fn.__name__}
        try:
            fn(aq, name, ap)
        except (ValueError, TypeError):
            ev["refused"] = True
        return ed, ev


def history(rnd, steps):
    tmp = tempfile.mkdtemp(prefix="verif_ed_")
    try:
        w = World(rnd, tmp)
        evs = []
        ed, ev = w.start()
        for k in range(steps + 1):
            if k:
                ed, ev = w.step(ed)
            ev.setdefault("refused", False)
            ev["obs"] = observe(ed, w.code)
            evs.append(ev)
        return {"data": w.data, "stab": w.stab, "edges": w.edges, "evs": evs}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def draw(rnd):
    """Numbers for a list of qubits."""
    m = rnd.choice([0.0, 1.0, 0.5, 0.01, round(rnd.random(), 3), -0.1, 1.1])
    sd = rnd.choice([0.0, 0.0005, 0.001, 0.02, 0.05, 0.3, 0.3, 1.0, -0.1, 1.5] if rnd.random() < 0.8 else [0.0])
    n = rnd.choice([0, 1, 400, 400, 400, 400])
    gauss = rnd.random() < 0.8
    plaquette.rng = np.random.default_rng(rnd.randrange(1 << 30))
    q = np.arange(n) if rnd.random() < 0.5 else list(range(n))
    ev = {"op": "draw", "via": "generate_gaussian_errors" if gauss else "generate_constant_errors",
          "m": num(m), "sd": num(sd) if gauss else 0, "n": n, "vals": [], "refused": False}
    try:
        ev["vals"] = [num(v) for v in (generate_gaussian_errors(m, sd, q) if gauss else generate_constant_errors(m, q))]
    except ValueError:
        ev["refused"] = True
    return {"data": [], "stab": [], "edges": [], "evs": [ev]}


def main():
    rec = Recorder()
    for k in range(int(rec.cfg["count"]) // 15):
        if rec.mine(k):
            rec.run(f"draw-{k}", draw, rec.rng("draw", k), kind="errordata")
    for k in range(int(rec.cfg["count"])):
        if rec.mine(k):
            rnd = rec.rng("errordata", k)
            rec.run(f"errordata-{k}", history, rnd, rnd.randint(1, 6), kind="errordata")
    rec.close()


if __name__ == "__main__":
    main()
