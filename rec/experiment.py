"""Record experiments: what is built from configurations, and what runs find (C22)."""
import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd

import plaquette
import plaquette.device
from plaquette import decoders
from plaquette.circuit import Circuit
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.codes import LatticeCode
from plaquette.frontend import ExperimentConfig

from rec import errordata as edm
from rec.base import Hang, Recorder, RecorderBug, op_json
from rec.codes import MAKE
from rec.qec import err_json, ops_of, prog_of

FAM = {"RepetitionCode": "repetition", "PlanarCode": "planar", "RotatedPlanarCode": "rotated",
       "ToricCode": "toric", "FiveQubitCode": "five", "ShorCode": "shor"}
DECODERS = ["PyMatchingDecoder", "UnionFindDecoder", "UnionFindNoWeights", "FusionBlossomDecoder"]
LOG = []   # (device name, "new" or "run")


class Spy:
    """Stands in for the entry point of a simulator and notes its use."""

    def __init__(self, name, entry):
        self.name, self.entry = name, entry

    def __getattr__(self, k):
        return getattr(self.entry, k)

    def load(self):
        name = self.name

        class Noted(self.entry.load()):
            def __init__(self, *a, **kw):
                LOG.append((name, "new"))
                super().__init__(*a, **kw)

            def run(self, *a, **kw):
                LOG.append((name, "run"))
                return super().run(*a, **kw)

        return Noted


def spy():
    for name in ("stim", "clifford"):
        e = plaquette.device.recognized_devices[name]
        if not isinstance(e, Spy):
            plaquette.device.recognized_devices[name] = Spy(name, e)


def make(name, L, rounds):
    return MAKE[FAM[name]](rounds, L)


def attempt(fn):
    try:
        return fn(), False
    except (RecorderBug, Hang):
        raise
    except Exception:
        return None, True


def sized(name, L, rounds):
    d = {"name": name, "rounds": rounds}
    if FAM[name] not in ("five", "shor"):
        d["size"] = L
    return d


def sel_of(log):
    return [2 * i + "XZ".index(ch) for i, ch in enumerate(log)]


# -- histories -------------------------------------------------------------------
class History:
    def __init__(self, rnd):
        self.rnd = rnd
        pool = [("RepetitionCode", 3, 1), ("RepetitionCode", 3, 2), ("RepetitionCode", 5, 1),
                ("RotatedPlanarCode", 3, 1), ("RotatedPlanarCode", 3, 2), ("PlanarCode", 2, 1),
                ("PlanarCode", 2, 2), ("RotatedPlanarCode", 2, 1)]
        keys = dict(zip("ABC", rnd.sample(pool, rnd.choice([2, 2, 3]))))
        self.codes = {k: sized(*v) for k, v in keys.items()}
        self.ref = {k: make(*v) for k, v in keys.items()}
        self.errs = {}
        for k in ("1", "2"):
            labels = rnd.sample(["X", "Z", "measurement"], rnd.randint(1, 3))
            base = 0.02 if k == "1" else 0.11
            self.errs[k] = {lb: round(base + 0.01 * rnd.randint(0, 6), 3) for lb in labels}
        self.cfg = {"code": "A", "errs": "1", "log": rnd.choice("XZ"), "dev": rnd.choice(["stim", "clifford"]),
                    "dec": rnd.choice(DECODERS[:2]), "weighted": rnd.random() < 0.5}
        self.val = {"code": list(self.codes), "errs": list(self.errs), "log": ["X", "Z"],
                    "dev": ["stim", "clifford"], "dec": DECODERS, "weighted": [True, False]}

    # reference parts
    def error_dict(self, k, on):
        lat = self.ref[on].lattice
        e = self.errs[k]
        D = [v.equbit_idx for v in lat.dataqubits]
        S = [v.equbit_idx for v in lat.stabgens]
        out = {}
        p = {c.lower(): e[c] for c in "XZ" if c in e}
        if p:
            out["pauli"] = {d: dict(p) for d in D}
        if "measurement" in e:
            out["measurement"] = {s: {"p": e["measurement"]} for s in S}
        return out

    def combos(self):
        return [(a, k, on) for a in self.ref for k in self.errs for on in self.ref if a == on]

    def circuits(self):
        if not hasattr(self, "_circ"):
            self._circ = []
            for a, k, on in self.combos():
                for log in "XZ":
                    c = generate_qec_circuit(self.ref[a], self.error_dict(k, on), {}, log)
                    self._circ.append(({"on": a, "errs": {"errs": k, "on": on}, "log": log}, prog_of(c)))
        return self._circ

    def decoders(self):
        if not hasattr(self, "_dec"):
            self._dec = []
            for a, k, on in self.combos():
                for dec in DECODERS:
                    for wt in (True, False):
                        if dec == "UnionFindNoWeights" and wt:
                            continue
                        d, bad = attempt(lambda: getattr(decoders, dec).from_code(
                            self.ref[a], self.error_dict(k, on), weighted=wt))
                        if not bad:
                            self._dec.append(({"on": a, "errs": {"errs": k, "on": on}, "dec": dec,
                                               "weighted": wt}, dec, a, d))
        return self._dec

    def doc(self):
        c = self.cfg
        return {"code": dict(self.codes[c["code"]]), "errors": {"qubit_errors": self.qerr(c["errs"])},
                "general": {"logical_op": c["log"], "qec_property": ["logical_error_rate"], "seed": 5},
                "device": {"name": c["dev"], "shots": 3},
                "decoder": {"name": c["dec"], "weighted": c["weighted"]}}

    def qerr(self, k):
        return {"sample": True} | {lb: {"distribution": "constant", "params": [p]} for lb, p in self.errs[k].items()}

    def set(self, exp):
        k = self.rnd.choice(list(self.cfg))
        v = self.rnd.choice([x for x in self.val[k] if x != self.cfg[k]])
        self.cfg = self.cfg | {k: v}
        new = ExperimentConfig.from_dict(self.doc())
        if self.rnd.random() < 0.3:  # replace the configuration of the part
            part = {"code": "code_conf", "errs": "errors_conf", "log": "general_conf", "dev": "device_conf",
                    "dec": "decoder_conf", "weighted": "decoder_conf"}[k]
            exp.update(**{part: getattr(new, part)})
        elif k == "code":
            exp.code_conf.update(**self.codes[v])
        elif k == "errs":
            exp.errors_conf.update(qubit_errors=new.errors_conf.qubit_errors)
        elif k == "log":
            exp.general_conf["logical_op"] = v
        elif k == "dev":
            exp.device_conf.update(name=v)
        else:
            exp.decoder_conf.update(**{{"dec": "name"}.get(k, k): v})
        return {"op": "set", "cfg": dict(self.cfg), "refused": False}

    # observation
    def look(self, exp, part):
        o, refused = attempt(lambda: getattr(copy.copy(exp), part))
        if refused:
            return {"refused": True, "unknown": False, "cands": []}
        cands, unknown = getattr(self, "see_" + part)(o)
        return {"refused": False, "unknown": unknown, "cands": cands}

    def see_code(self, code):
        return [k for k, r in self.ref.items()
                if ops_of(r) == ops_of(code) and r.n_rounds == code.n_rounds], False

    def see_errors(self, ed):
        got = err_json(ed.qubit_errors_dict, ed.gate_errors_dict)
        key = lambda e: {k: sorted(map(str, v)) for k, v in e.items()}  # noqa: E731
        return [{"errs": k, "on": on} for k in self.errs for on in self.ref
                if key(err_json(self.error_dict(k, on), {})) == key(got)], False

    def see_circuit(self, circ):
        p = prog_of(circ)
        return [v for v, q in self.circuits() if p == q], False

    def see_device(self, dev):
        circ = Circuit()
        circ.append("M", 0)
        LOG.clear()
        dev = copy.copy(dev)
        dev.run(circ)
        names = {n for n, _ in LOG}
        return (sorted(names), False) if len(names) == 1 else ([], True)

    def see_decoder(self, dec):
        out, rnd = [], np.random.default_rng(7)
        seen = {}
        for v, name, a, ref in self.decoders():
            if type(dec).__name__ != name:
                continue
            code = self.ref[a]
            if a not in seen:
                syn = rnd.integers(0, 2, (12, code.n_rounds, code.n_stabgens)).astype(bool)
                syn[0] = False
                seen[a] = (syn, [attempt(lambda: np.asarray(dec.decode(None, s)).tolist()) for s in syn])
            syn, got = seen[a]
            if [attempt(lambda: np.asarray(ref.decode(None, s)).tolist()) for s in syn] == got:
                out.append(v)
        return out, False

    def step(self, exp, built):
        rnd = self.rnd
        op = rnd.choice(["set", "set", "set", "build", "part", "part", "part", "access", "derive", "derive"])
        if op == "derive":
            return self.derive(exp, rnd.choice(["visualizer", "template"]))
        if op == "set":
            return self.set(exp)
        if op == "build":
            return {"op": op, "refused": attempt(exp.build)[1]}
        part = rnd.choice(["code", "errors", "circuit", "device", "decoder"])
        if op == "part":
            return {"op": op, "part": part, "refused": attempt(getattr(exp, "build_" + part))[1]}
        return {"op": op, "part": part, "refused": attempt(lambda: getattr(exp, part))[1]}

    def derive(self, exp, what):
        """Things made from the code of the experiment."""
        def go():
            if what == "visualizer":
                lat = exp.visualizer.code
                return [k for k, r in self.ref.items() if ops_of(LatticeCode(lat, r.n_rounds)) == ops_of(r)]
            with tempfile.TemporaryDirectory(prefix="verif_ex_") as tmp:
                path = os.path.join(tmp, "q.csv")
                exp.generate_empty_error_csv(path)
                t = pd.read_csv(path)
            got = list(zip(t["qubit_id"], t["qubit_type"])), list(t.columns[2:]), t[["X", "Y", "Z"]].to_numpy().any()
            return [k for k, r in self.ref.items() if got == (
                [(v.equbit_idx, "data") for v in r.lattice.dataqubits]
                + [(v.equbit_idx, "stab") for v in r.lattice.stabgens], ["X", "Y", "Z"], False)]
        cands, refused = attempt(go)
        return {"op": "derive", "what": what, "refused": refused, "cands": [] if refused else cands}

    def run(self, steps):
        exp = ExperimentConfig.from_dict(self.doc())
        evs = [{"op": "new", "cfg": dict(self.cfg), "refused": False}]
        parts = ["code", "errors", "circuit", "device", "decoder"]
        evs[0]["obs"] = {x: self.look(exp, x) for x in parts}
        for k in range(steps):
            if k == 0 and self.rnd.random() < 0.6:
                ev = {"op": "build", "refused": attempt(exp.build)[1]}
            else:
                ev = self.step(exp, None)
            evs.append(ev)
            if ev["refused"] and ev["op"] not in ("access", "derive"):
                break
            ev["obs"] = {x: self.look(exp, x) for x in parts}
        return {"kind": "history", "codes": self.codes, "errs": self.errs, "evs": evs}


def history(rnd):
    return History(rnd).run(rnd.randint(2, 9))


# -- errors of an experiment: cases for ErrorDataTrace -----------------------------
class World(edm.World):
    def conf(self):
        rnd = self.rnd
        on_q, on_g = rnd.random() < 0.8, rnd.random() < 0.6
        ev = {"op": "conf", "hasq": on_q, "hasg": on_g or not on_q, "qcfg": [], "gcfg": [], "same": True,
              "via": "ExperimentConfig"}
        qdoc, gdoc = {}, {}
        labels = rnd.sample(edm.COLS + ["fabrication"], rnd.randint(1, 6))
        used = []
        for lb in labels:
            while True:
                conf, js = self.qlabel(lb)
                if conf is not None:
                    break
            qdoc[lb] = {"distribution": conf[0]} | ({"params": list(conf[1:])} if len(conf) > 1 else {})
            r = rnd.random()
            if r < 0.6:
                qdoc[lb]["enabled"] = r < 0.3
            if r >= 0.3 and r < 0.6:
                continue
            used.append(lb)
            ev["qcfg"].append(js)
        for lb in rnd.sample(edm.ONE + edm.TWO, rnd.randint(1, 5)):
            conf, js = self.glabel(lb)
            if js["kind"] == "user":
                gdoc[lb] = {"distribution": "user"}
            else:
                gdoc[lb] = {"distribution": [x[0] for x in conf], "induced_errors": [x[1] for x in conf],
                            "params": [list(x[2:]) for x in conf]}
            r = rnd.random()
            if r < 0.6:
                gdoc[lb]["enabled"] = r < 0.4
            if r < 0.4 or r >= 0.6:
                ev["gcfg"].append(js)
        if not on_q:
            ev["qcfg"], used = [], []
        if not on_g:
            ev["gcfg"] = []
        ev["file"] = rnd.random() < 0.8
        cols, rows = self.frame(cols=labels)
        ev.update(self.frame_json(cols, rows))
        grows = [self.grow() for _ in range(rnd.randint(1, 4))]
        ev["grows"] = self.grow_json(grows)
        qp = self.frame_csv(cols, rows) if ev["file"] else os.path.join(self.tmp, "absent.csv")
        gp = self.gcsv(grows) if ev["file"] else os.path.join(self.tmp, "absent.csv")
        files = ev["file"] and rnd.random() < 0.5
        qdoc |= {"data_path": qp, "sample": on_q, "load_file": files}
        gdoc |= {"data_path": gp, "sample": on_g, "load_file": files}
        doc = {"code": self.doc_code, "errors": {"qubit_errors": qdoc},
               "general": {"logical_op": "X", "qec_property": ["logical_error_rate"],
                           "seed": rnd.randrange(1 << 30)}}
        if on_g or rnd.random() < 0.5:
            doc["errors"]["gate_errors"] = gdoc
        exps = []
        for _ in range(2):
            exp = ExperimentConfig.from_dict(copy.deepcopy(doc))
            exp.update_rng()
            exp.build_code()
            exp.build_errors()
            exps.append(exp.errors)
        a, b = (edm.observe(e, self.code) for e in exps)
        ev["same"] = a == b
        return exps[0], ev


def errors_case(rnd):
    tmp = tempfile.mkdtemp(prefix="verif_ex_")
    try:
        w = World(rnd, tmp)
        d = rnd.choice([{"name": "RepetitionCode", "size": 3}, {"name": "FiveQubitCode"},
                        {"name": "PlanarCode", "size": 2}, {"name": "RotatedPlanarCode", "size": 2}])
        w.doc_code = d | {"rounds": 1}
        w.code = make(d["name"], d.get("size", 0), 1)
        lat = w.code.lattice
        w.data = [v.equbit_idx for v in lat.dataqubits]
        w.stab = [v.equbit_idx for v in lat.stabgens]
        w.edges = [i for s in lat.stabgens for e in s.edges for i in (s.equbit_idx, e.data.equbit_idx)]
        ed, ev = w.conf()
        ev["refused"] = False
        ev["obs"] = edm.observe(ed, w.code)
        return {"data": w.data, "stab": w.stab, "edges": w.edges, "evs": [ev]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# -- circuits of an experiment: cases for QecTrace ----------------------------------
def circuit_case(rnd):
    name, L = rnd.choice([("RepetitionCode", 3), ("RepetitionCode", 5), ("PlanarCode", 2),
                          ("RotatedPlanarCode", 2), ("RotatedPlanarCode", 3), ("ToricCode", 2),
                          ("FiveQubitCode", 0), ("ShorCode", 0)])
    rounds = rnd.choice([1, 2, 3])
    log = "".join(rnd.choice("XZ") for _ in range(2 if name == "ToricCode" else 1))
    num = lambda: rnd.choice([0.0, round(rnd.random() / 16, 4), 0.25])  # noqa: E731
    one = lambda: {"distribution": "constant", "params": [num()]} if rnd.random() < 0.6 else \
        {"distribution": "gaussian", "params": [0.05, 0.01]}  # noqa: E731
    q = {lb: one() for lb in rnd.sample(edm.COLS, rnd.randint(0, 5))} | {"sample": rnd.random() < 0.85}
    g = {"sample": rnd.random() < 0.7}
    for lb in rnd.sample(edm.ONE + edm.TWO, rnd.randint(0, 4)):
        ch = rnd.choice(["X", "Y", "Z"] if lb in edm.ONE else edm.PAULI2)
        e = one()
        g[lb] = {"distribution": [e["distribution"]], "induced_errors": [ch], "params": [e["params"]]}
    doc = {"code": sized(name, L, rounds), "errors": {"qubit_errors": q, "gate_errors": g},
           "general": {"logical_op": log, "qec_property": ["logical_error_rate"], "seed": rnd.randrange(1 << 30)}}
    code = make(name, L, rounds)
    case = {"kind": "noisy", "code": f"{name}-{L}", "rounds": rounds, "sel": sel_of(log), "anc": False,
            "err": "", "prog": [], "noisy": [], "kept": 1, **ops_of(code)}
    ref, bad = attempt(lambda: generate_qec_circuit(code, {}, {}, log))
    exp = ExperimentConfig.from_dict(doc)
    exp.update_rng()
    exp.build_code()
    exp.build_errors()
    case["errs"] = err_json(exp.errors.qubit_errors_dict, exp.errors.gate_errors_dict)
    case |= ops_of(exp.code)
    if rnd.random() < 0.5:
        attempt(exp.build_decoder)  # must not change the errors that are simulated
    _, refused = attempt(exp.build_circuit)
    if bad or refused:
        return case | {"err": "refused" if refused else ""}
    return case | {"prog": prog_of(ref), "noisy": prog_of(exp.circuit)}


# -- runs ---------------------------------------------------------------------------
def csv(path, code, cols, value):
    lat = code.lattice
    ids = [(v.equbit_idx, "data") for v in lat.dataqubits] + [(v.equbit_idx, "stab") for v in lat.stabgens]
    with open(path, "w") as f:
        f.write(",".join(["qubit_id", "qubit_type", *cols]) + "\n")
        for i, t in ids:
            f.write(",".join([str(i), t, *(repr(float(value(i, t, c))) for c in cols)]) + "\n")


def start(rnd, doc, tmp=None):
    """Make the experiment from a dictionary or, where possible, from a file."""
    if tmp and len(doc["general"]["logical_op"]) == 1 and rnd.random() < 0.3:
        import json
        p = os.path.join(tmp, "conf.json")
        with open(p, "w") as f:
            json.dump(doc, f)
        exp = ExperimentConfig.load_json(p)
    else:
        exp = ExperimentConfig.from_dict(copy.deepcopy(doc))
    exp.build()
    return exp


def outcome(exp, shots):
    """Failures, and the number of times the simulator was run."""
    LOG.clear()
    r = exp.run()
    r = float(r)
    k = round(r * shots)
    runs = sum(1 for _, what in LOG if what == "run")
    return k, abs(r - k / shots) < 1e-9, runs if runs else -1


def general(log, seed):
    return {"logical_op": log, "qec_property": ["logical_error_rate"], "seed": seed}


def exact_case(rnd):
    name, L = rnd.choice([("RepetitionCode", 3), ("RepetitionCode", 5), ("RepetitionCode", 7),
                          ("PlanarCode", 2), ("PlanarCode", 3), ("RotatedPlanarCode", 3),
                          ("RotatedPlanarCode", 3), ("RotatedPlanarCode", 5), ("ToricCode", 2), ("ToricCode", 3)])
    rounds = rnd.choice([1, 1, 2, 3])
    code = make(name, L, rounds)
    n = code.n_data_qubits
    log = "".join(rnd.choice("XZ") for _ in range(2 if name == "ToricCode" else 1))
    r = rnd.random()
    x, z = set(), set()
    if r < 0.45:      # products of stabilizers and logical operators
        ops = [op_json(o) for o in list(code.stabilisers) + list(code.logical_ops) * 2]
        for o in rnd.sample(ops, rnd.randint(1, 3)):
            x ^= set(o[0])
            z ^= set(o[1])
    elif r < 0.9:     # few errors
        for q in rnd.sample(range(n), rnd.randint(0, n if name == "RepetitionCode" else (L - 1) // 2)):
            ch = rnd.choice("X" if name == "RepetitionCode" else "XYZ")
            x |= {q} if ch in "XY" else set()
            z |= {q} if ch in "YZ" else set()
        rounds = 1 if rnd.random() < 0.9 else rounds
        code = make(name, L, rounds)
    D = [v.equbit_idx for v in code.lattice.dataqubits]
    ch = {q: "Y" if q in x and q in z else "X" if q in x else "Z" if q in z else "" for q in range(n)}
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="verif_ex_"))
    try:
        p = os.path.join(tmp, "q.csv")
        csv(p, code, ["X", "Y", "Z"], lambda i, t, c: t == "data" and ch[D.index(i)] == c)
        shots = rnd.choice([1, 2, 5, 9])
        doc = {"code": sized(name, L, rounds),
               "errors": {"qubit_errors": {"data_path": p, "sample": True}
                          | {c: {"distribution": "user"} for c in "XYZ"}},
               "general": general(log, rnd.randrange(1 << 30)),
               "device": {"name": rnd.choice(["stim", "clifford"]), "shots": shots},
               "decoder": {"name": rnd.choice(DECODERS), "weighted": False}}
        case = {"kind": "exact", "name": name, "L": L, "rounds": rounds, "sel": sel_of(log), **ops_of(code),
                "err": [sorted(x), sorted(z), 0], "shots": shots, "k": 0, "whole": True, "runs": -1,
                "dev": doc["device"]["name"], "dec": doc["decoder"]["name"]}
        exp, refused = attempt(lambda: start(rnd, doc, tmp))
        if refused:
            return case | {"refused": True}
        case |= ops_of(exp.code)
        out, refused = attempt(lambda: outcome(exp, shots))
        if refused:
            return case | {"refused": True}
        return case | {"refused": False, "k": out[0], "whole": out[1], "runs": out[2]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def odds_case(rnd):
    err, log = rnd.choice(["XZ", "ZX", "XX", "ZZ", "XZ", "ZX"])
    L = rnd.choice([3, 5])
    rounds = rnd.choice([1, 2] if L == 3 else [1]) if err == "Z" and log == "X" else 1
    shots = rnd.choice([200, 300])
    doc = {"code": sized("RepetitionCode", L, rounds),
           "errors": {"qubit_errors": {"sample": True, err: {"distribution": "constant", "params": [0.25]}}},
           "general": general(log, rnd.randrange(1 << 30)),
           "device": {"name": rnd.choice(["stim", "clifford"]), "shots": shots},
           "decoder": {"name": rnd.choice(DECODERS[:2] + DECODERS[3:]), "weighted": rnd.random() < 0.5}}
    case = {"kind": "odds", "L": L, "rounds": rounds, "err": err, "log": log, "shots": shots, "k": 0,
            "whole": True, "runs": -1, "dev": doc["device"]["name"], "dec": doc["decoder"]}
    out, refused = attempt(lambda: outcome(start(rnd, doc), shots))
    if refused:
        return case | {"refused": True}
    return case | {"refused": False, "k": out[0], "whole": out[1], "runs": out[2]}


def repeat_case(rnd):
    name, L, rounds = rnd.choice([("RepetitionCode", 3, 1), ("RepetitionCode", 3, 2), ("RotatedPlanarCode", 3, 1),
                                  ("PlanarCode", 2, 2), ("ToricCode", 2, 1)])
    shots = 64
    doc = {"code": sized(name, L, rounds),
           "errors": {"qubit_errors": {"sample": True, "X": {"distribution": "constant", "params": [0.2]},
                                       "Z": {"distribution": "gaussian", "params": [0.2, 0.05]},
                                       "measurement": {"distribution": "constant", "params": [0.05]}}},
           "general": general("ZZ" if name == "ToricCode" else rnd.choice("XZ"), 0),
           "device": {"name": rnd.choice(["stim", "clifford"]), "shots": shots},
           "decoder": {"name": rnd.choice(DECODERS), "weighted": False}}
    seeds = [rnd.randrange(1 << 30) for _ in range(8)]
    seeds += rnd.sample(seeds, 2)
    case = {"kind": "repeat", "name": name, "L": L, "rounds": rounds, "res": [], "whole": True,
            "dev": doc["device"]["name"]}
    exp, refused = attempt(lambda: ExperimentConfig.from_dict(doc))
    for s in seeds:
        if refused:
            break

        def again():
            exp.general_conf["seed"] = s
            exp.build()
            return outcome(exp, shots)

        out, refused = attempt(again)
        if not refused:
            case["res"].append([s, out[0]])
            case["whole"] = case["whole"] and out[1]
    return case | {"refused": refused}


ALONE = """
import json, sys
from plaquette.frontend import ExperimentConfig
e = ExperimentConfig.from_dict(json.load(sys.stdin))
e.build()
print("RESULT", json.dumps([str(e.circuit), round(float(e.run()), 9)]))
"""


def process_case(rnd):
    """The same experiment in interpreters that differ in nothing but hash values."""
    gauss = lambda: {"distribution": "gaussian", "params": [round(0.05 + rnd.random() / 9, 3), 0.03]}
    code = sized(*rnd.choice([("RepetitionCode", 3, 2), ("RotatedPlanarCode", 2, 1)]))
    doc = {"code": code, "general": general(rnd.choice("XZ"), rnd.randrange(1 << 30)),
           "errors": {"qubit_errors": {"sample": True} | {k: gauss() for k in rnd.sample(["X", "Y", "Z", "erasure", "measurement"], 4)},
                      "gate_errors": {"sample": True} | {
                          g: {"distribution": ["gaussian"], "induced_errors": ["XZ" if g in ("CX", "CZ") else "X"],
                              "params": [[0.1, 0.03]]} for g in rnd.sample(["H", "R", "M", "CX", "CZ"], 3)}},
           "device": {"name": rnd.choice(["stim", "clifford"]), "shots": 16},
           "decoder": {"name": "UnionFindNoWeights", "weighted": False}}
    case = {"kind": "process", "name": code["name"], "res": [], "refused": False}
    for h in rnd.sample(range(1, 1000), 4):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", ALONE], input=json.dumps(doc), text=True,
                           capture_output=True, env=dict(os.environ, PYTHONHASHSEED=str(h)))
        lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
        if p.returncode or not lines:
            case["refused"] = True
            case["why"] = p.stderr[-300:]
            break
        case["res"].append(hashlib.sha256(lines[0].encode()).hexdigest()[:16])
    return case


def decoder_case(rnd):
    L = rnd.choice([3, 5])
    w = [rnd.choice([1, 2, 3]) for _ in range(L)]
    weighted = rnd.random() < 0.7
    dec = rnd.choice(["PyMatchingDecoder", "FusionBlossomDecoder"])
    code = make("RepetitionCode", L, 1)
    D = [v.equbit_idx for v in code.lattice.dataqubits]
    case = {"kind": "decoder", "L": L, "w": w, "weighted": weighted, "dec": [], "name": dec}
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="verif_ex_"))
    try:
        p = os.path.join(tmp, "q.csv")
        csv(p, code, ["X"], lambda i, t, c: 1 / (1 + 3 ** w[D.index(i)]) if t == "data" else 0.0)
        doc = {"code": sized("RepetitionCode", L, 1),
               "errors": {"qubit_errors": {"data_path": p, "sample": True, "X": {"distribution": "user"}}},
               "general": general(rnd.choice("XZ"), 3), "decoder": {"name": dec, "weighted": weighted}}
        exp, refused = attempt(lambda: start(rnd, doc, tmp))
        if refused:
            return case | {"refused": True}
        for m in range(1 << (L - 1)):
            syn = np.array([[bool(m >> i & 1) for i in range(L - 1)]])
            out, bad = attempt(lambda: op_json(exp.decoder.decode(None, syn)))
            if bad:
                return case | {"refused": True}
            case["dec"].append({"syn": [i + 1 for i in range(L - 1) if syn[0, i]], "x": out[0], "z": out[1]})
        return case | {"refused": False}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def file_case(rnd):
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="verif_ex_"))
    try:
        code = make("RotatedPlanarCode", 2, 1)
        q = {"pauli": {v.equbit_idx: {"x": round(rnd.random() / 4, 3)} for v in code.lattice.dataqubits}}
        circ = generate_qec_circuit(code, q, {}, rnd.choice("XZ"))
        p = os.path.join(tmp, "c.txt")
        with open(p, "w") as f:
            f.write(str(circ))
        has = rnd.random() < 0.6
        doc = {"code": sized("RotatedPlanarCode", 2, 1), "errors": {},
               "general": general("X", 1),
               "circuit": {"circuit_provided": True, "has_errors": has, "circuit_path": p}}
        exp = ExperimentConfig.from_dict(doc)

        def go():
            if rnd.random() < 0.5:
                exp.build()
            else:
                exp.build_code()
                exp.build_errors()
                exp.build_circuit()
            return exp.circuit

        got, refused = attempt(go)
        return {"kind": "file", "has_errors": has, "refused": refused,
                "same": not refused and prog_of(got) == prog_of(Circuit.from_str(str(circ)))
                and prog_of(got) == prog_of(circ)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


CASES = {"history": (history, 5), "exact": (exact_case, 6), "odds": (odds_case, 1), "repeat": (repeat_case, 1),
         "decoder": (decoder_case, 2), "file": (file_case, 1)}


def main():
    rec = Recorder()
    spy()
    mode = rec.cfg["mode"]
    n = int(rec.cfg["count"])
    if mode == "runs":
        for what, (fn, share) in CASES.items():
            for k in range(n * share // 16):
                if rec.mine(k):
                    rec.run(f"{what}-{k}", fn, rec.rng("experiment", what, k), kind=what)
        for k in range(max(2, n // 64)):
            if rec.mine(k):
                rec.run(f"process-{k}", process_case, rec.rng("experiment", "process", k), kind="process")
    else:
        fn = {"errors": errors_case, "circuits": circuit_case}[mode]
        for k in range(n):
            if rec.mine(k):
                rec.run(f"{mode}-{k}", fn, rec.rng("experiment", mode, k), kind=mode)
    rec.close()


if __name__ == "__main__":
    main()
