"""Record histories of experiment configurations (C21)."""
import copy
import json
import os
import shutil
import tempfile

import toml

from plaquette.frontend import (
    CircuitConfig,
    CodeConfig,
    DecoderConfig,
    DeviceConfig,
    ErrorsConfig,
    ExperimentConfig,
    GateErrorsConfig,
    QubitErrorsConfig,
    _GateErrorMetadata,
    _QubitErrorMetadata,
)

from rec.base import Hang, Recorder, RecorderBug

QL = ["X", "Y", "Z", "erasure", "measurement", "fabrication"]
GL = ["CZ", "CX", "H", "R", "M", "fabrication"]
SECTION = {"code": CodeConfig, "device": DeviceConfig, "decoder": DecoderConfig,
           "circuit": CircuitConfig, "qubit": QubitErrorsConfig, "gate": GateErrorsConfig}


class World:
    """Documents over the files of a scratch directory, and their encoding."""

    def __init__(self, rnd, tmp):
        self.rnd, self.tmp, self.n = rnd, tmp, 0
        self.wrong = 0.0   # how often a value is chosen that may be wrong
        for f in ("a.csv", "b.csv", "c.txt"):
            open(os.path.join(tmp, f), "w").close()

    # -- encoding ----------------------------------------------------------
    def txt(self, v):
        if isinstance(v, str):
            return "s:" + v.replace(self.tmp, "$T")
        if isinstance(v, bool):
            return "true" if v else "false"
        return repr(v) if isinstance(v, (int, float)) else "?" + repr(v)

    def seq(self, v):
        return [self.txt(x) for x in v] if isinstance(v, (list, tuple)) else ["?" + repr(v)]

    def dist(self, v):
        if isinstance(v, (list, tuple)):
            return {"k": "list", "v": self.seq(v)}
        return {"k": "str", "v": [self.txt(v)]}

    def flat(self, d):
        return {k: self.txt(v) for k, v in d.items()}

    def qentry(self, d):
        return {k: self.seq(v) if k == "params" else self.txt(v) for k, v in d.items()}

    def gentry(self, d):
        enc = {"distribution": self.dist, "induced_errors": self.seq,
               "params": lambda p: [self.seq(x) for x in p]}
        return {k: enc.get(k, self.txt)(v) for k, v in d.items()}

    def qsec(self, d):
        return {k: self.qentry(v) if k in QL else self.txt(v) for k, v in d.items()}

    def gsec(self, d):
        return {k: self.gentry(v) if k in GL else self.txt(v) for k, v in d.items()}

    def general(self, d):
        return {k: self.seq(v) if k == "qec_property" else self.txt(v) for k, v in d.items()}

    def part(self, name, d):
        return {"qubit": self.qsec, "gate": self.gsec, "general": self.general}.get(name, self.flat)(d)

    def doc(self, d):
        out = {}
        for k, v in d.items():
            if k == "errors":
                out[k] = {}
                if "qubit_errors" in v:
                    out[k]["qubit_errors"] = self.qsec(v["qubit_errors"])
                if "gate_errors" in v:
                    out[k]["gate_errors"] = self.gsec(v["gate_errors"])
            else:
                out[k] = self.part(k, v)
        return out

    def observe(self, conf):
        q, g = conf.errors_conf.qubit_errors, conf.errors_conf.gate_errors
        sec = lambda s: {k: self.txt(getattr(s, k)) for k in ("data_path", "load_file", "sample")}  # noqa: E731
        qe = lambda e: {"d": self.txt(e.distribution), "p": self.seq(e.params), "e": self.txt(e.enabled)}  # noqa: E731

        def ge(e):
            d = self.dist(e.distribution)
            return {"k": d["k"], "d": d["v"], "i": self.seq(e.induced_errors),
                    "p": [self.seq(p) for p in e.params], "e": self.txt(e.enabled)}

        at = lambda o, names: {n: self.txt(getattr(o, n)) for n in names.split()}  # noqa: E731
        return {"code": at(conf.code_conf, "name size rounds"),
                "device": at(conf.device_conf, "name shots"),
                "decoder": at(conf.decoder_conf, "name weighted"),
                "circuit": at(conf.circuit_conf, "circuit_provided has_errors circuit_path"),
                "general": self.general(conf.general_conf),
                "qubit": sec(q) | {"kinds": {k: qe(getattr(q, k)) for k in QL}},
                "gate": sec(g) | {"kinds": {k: ge(getattr(g, k)) for k in GL}}}

    def sims(self, conf):
        q, g = conf.errors_conf.qubit_errors.simulated_errors, conf.errors_conf.gate_errors.simulated_errors
        out = []
        for s, is_q in ((q, True), (g, False)):
            if s is None:
                out.append({"none": True, "path": "", "errs": []})
                continue
            errs = []
            for k, v in s[0].items():
                if is_q:
                    errs.append([k, self.txt(v[0]), self.seq(v[1:])])
                elif isinstance(v, tuple):
                    errs.append([k, "str", self.seq(v), [], []])
                else:
                    errs.append([k, "list", self.seq([x[0] for x in v]), self.seq([x[1] for x in v]),
                                 [self.seq(x[2:]) for x in v]])
            out.append({"none": False, "path": self.txt(s[1]), "errs": errs})
        return out[0], out[1], conf.errors_conf.simulated_errors == (q, g)

    # -- documents ---------------------------------------------------------
    def off(self, good, bad):
        return self.rnd.choice(bad if self.rnd.random() < self.wrong else good)

    def some(self, d, p=0.75):
        return {k: v() for k, v in d.items() if self.rnd.random() < p}

    def flag(self):
        return self.rnd.random() < 0.5

    def code(self):
        name = self.off(["RotatedPlanarCode", "PlanarCode", "ToricCode", "RepetitionCode", "FiveQubitCode",
                         "ShorCode"], ["ColorCode", "planarcode", "FiveQubit"])
        d = {"name": name}
        if name not in ("FiveQubitCode", "ShorCode") or self.flag():
            d["size"] = self.off([1, 2, 3, 5, 17], [0, -1, -4, 2.5, 3.0])
            if d["size"] == 3.0 and d.get("name") in ("FiveQubitCode", "ShorCode"):
                d["size"] = 3  # whether 3.0 is a size for codes without one is left open
        if self.rnd.random() < self.wrong / 2:
            d.pop(self.rnd.choice(list(d)))
        if self.rnd.random() < 0.8:
            d["rounds"] = self.off([1, 2, 7, 100], [0, -1, 1.5])
        return d

    def device(self):
        return self.some({"name": lambda: self.off(["stim", "clifford"], ["Stim", "qpu"]),
                          "shots": lambda: self.off([1, 10, 1024, 1000000], [0, -5, 13.3, 1000001])})

    def decoder(self):
        return self.some({"name": lambda: self.off(["PyMatchingDecoder", "UnionFindDecoder",
                                                    "UnionFindNoWeights", "FusionBlossomDecoder"],
                                                   ["UnionFind", "Matching"]), "weighted": self.flag})

    def file(self, names, missing):
        return os.path.join(self.tmp, self.off(names, missing))

    def circuit(self):
        return self.some({"circuit_provided": self.flag, "has_errors": self.flag,
                          "circuit_path": lambda: self.file(["c.txt"], ["d.txt", "no/c.txt"])})

    def number(self):
        return self.rnd.choice([0.0, 1.0, 0.1, 0.25, 1e-5, round(self.rnd.random(), 3), self.rnd.random()])

    def qerr(self):
        kind = self.off(["user", "constant", "gaussian"], ["user", "constant", "gaussian", "uniform", ""])
        n = {"user": 0, "constant": 1, "gaussian": 2}.get(kind, 0)
        n = self.off([n], [0, 1, 2, 3] if kind else [0])
        d = {"distribution": kind}
        if n or self.flag():
            d["params"] = [self.number() for _ in range(n)]
        return d | self.some({"enabled": self.flag})

    def gerr(self):
        rnd = self.rnd
        if rnd.random() < 0.3:
            d = {"distribution": self.off(["user"], ["constant", "", "uniform"])}
            d |= self.some({"induced_errors": lambda: self.off([[]], [["X"]]),
                            "params": lambda: self.off([[]], [[[0.1]]])}, 0.5)
            return d | self.some({"enabled": self.flag})
        k = rnd.choice([1, 1, 2, 3])
        two = [a + b for a in "IXYZ" for b in "IXYZ" if a + b != "II"]
        dist = [self.off(["constant", "gaussian"], ["user", "uniform"]) for _ in range(k)]
        d = {"distribution": dist,
             "induced_errors": [self.off(two + ["X", "Y", "Z"], ["II", "I", "xx", "XXX", "W", ""])
                                for _ in range(k)],
             "params": [[self.number() for _ in range(self.off([1 if x == "constant" else 2], [0, 1, 2, 3]))]
                        for x in dist]}
        if rnd.random() < self.wrong:
            key = rnd.choice(list(d))
            d[key] = d[key][:-1] if rnd.random() < 0.5 else d[key] + d[key][:1]
            if rnd.random() < 0.2:
                d.pop(key)
        return d | self.some({"enabled": self.flag})

    def paths(self):
        return self.some({"data_path": lambda: self.file(["a.csv", "b.csv"], ["x.csv", "no/a.csv", "a.csv"]),
                          "load_file": lambda: self.off([False, False, True], [True])}, 0.4) \
            | self.some({"sample": self.flag}, 0.6)

    def qubit(self):
        return self.paths() | self.some({k: self.qerr for k in QL}, 0.5)

    def gate(self):
        return self.paths() | self.some({k: self.gerr for k in GL}, 0.4)

    def general_doc(self):
        return {"logical_op": self.off(["X", "Z"], ["Y", "XX"]),
                "qec_property": self.off([["logical_error_rate"], ["threshold"], []], [["fidelity"]]),
                "seed": self.rnd.randrange(1 << 30)}

    def document(self):
        d = {"code": self.code()}
        if self.rnd.random() < 0.9:
            d["errors"] = self.some({"qubit_errors": self.qubit, "gate_errors": self.gate}, 0.7)
        d |= self.some({"device": self.device, "decoder": self.decoder, "circuit": self.circuit,
                        "general": self.general_doc}, 0.7)
        if self.rnd.random() < self.wrong / 4:
            d.pop("code")
        items = list(d.items())
        self.rnd.shuffle(items)
        return dict(items)

    def path(self, ext):
        self.n += 1
        return os.path.join(self.tmp, f"conf{self.n}.{ext}")


def attempt(fn):
    try:
        return fn(), False
    except (RecorderBug, Hang):
        raise
    except Exception:
        return None, True


def load(w, conf):
    d = w.document()
    via = w.rnd.choice(["dict", "dict", "toml", "json"])
    ev = {"op": "load", "via": via, "doc": w.doc(d), "same": True}
    if via == "dict":
        given = copy.deepcopy(d)
        new, ev["refused"] = attempt(lambda: ExperimentConfig.from_dict(given))
        if new is not None:
            other, again = attempt(lambda: ExperimentConfig.from_dict(given))
            ev["same"] = given == d and not again and other == new
    else:
        p = w.path(via)
        with open(p, "w") as f:
            {"toml": toml, "json": json}[via].dump(d, f)
        new, ev["refused"] = attempt(lambda: getattr(ExperimentConfig, "load_" + via)(p))
    return new or conf, ev


def target(conf, part, label):
    o = {"code": conf.code_conf, "device": conf.device_conf, "decoder": conf.decoder_conf,
         "circuit": conf.circuit_conf, "qubit": conf.errors_conf.qubit_errors,
         "gate": conf.errors_conf.gate_errors}[part]
    return getattr(o, label) if label else o


def change(w, conf):
    part = w.rnd.choice(["code", "device", "decoder", "circuit", "qubit", "gate", "qubit", "gate", "general"])
    label = w.rnd.choice(["", *(QL if part == "qubit" else GL)]) if part in ("qubit", "gate") else ""
    if part == "general":
        kv = w.some({k: lambda v=v: v for k, v in w.general_doc().items()}, 0.6)
        conf.general_conf.update(kv)
        return conf, {"op": "change", "part": part, "label": label, "kv": w.general(kv), "refused": False,
                      "same": True}
    o = target(conf, part, label)
    if label:
        kv = w.qerr() if part == "qubit" else w.gerr()
        enc = (w.qentry if part == "qubit" else w.gentry)(kv)
    else:
        kv = w.some({k: lambda v=v: v for k, v in getattr(w, part)().items()}, 0.8)
        enc = w.part(part, kv)
    if label and w.flag() and kv.get("distribution") not in ("", []):
        # parameters without a distribution are open
        kv = {k: v for k, v in kv.items() if w.rnd.random() < 0.7 or k == "distribution" and o.is_empty()}
        enc = {k: enc[k] for k in kv}

    if label and kv.get("distribution") in ("", []) and not o.is_empty():
        # for the same reason, nothing else may be left of the previous error
        if not {"params", *(["induced_errors"] if part == "gate" else [])} <= set(kv):
            kv.pop("distribution")
            enc.pop("distribution")

    def made():
        kinds = {"qubit": (QL, _QubitErrorMetadata), "gate": (GL, _GateErrorMetadata)}.get(part, ([], None))
        real = {k: kinds[1].from_dict(copy.deepcopy(v)) if not label and k in kinds[0] else v
                for k, v in kv.items()}
        if w.rnd.random() < 0.2:
            real["unknown"] = 1
        o.update(**real)

    _, refused = attempt(made)
    return conf, {"op": "change", "part": part, "label": label, "kv": enc, "refused": refused, "same": True}


def replace(w, conf):
    part = w.rnd.choice(list(SECTION))
    d = getattr(w, part)()
    given = copy.deepcopy(d)
    new, refused = attempt(lambda: SECTION[part].from_dict(given))
    if new is not None:
        if part == "qubit":
            conf.errors_conf.update(qubit_errors=new)
        elif part == "gate" and w.flag():
            conf.update(errors_conf=ErrorsConfig(qubit_errors=conf.errors_conf.qubit_errors, gate_errors=new))
        elif part == "gate":
            conf.errors_conf.update(gate_errors=new)
        else:
            conf.update(**{part + "_conf": new})
    return conf, {"op": "replace", "part": part, "doc": w.part(part, d), "refused": refused,
                  "same": given == d}


def write(w, conf):
    parts = {p: target(conf, p, "").as_dict() for p in SECTION}
    d = conf.as_dict()
    valid, bad = attempt(conf.validate)
    return conf, {"op": "write", "doc": w.doc(d), "valid": bool(valid) and not bad, "refused": False,
                  "same": True, "parts": {p: w.part(p, v) for p, v in parts.items()}}


def file(w, conf):
    via = w.rnd.choice(["toml", "json"])
    p = w.path(via)
    before = copy.deepcopy(conf)
    getattr(conf, "dump_" + via)(p)
    same = conf == before
    new, refused = attempt(lambda: getattr(ExperimentConfig, "load_" + via)(p))
    return new or conf, {"op": "file", "via": via, "refused": refused, "same": same}


def history(rnd, steps):
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="verif_conf_"))
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        w = World(rnd, tmp)
        conf, evs = None, []
        for _ in range(steps):
            w.wrong = rnd.choice([0.0, 0.0, 0.0, 0.05, 0.2])
            op = rnd.choice([load, change, change, change, replace, replace, write, file]) if conf else load
            conf, ev = op(w, conf)
            if conf is None or ev["refused"] and ev["op"] == "change":
                evs.append(ev)
                if conf is not None:
                    break  # what a refused change leaves behind is open
                continue
            ev["obs"] = w.observe(conf)
            ev["simq"], ev["simg"], pair = w.sims(conf)
            ev["same"] = ev["same"] and pair
            evs.append(ev)
        return {"exist": ["s:$T/" + f for f in ("a.csv", "b.csv", "c.txt")],
                "nodir": ["s:$T/no/" + f for f in ("a.csv", "c.txt")], "evs": evs}
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    rec = Recorder()
    for k in range(int(rec.cfg["count"])):
        if rec.mine(k):
            rnd = rec.rng("config", k)
            rec.run(f"config-{k}", history, rnd, rnd.randint(2, 8), kind="config")
    rec.close()


main()
