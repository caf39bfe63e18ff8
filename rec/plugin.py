"""Record devices with plugin backends that log what they are asked (C25)."""
import numpy as np
from plaquette import circuit as pc
from plaquette import device as pd

from rec import circuit_gen as cg
from rec.base import Recorder, err_name

LOG = []       # one entry per backend, in order of creation


class Entry:
    """Stands in for an installed entry point."""

    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def load(self):
        return self.cls


def plain(x):
    if isinstance(x, (pc.Circuit, pc.CircuitBuilder)):
        return "circuit " + str(x.tag)
    return repr(x)


def asked(what, *a, **k):
    return " ".join([what, *map(plain, a), *(f"{n}={plain(v)}" for n, v in sorted(k.items()))])


def make_plugin(name):
    class Backend:
        def __init__(self, *args, **kwargs):
            self.me = {"name": name, "args": asked("", *args, **kwargs), "calls": []}
            LOG.append(self.me)
            self.jobs = 0
            self._circ = None

        def note(self, what, *a, **k):
            self.me["calls"].append(asked(what, *a, **k))
            self.answer = f"{name}/{len(LOG)}/{len(self.me['calls'])}"
            return self.answer

        def run(self, *a, **k):
            r = self.note("run", *a, **k)
            self.jobs += 1
            if self.jobs % 4 == 3:
                raise ConnectionError("the remote machine cannot be reached")
            return r

        def get_sample(self, *a, **k):
            return (self.note("get_sample", *a, **k), None)

        @property
        def is_completed(self):
            self.note("is_completed")
            # Jobs that are completed may have to be repeated
            self.answer = [(len(self.me["calls"]) * 5 + j) % 3 > 0 for j in range(self.jobs)]
            return self.answer

        def reset(self, *a, **k):
            return self.note("reset", *a, **k)

        def __iter__(self):
            return iter([self.note("iter")])

        def __next__(self):
            return self.note("next")

        @property
        def state(self):
            return self.note("state")

        @property
        def n_qubits(self):
            return self.note("n_qubits")

        @property
        def circ(self):
            return self.note("get circuit")

        @circ.setter
        def circ(self, c):
            self.note("set circuit", c)
    return Backend


def circuit(rnd, k):
    prog = [cg.I("X", [0]), cg.I("M", [0])] if rnd.random() < 0.5 else [cg.I("H", [1]), cg.I("CX", [1, 0]), cg.I("M", [0, 1])]
    c = cg.build(prog, 4)
    if rnd.random() < 0.5:
        c = pc.CircuitBuilder(c)
    c.tag = k
    return c


def history(rnd):
    LOG.clear()
    before = dict(pd.recognized_devices)
    try:
        return {"kind": "history", "evs": run(rnd)}
    finally:
        pd.recognized_devices.clear()
        pd.recognized_devices.update(before)


def run(rnd):
    names = rnd.sample(["remote", "qpu", "annealer", "Stim", "cliffordx"], 3)
    classes = {n: make_plugin(n) for n in names}
    circs = [circuit(rnd, k) for k in range(3)]
    devs, kinds, ran, evs = [], [], [], []
    for _ in range(rnd.randint(4, 14)):
        e = {"err": "", "fails": "", "ret": "", "want": "", "name": "", "args": "", "what": "", "d": 0}
        r = rnd.random()
        if r < 0.15:
            e |= {"op": "register", "name": rnd.choice(names)}
            pd.recognized_devices[e["name"]] = Entry(e["name"], classes[e["name"]])
        elif r < 0.4 or not devs:
            local = rnd.random() < 0.25
            e["op"] = "create"
            e["name"] = rnd.choice(["clifford", "stim"]) if local else rnd.choice(names + ["", "CLIFFORD"] * (rnd.random() < 0.2))
            a = () if local else tuple(rnd.choice([1, "token", None, (2, 3)]) for _ in range(rnd.choice([0, 0, 1, 2])))
            k = {} if local else {n: rnd.choice([1, "x", False]) for n in rnd.sample(["backend", "shots", "url", "name"], rnd.choice([0, 1, 2]))}
            if "backend" in k:
                k.pop("backend")
            e["args"] = asked("", *a, **k)
            try:
                devs.append(pd.Device(e["name"], *a, **k))
                kinds.append(e["name"])
                ran.append(False)
            except Exception as x:
                e["err"] = err_name(x)
        else:
            d = rnd.randrange(len(devs))
            dev, local = devs[d], kinds[d] in ("clifford", "stim")
            e |= {"op": "call", "d": d + 1}
            c = rnd.choice(circs)
            what = rnd.choice(["run", "run", "get_sample", "is_completed"]) if not local or ran[d] else rnd.choice(["run", "is_completed"])
            if not local and rnd.random() < 0.3:
                what = rnd.choice(["reset", "iter", "next", "state", "n_qubits", "get circuit", "set circuit"])
            try:
                if what == "run":
                    k = {}
                    if rnd.random() < 0.6:
                        k["shots"] = rnd.choice([1, 2, 100])
                    if rnd.random() < 0.3:
                        k["after_reset"] = True
                    e["what"] = asked("run", c, shots=k.get("shots", 1))
                    ran[d] = True
                    got = dev.run(c, **k)
                elif what == "get_sample":
                    e["what"] = what
                    got = dev.get_sample()
                elif what == "is_completed":
                    e["what"] = what
                    got = dev.is_completed
                elif what == "reset":
                    a = tuple(rnd.choice([1, "hard"]) for _ in range(rnd.choice([0, 1])))
                    e["what"] = asked("reset", *a)
                    got = dev.reset_backend(*a)
                elif what == "iter":
                    e["what"] = what
                    got = next(iter(dev))
                elif what == "next":
                    e["what"] = what
                    got = next(dev)
                elif what in ("state", "n_qubits"):
                    e["what"] = what
                    got = getattr(dev, what)
                elif what == "get circuit":
                    e["what"] = what
                    got = dev.circuit
                else:
                    e["what"] = asked("set circuit", c)
                    dev.circuit = c
                    got = ""
                if local:
                    e["ret"] = "None" if what == "is_completed" and got is None else "other" if what == "is_completed" else ""
                    e["want"] = "None" if what == "is_completed" else ""
                else:
                    be = next(b for b in ([dev._backend] if hasattr(dev, "_backend") else vars(dev).values())
                              if isinstance(b, classes[kinds[d]]))
                    e["ret"] = "" if what == "set circuit" else repr(got)
                    e["want"] = "" if what == "set circuit" else repr((be.answer, None) if what == "get_sample" else be.answer)
            except StopIteration as x:
                e["err"] = err_name(x)
            except Exception as x:
                e["err"] = err_name(x)
            if not local and what == "run":
                be = [i for i, n in enumerate(kinds[:d + 1]) if n not in ("clifford", "stim")]
                n_run = sum(q.startswith("run") for q in LOG[len(be) - 1]["calls"]) if len(LOG) >= len(be) else 0
                e["fails"] = "ConnectionError" if n_run % 4 == 3 else ""
        e["log"] = [dict(x, calls=list(x["calls"])) for x in LOG]
        evs.append(e)
    return evs


def main():
    rec = Recorder()
    np.random.seed(0)
    for i in range(int(rec.cfg["count"])):
        if rec.mine(i):
            rec.run(f"plug{i}", history, rec.rng("plug", i), kind="history", limit=30)
    rec.close()


if __name__ == "__main__":
    main()
