"""C05, C06: circuit documents and OpenQASM export."""


def _desc(case, bad):
    k = bad[0]
    if not 1 <= k <= len(case.get("evs", [])):
        return str(bad)
    e = case["evs"][k - 1]
    ins = [(ln["name"], [a["v"] for a in ln["args"]]) for ln in e["lines"]]
    return f"{case['id']} step {k} {bad[1]}: {ins} err={e['err']!r} gates={e['gates'][-4:]} text={e['text'][-4:]}"


def c05(chk):
    chk.model_check("MCCircuitDoc", invs=["Refused", "Counted", "WidthMonotone"])
    tr = chk.record_parallel("circuitdoc", 8, count=chk.pick(1500, 20000))
    chk.validate("CircuitDocTrace", tr, describe=_desc)
    return chk.finish()


def _qdesc(case, bad):
    return f"{case['id']}: {bad[-1]} for {[(i['g'], i['i'], i['q']) for i in case['prog']]} -> {case['atoms']}"


def c06(chk):
    chk.model_check("MCQasm", consts={"MaxLen": chk.pick(3, 4)}, invs=["Exchange"])
    tr = chk.record_parallel("qasm", 8, count=chk.pick(1500, 20000), length=chk.pick(2, 3))
    chk.validate("QasmTrace", tr, describe=_qdesc)
    return chk.finish()
