"""C10-C12: circuits of error correction experiments and their results."""


def _desc(case, bad):
    if case.get("kind") == "request":
        return f"{case['id']}: {bad[-1]}: {case['what']} on {case['code']}: {case['err']}"
    return (f"{case['id']} code={case.get('code')} rounds={case.get('rounds')} sel={case.get('sel')} "
            f"ancilla={case.get('anc')}: {bad[-1]} (instruction {bad[0]}) err={case.get('err')}")


def c10(chk):
    chk.model_check("MCQec", consts={"Rounds": chk.pick(2, 3)}, invs=["ReferenceMeets", "Sensitive"])
    tr = chk.record_parallel("qec", 8, mode="noisefree", count=chk.pick(700, 3500))
    chk.validate("QecTrace", tr, describe=_desc, invs=[], timeout=850, heap="12g")
    return chk.finish()


def c11(chk):
    tr = chk.record_parallel("qec", 8, mode="noisy", count=chk.pick(500, 5000))
    chk.validate("QecTrace", tr, describe=_desc, timeout=850, heap="12g")
    return chk.finish()


def c12(chk):
    tr = chk.record_parallel("sample", 8, count=chk.pick(400, 4000))
    chk.validate("SampleTrace", tr,
                 describe=lambda c, b: f"{c['id']} code={c.get('code')} {b[-1]} (ancilla={c.get('anc')}, sel={c.get('sel')})")
    return chk.finish()
