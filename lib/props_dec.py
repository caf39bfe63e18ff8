"""C13-C17: syndrome graphs and decoders."""
import json


def _gdesc(case, bad):
    if case["kind"] == "request":
        return f"{case['id']}: {bad[-1]}: {case['what']} {case['err']}"
    return (f"{case['id']} {case['code']} rounds={case['rounds']} mode={case['mode']} via={case['via']}: {bad[-1]} "
            f"{json.dumps(case['pm'] or case['uw'])[:400]}")


def c13(chk):
    chk.model_check("MCSynGraph", consts={"R": 2, "Big": chk.pick("FALSE", "TRUE")}, invs=["Explains"])
    tr = chk.record_parallel("syngraph", 8, count=chk.pick(300, 3000))
    chk.validate("SynGraphTrace", tr, describe=_gdesc, timeout=850, heap="10g")
    return chk.finish()


def _ddesc(case, bad):
    if case["kind"] == "request":
        return f"{case['id']}: {bad[-1]}: {case['what']} {case['err']}"
    if case["kind"] == "low":
        return (f"{case['id']} {case['dec']} n={case['n']} edges={case['edges']}: {bad[-1]} "
                f"{json.dumps(case['steps'])[:500]}")
    return (f"{case['id']} {case['dec']} {case['code']} rounds={case['rounds']} {case['mode']}: {bad[-1]} "
            f"{json.dumps(case['steps'])[:400]}")


def _dsig(case, bad):
    return bad[-1] if bad[-1] == "library panic on an erasure" else f"{case['kind']}:{bad[-1]}"


MCD = ["ErasureIn", "Stuck", "ExplainsAtEnd", "NoNeedlessGrowth", "Corrects"]


def c14(chk):
    chk.model_check("MCDecoding", label="any order of growth", consts={"Graphs": "{1,2,3,4}", "Policy": '"any"', "Full": 2},
                    invs=MCD, props=["Ends"])
    tr = chk.record_parallel("decode", 8, mode="any", low=chk.pick(600, 8000), high=chk.pick(300, 3000))
    chk.validate("DecodeTrace", tr, describe=_ddesc, sig=_dsig, timeout=850, heap="10g")
    return chk.finish()


def c15(chk):
    chk.model_check("MCDecoding", label="minimum weight", consts={"Graphs": "{1,2,3}", "Policy": '"smallest"', "Full": 2},
                    invs=["Minimum"])
    tr = chk.record_parallel("decode", 8, mode="optimal", low=chk.pick(600, 8000), high=chk.pick(200, 2000))
    chk.validate("DecodeTrace", tr, describe=_ddesc, timeout=850, heap="10g")
    return chk.finish()


def c16(chk):
    chk.model_check("MCDecoding", label="smallest clusters first", invs=MCD, props=["Ends"],
                    consts={"Graphs": chk.pick("{1,3,5}", "{1,2,3,4,5,6,7}"), "Policy": '"smallest"', "Full": 2})
    chk.model_check("MCDecoding", label="any order of growth", invs=MCD, props=["Ends"],
                    consts={"Graphs": "{1,2,3,4,5}", "Policy": '"any"', "Full": 2})
    tr = chk.record_parallel("decode", 8, mode="growth", low=chk.pick(600, 8000))
    chk.validate("DecodeTrace", tr, describe=_ddesc, timeout=850, heap="10g")
    return chk.finish()


def _cdesc(case, bad):
    return f"{case['id']} {case['code']}: {bad[-1]}"


def c17(chk):
    chk.model_check("MCDecoding", label="union-find corrects", invs=MCD, props=["Ends"],
                    consts={"Graphs": chk.pick("{1,2,3,4,5}", "{1,2,3,4,5,6,7}"), "Policy": '"smallest"', "Full": 2})
    chk.model_check("MCDecoding", label="union-find corrects, quarter steps", invs=MCD,
                    consts={"Graphs": chk.pick("{1,2,3,4,5}", "{1,2,3,4,5,6,7}"), "Policy": '"smallest"', "Full": 4})
    chk.model_check("MCDecoding", label="minimum weight corrects", invs=["MinCorrects"],
                    consts={"Graphs": "{1,2,3,4,6}", "Policy": '"smallest"', "Full": 2})
    tr = chk.record_parallel("correct", 8, random=chk.pick(6, 60), pipeline=chk.pick(160, 2000),
                             verdict=chk.pick(160, 2000))
    chk.validate("CorrectTrace", tr, describe=_cdesc, timeout=850, heap="10g",
                 sig=lambda c, b: b[-1] if b[-1].startswith("erasure of") else f"{c['kind']}:{b[-1]}")
    return chk.finish()


def _pdesc(case, bad):
    what = case.get("runs") or case.get("ops")
    return f"{case['id']} n={case['n']} edges={case['edges']}: {bad[-1]} {json.dumps(what)[:500]}"


def c23(chk):
    for g, name in ((1, "path"), (2, "long path"), (3, "ring with a chord"), (4, "parallel edges"), (5, "two clusters")):
        chk.model_check("MCPeeling", label=name, consts={"Graphs": "{%d}" % g}, props=["Ends0"],
                        invs=["Balance", "Inside", "KeepsForest", "NoLoss", "LeafLeft"])
    tr = chk.record_parallel("peel", 8, peel=chk.pick(1200, 15000), graph=chk.pick(1200, 15000))
    chk.validate("PeelTrace", tr, describe=_pdesc)
    return chk.finish()
