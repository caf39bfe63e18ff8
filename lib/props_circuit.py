"""C01, C02: circuit execution."""


def describe(case, bad):
    if "steps" not in case:
        return str(case)
    k = bad[0]
    prog = [(s["ins"]["g"], s["ins"]["p"], s["ins"]["i"], s["ins"]["q"])
            for s in case["steps"][:k]]
    return f"{case['id']}: {bad[1]} at instruction {k} of {prog}"


def sig(case, bad):
    k = bad[0]
    g = "end"
    if 1 <= k <= len(case.get("steps", [])):
        g = case["steps"][k - 1]["ins"]["g"]
    return f"{g}:{bad[-1]}"


def _mc(chk):
    chk.model_check("MCPauli", consts={"MaxQ": 2}, workers=4,
                    invs=["Laws", "Gates", "Comm"])
    chk.model_check("MCCircuit", consts={"NQubits": 2, "MaxLen": chk.pick(3, 4), "PD": 4},
                    invs=["Valid", "Pure", "WeightsSumToOne", "Repeatable", "BlockInv", "OneBranch",
                          "ErasureCount"],
                    workers=8, timeout=700)


def run(chk, noise):
    _mc(chk)
    cfg = dict(noise=noise, count=chk.pick(220 if noise else 320, 3000),
               closure=[[1, True], [2, chk.thorough and not noise]])
    tr = chk.record_parallel("circuit", 8, **cfg)
    chk.validate("CircuitTrace", tr, consts={"PD": 16}, invs=["SpecValid", "BranchInv"],
                 sig=sig, describe=describe, timeout=800)
    return chk.finish()


def c01(chk):
    return run(chk, False)


def c02(chk):
    return run(chk, True)


def _stim_sig(case, bad):
    return "stim:" + bad[-1]


def _stim_desc(case, bad):
    prog = [(s["g"], s["p"], s["i"], s["q"]) for s in case.get("prog", [])]
    return f"{case['id']}: {bad[-1]} for {prog} (probabilities in quarters); samples {case.get('freq', [])[:6]}"


def c03(chk):
    tr = chk.record_parallel("stimdist", 8, count=chk.pick(400, 2500),
                             shots=chk.pick(8192, 16384), budget=chk.pick(11, 13))
    v = chk.validate("DistTrace", tr, consts={"PD": 4}, sig=_stim_sig, describe=_stim_desc,
                     timeout=850)
    return chk.finish()


def _sess_desc(case, bad):
    if "evs" not in case:
        return str(case)
    h = [(e["op"], e["d"], e["cid"], e["reset"], e["m"], e["err"]) for e in case["evs"][:bad[0]]]
    return f"{case['id']} on {case['api']} builders={case['builders']} {case['kw']}: {bad[-1]} after {h}"


def _sess_sig(case, bad):
    k = bad[0]
    if not 1 <= k <= len(case.get("evs", [])):
        return bad[-1]
    return f"{case['api'][case['evs'][k - 1]['d'] - 1]}:{bad[-1]}"


def c04(chk):
    chk.model_check("MCSession", consts={"MaxOps": chk.pick(3, 4), "PD": 4},
                    invs=["WholeRuns", "Toggle", "Bell", "OneState"])
    tr = chk.record_parallel("session", 8, count=chk.pick(400, 4000), depth=chk.pick(4, 5))
    chk.validate("SessionTrace", tr, consts={"PD": 4}, invs=["DevValid"], sig=_sess_sig,
                 describe=_sess_desc)
    return chk.finish()


def _pldesc(case, bad):
    e = case["evs"][bad[0] - 1] if bad[0] else {}
    return f"{case['id']} step {bad[0]}: {bad[-1]}: {str(e)[:700]}"


def c25(chk):
    chk.model_check("MCPlugin", consts={"Max": chk.pick(5, 7)}, invs=["Own", "OnlyKnown"])
    tr = chk.record_parallel("plugin", 8, count=chk.pick(3000, 40000))
    chk.validate("PluginTrace", tr, describe=_pldesc)
    return chk.finish()
