"""C18: error data."""


def _edesc(case, bad):
    k = bad[0]
    if not 1 <= k <= len(case.get("evs", [])):
        return str(bad)
    e = dict(case["evs"][k - 1])
    return f"{case['id']} step {k} {bad[1]}: {str(e)[:500]}"


def c18(chk):
    chk.model_check("MCErrorData", consts={"MaxLen": chk.pick(3, 4)},
                    invs=["TypeOK", "OnlyEnabled", "Unique", "Sides", "Files", "LastGate", "Idempotent"])
    tr = chk.record_parallel("errordata", 8, count=chk.pick(1200, 12000))
    chk.validate("ErrorDataTrace", tr, describe=_edesc)
    return chk.finish()


def c21(chk):
    chk.model_check("MCConfig", consts={"MaxLen": chk.pick(1, 2)},
                    invs=["TypeOK", "RoundTrip", "Written", "NoChange", "Simulated"], props=["Apart"])
    tr = chk.record_parallel("config", 8, count=chk.pick(2000, 20000))
    chk.validate("ConfigTrace", tr, describe=_edesc)
    return chk.finish()


def _xdesc(case, bad):
    if case["kind"] == "history":
        tail = [{k: v for k, v in e.items() if k != "obs"} for e in case["evs"][:bad[0]]]
        return f"{case['id']} {bad[-1]}: {str(tail)[:600]}"
    drop = ("stabs", "logs", "prog", "noisy", "errs")
    return f"{case['id']} {bad[-1]}: {str({k: v for k, v in case.items() if k not in drop})[:500]}"


def c22(chk):
    chk.model_check("MCExperiment", consts={"MaxLen": chk.pick(4, 5)},
                    invs=["Fresh", "Stepwise", "Founded"], props=["Apart"])
    tr = chk.record_parallel("experiment", 8, mode="runs", count=chk.pick(640, 6400))
    chk.validate("ExperimentTrace", tr, describe=_xdesc)
    tr = chk.record_parallel("experiment", 8, mode="errors", count=chk.pick(300, 3000))
    chk.validate("ErrorDataTrace", tr, describe=_edesc)
    tr = chk.record_parallel("experiment", 8, mode="circuits", count=chk.pick(200, 2000))
    chk.validate("QecTrace", tr, describe=_xdesc)
    return chk.finish()
