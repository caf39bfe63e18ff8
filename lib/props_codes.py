"""C07-C09: codes and lattices."""
import json


def _desc(case, bad):
    t = {k: v for k, v in case.items() if k not in ("counts", "lx", "lz", "pos")}
    return f"{case['id']}: {bad[-1]}: {json.dumps(t)[:500]}"


def c07(chk):
    tr = chk.record_parallel("codes", 8, count=chk.pick(1500, 12000))
    chk.validate("CodesTrace", tr, describe=_desc)
    return chk.finish()


def _ldesc(case, bad):
    evs = case.get("evs", [])
    h = [(e["o"], e["err"]) for e in evs[max(0, bad[0] - 5):bad[0]]]
    return f"{case['id']} step {bad[0]} {bad[-1]}: ... {h}"


def c08(chk):
    chk.model_check("MCLattice", consts={"Factors": chk.pick("{1, 3}", "{1, 2, 3}"), "NData": 2},
                    invs=["Sound", "Scheduled"], props=["Products", "Commuting", "Covered"], extra="VIEW View\n")
    if chk.thorough:
        chk.model_check("MCLattice", label="MCLattice 3 qubits", consts={"Factors": "{1, 3}", "NData": 3},
                        invs=["Sound", "Scheduled"], props=["Products", "Commuting", "Covered"], extra="VIEW View\n")
    tr = chk.record_parallel("lattice", 8, count=chk.pick(600, 6000), steps=chk.pick(25, 40))
    chk.validate("LatticeTrace", tr, describe=_ldesc, invs=["Inv"])
    return chk.finish()


def _fdesc(case, bad):
    return (f"{case['id']} ({case['family']} {case['size']}): {bad[-1]}: qubits {case['fq']} gates {case['fg']} "
            f"stabilizers {case['fs']} set={case['set']} given={case['given']} err={case['err']}")


def c09(chk):
    invs = ["StaysValid", "Count", "NeverUnsupported"]
    chk.model_check("MCFab", label="MCFab L=2", consts={"L": 2, "MaxRemoved": 3}, invs=invs)
    chk.model_check("MCFab", label="MCFab L=3", consts={"L": 3, "MaxRemoved": chk.pick(2, 3)}, invs=invs)
    tr = chk.record_parallel("fab", 8, count=chk.pick(600, 5000))
    chk.validate("FabTrace", tr, describe=_fdesc)
    return chk.finish()


def _drdesc(case, bad):
    if case["kind"] == "lattice":
        d = dict(case["draws"][bad[0] - 1]) if bad[0] else {}
        return (f"{case['id']} {case['family']} drawing {bad[0]}: {bad[-1]}: {json.dumps(d.get('req'))} "
                f"styles {json.dumps(d.get('styles'))[:300]} lattice {json.dumps(d.get('lat'))[:300]}")
    return f"{case['id']}: {bad[-1]}: {json.dumps(case)[:500]}"


def c24(chk):
    chk.model_check("MCDrawing", consts={"MaxEdges": chk.pick(3, 5)}, invs=["Shows"], props=["Restored"])
    tr = chk.record_parallel("drawing", 8, lattices=chk.pick(900, 9000), circuits=chk.pick(400, 4000))
    chk.validate("DrawingTrace", tr, describe=_drdesc)
    return chk.finish()
