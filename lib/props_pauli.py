"""C19, C20: Pauli operators and stabilizer states."""


def c19(chk):
    chk.model_check("MCPauli", consts={"MaxQ": 2}, workers=4, invs=["Laws", "Gates", "Comm"])
    chk.model_check("MCPauliText", label="MCPauliText texts", consts={"N": 2, "MaxLen": chk.pick(4, 5)},
                    invs=["RoundTrip", "Grammar", "Products"])
    if chk.thorough:
        chk.model_check("MCPauliText", label="MCPauliText operators", consts={"N": 3, "MaxLen": 0},
                        invs=["RoundTrip", "Grammar", "Products"])
    tr = chk.record_parallel("pauliops", 8, count=chk.pick(700, 8000))
    chk.validate("PauliOpsTrace", tr, describe=lambda c, b: f"{c['id']}: {b[-1]}: {str(c)[:500]}")
    return chk.finish()


def _sdesc(case, bad):
    k = bad[0]
    if not 1 <= k <= len(case.get("evs", [])):
        return f"{case['id']}: {bad}"
    e = {a: b for a, b in case["evs"][k - 1].items() if a != "br"}
    return f"{case['id']} step {k}: {bad[-1]}: {str(e)[:300]}"


def c20(chk):
    for n in chk.pick([2, 3], [2, 3, 4]):
        chk.model_check("MCStabGroup", label=f"MCStabGroup {n} qubits", consts={"N": n}, extra="VIEW View\n",
                        invs=["Refines", "MeasureRefines", "InsertRemove", "TensorRemove",
                              "MeasureRemove"], timeout=1200)
    tr = chk.record_parallel("states", 8, count=chk.pick(1500, 15000))
    chk.validate("StatesTrace", tr, describe=_sdesc, invs=["SpecValid"])
    return chk.finish()
