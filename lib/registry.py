from . import props_circuit, props_codes, props_dec, props_doc, props_exp, props_pauli, props_qec

REGISTRY = {
    "C01": props_circuit.c01,
    "C02": props_circuit.c02,
    "C03": props_circuit.c03,
    "C04": props_circuit.c04,
    "C05": props_doc.c05,
    "C06": props_doc.c06,
    "C07": props_codes.c07,
    "C08": props_codes.c08,
    "C09": props_codes.c09,
    "C10": props_qec.c10,
    "C11": props_qec.c11,
    "C12": props_qec.c12,
    "C13": props_dec.c13,
    "C14": props_dec.c14,
    "C15": props_dec.c15,
    "C16": props_dec.c16,
    "C17": props_dec.c17,
    "C18": props_exp.c18,
    "C19": props_pauli.c19,
    "C20": props_pauli.c20,
    "C21": props_exp.c21,
    "C22": props_exp.c22,
    "C23": props_dec.c23,
    "C24": props_codes.c24,
    "C25": props_circuit.c25,
}
