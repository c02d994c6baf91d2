"""Writes MANIFEST.json from the list of claimed checks below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEMA = ("exploration of generated and mutated programs; trusts the reference semantics in "
        "vt/ref_sema.py and the reference parser")
CLAIMED = {
    "C01": ("online comparison with a reference lexer", "exploration of generated sources; trusts "
            "the reference lexer in vt/ref_lex.py"),
    "C03": ("online comparison with a reference parser", "exploration of generated sources; trusts "
            "the reference parser in vt/ref_parse.py"),
    "C05": ("online comparison with a reference name lookup", SEMA),
    "C06": ("online comparison with reference typing rules", SEMA),
    "C07": ("online comparison with a reference evaluator", SEMA),
    "C08": ("online comparison with a reference interpreter", SEMA),
    "C09": ("online comparison with a reference interpreter on failing programs", SEMA),
    "C02": ("online comparison with exact arithmetic on literals and printed integers",
            "exploration of generated literals in every notation, position and magnitude"),
    "C04": ("crash, hang, leak and determinism monitors over hostile sources",
            "exploration of generated and mutated sources"),
    "C14": ("online check of every printed diagnostic against the source",
            "exploration of failing programs; trusts the probe's rendering entry point"),
    "C15": ("online comparison with a reference annotation checker", "exploration of generated "
            "annotations; trusts the table of signatures in vt/checks/c15.py"),
    "C16": ("online comparison with a reference BMD parser", "exploration of generated documents; trusts "
            "the reference parser in vt/ref_bmd.py"),
    "C17": ("strict reader of the output and comparison with reference events",
            "exploration of generated documents; trusts vt/ref_bmd.py and vt/html.py"),
    "C18": ("strict reader of the output and comparison with the reference lexer",
            "exploration of generated code; trusts vt/ref_lex.py and vt/html.py"),
    "C19": ("reference parser on the generated code compared with the source's tree",
            "exploration of generated programs and all options; trusts vt/ref_parse.py"),
    "C20": ("reference interpreter compared with compiled and executed generated code",
            "exploration of generated programs and arguments; Int values within int; trusts the compilers and "
            "vt/ref_sema.py"),
    "C22": ("comparison of the tool's exit status, output and files with the reference outcome",
            "exploration of command lines, inputs and output faults; trusts the reference semantics and parsers"),
    "C23": ("object ledger and model over random operation sequences",
            "exploration of operation sequences over instantiations in harness/lifetimes.cpp"),
    "C24": ("reference dumps and plain text compared with the printed ones", "exploration of generated sources "
            "and options; trusts vt/ref_lex.py and vt/ref_parse.py"),
    "C27": ("reading of every printed message and note against reference facts",
            "exploration of failing programs and documents; trusts the reference semantics and parsers and the table "
            "of messages in vt/checks/c27.py"),
    "C25": ("strict reader and list model on scripts of calls", "exploration of generated call sequences; trusts "
            "vt/html.py"),
    "C26": ("token and layout reader on code generated with many sets of options", "exploration of generated "
            "programs and sets of options"),
    "C10": ("model of the machine compared with every cycle of random instruction sequences",
            "exploration of generated instruction sequences; trusts the model in vt/checks/c10.py and vt/ref_sema.py"),
    "C11": ("reference rules and arithmetic compared with direct calls of every operation",
            "exploration of operations, types and values; trusts vt/ref_sema.py"),
    "C13": ("dictionaries compared with the containers over random sequences of calls",
            "exploration of generated call sequences"),
    "C21": ("model of the program objects, memory ledger and reference interpreter over random histories",
            "exploration of generated histories; trusts vt/ref_sema.py"),
    "C12": ("online comparison with a reference instantiation", SEMA),
}
HOOKS = []


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
    checks = [{"property": i, "quick_cmd": f"python3 -m vt.run {i}",
               "thorough_cmd": f"env VERIF_TIER=thorough python3 -m vt.run {i}",
               "technique": "runtime monitoring: " + CLAIMED[i][0] + " under ASan+UBSan",
               "level": "exploration", "level_note": CLAIMED[i][1]} for i in ids if i in CLAIMED]
    doc = {"version": 1, "setup_cmd": "python3 -m vt.build probe lifetimes cli out core programs", "checks": checks,
           "not_applicable": [{"property": i, "reason": "not yet built"} for i in ids
                              if i not in CLAIMED]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
