import json, os
LEVEL = "model_checking"
NOTE = ("bounded symbolic execution of the real modules; z3 decides every obligation for all input values on every "
        "explored path; bounds, stubs and what is outside are in the evidence file and DESIGN.md; arithmetic is over "
        "the reals (floating-point rounding is not modelled)")
ids = sorted(f[:-3].upper() for f in os.listdir("checks") if f.startswith("c") and f[1:3].isdigit())
allids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=i, quick_cmd=f"./run {i} --tier quick", thorough_cmd=f"./run {i} --tier thorough",
                      technique="symbolic execution of the real Python code with an SMT solver (z3)", level=LEVEL,
                      level_note=NOTE) for i in ids],
         not_applicable=[dict(property=i, reason="check under construction") for i in allids if i not in ids],
         notes="no hooks in /repo; the modules are instrumented in memory at import")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
