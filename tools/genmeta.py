#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import props
NA = getattr(props, "NOT_APPLICABLE", {})
out = []
for pid, p in sorted({**props.PROPS, **NA}.items()):
    out.append({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quantifier"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": p.get("hook", "cfg snips_nlu_verif re-exports private items (src/lib.rs)")},
    })
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
open(R + "/properties.jsonl", "w").write("".join(json.dumps(o, ensure_ascii=False) + "\n" for o in out))
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg snips_nlu_verif", "enable": 'RUSTFLAGS="--cfg snips_nlu_verif" (set by check.py)',
              "source_commits": props.HOOK_COMMITS if hasattr(props, "HOOK_COMMITS") else []},
    "checks": [{
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3)",
        "level": p.get("level", "model_checking"),
        "level_note": "All values within the bounds (%s). Assumes the stand-ins of the unavailable packages and trusts rustc's IR, the executor and Z3; every counterexample is replayed natively. Not covered: %s." % (
            "; ".join("%s: %s" % (x["entry"], x["bounds"]) for x in p["harnesses"]), p.get("outside", "")),
    } for pid, p in sorted(props.PROPS.items())],
    "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(NA.items())],
}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
app = ""
for pid, p in sorted(props.PROPS.items()):
    app += "\n**%s: %s.**\n\n" % (pid, p["title"])
    for x in p["harnesses"]:
        app += "* `%s`: %s\n" % (x["entry"], x["bounds"])
    app += "* outside: %s\n" % p.get("outside", "-")
mark = "<!-- generated by tools/genmeta.py -->\n"
d = open(R + "/DESIGN.md").read()
d = d[:d.index(mark) + len(mark)] + app
# planted bugs: from their meta.json
import glob
rows = ["| planted bug | property | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), j["property"], j["needs"].replace("|", "/").replace("\n", " ")))
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
d = d[:d.index(a) + len(a)] + "\n".join(rows) + "\n" + d[d.index(b):]
open(R + "/DESIGN.md", "w").write(d)
try:
    import jsonschema
    for o in out:
        jsonschema.validate(o, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
