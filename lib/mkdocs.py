"""Writes properties.jsonl and MANIFEST.json from the tables in props.py and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
TECH = "symbolic execution of the compiled LLVM IR with z3 deciding branches and assertions (bounded), native replay of counterexamples"
checks = []; na = []
for p in props.PROPS:
    i = p["id"]
    if i in registry.PROPS:
        P = registry.PROPS[i]
        b = "; ".join("%s: %s" % (j["name"], j["bounds"]) for j in P["jobs"] if not j.get("thorough_only"))
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check %s --tier=thorough" % i, technique=P.get("technique", TECH), level="model_checking",
                           level_note="Bounded: every value within these bounds, nothing beyond them. " + b + ". Trusts the engine's IR semantics (validated per run against native execution of sampled paths, and by the repository's own suites), clang's front end and z3."))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="mkdir -p build && make -s -j4 -C engine B=../build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: harnesses include the repository's headers and are compiled together with its sources.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(props.PROPS), "properties,", len(checks), "checks,", [x["property"] for x in na], "not claimed")

# tables at the end of DESIGN.md
d = os.path.join(V, "DESIGN.md"); t = open(d).read().split("<!-- tables -->")[0].rstrip() + "\n\n<!-- tables -->\n"
t += "## 6. Jobs and bounds\nDefines in brackets: quick, then thorough.\n\n| property | job | bounds | [quick] [thorough] |\n|---|---|---|---|\n"
for i, P in registry.PROPS.items():
    for j in P["jobs"]:
        f = lambda x: " ".join("%s=%s" % k for k in sorted(x.items()))
        t += "| %s | %s (%s) | %s | [%s] [%s] |\n" % (i, j["name"], ", ".join(j["src"]) or "generated", j["bounds"], f(j["defs"]), f(j["thorough"]))
t += "\n## 7. Planted bugs\nEach was written from the property and the code, compiles, passes the 568 tests and is demonstrated by its `demo.sh`.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
S = os.path.join(V, "seeded")
if os.path.isdir(S):
    c = json.load(open(os.path.join(V, "lib", "caught.json")))
    for s in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, s, "meta.json")))
        t += "| %s | %s | %s | %s | %s |\n" % (s, m["property"], m["needs"], m["what_it_breaks"], c.get(s, m["property"]))
open(d, "w").write(t)
