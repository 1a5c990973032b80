"""Source of properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/base/smoothers/"
P = []
NA = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None, note="", state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, note))
exec(open(V + "/tools/props_data.py").read())

TECH = "symbolic execution of the LLVM IR of the real code + SMT (z3)"
TRUST = ("Path-exhaustive within the bounds listed in the evidence file: every assertion is discharged by z3 for all real/integer inputs on its path, counterexamples are replayed against the natively compiled code. "
         "Trusted: clang's lowering, the instrumentation pass and runtime (checked by native replay of models of passing paths), z3, doubles read as exact reals, textbook stand-ins for NGSolve's dense/sparse kernels. ")
def design(have):
    H = {}   # property -> [(file, assumptions, TUs, [(name, bounds, tier)])]
    for f in sorted(glob.glob(V + "/harness/*.cpp")):
        t = open(f).read(); m = re.search(r"^// PROPERTY: *(.+)$", t, re.M)
        if not m: continue
        for pid in m.group(1).split():
            hs = [(a, b.replace('" "', ""), c) for a, b, c in re.findall(r'SX_HARNESS\((\w+),\s*"((?:[^"\\]|\\.)*(?:"\s*"(?:[^"\\]|\\.)*)*)",\s*(\d)\)', t) if a.startswith(pid + "_")]
            H.setdefault(pid, []).append((os.path.basename(f), re.findall(r"^// ASSUME: *(.+)$", t, re.M), hs))
    K = json.load(open(V + "/known_findings.json"))
    seeds = []
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")): j = json.load(open(m)); seeds.append((os.path.basename(os.path.dirname(m)), j["property"], j["needs"], j["what_it_breaks"]))
    o = open(V + "/tools/design_head.md").read().rstrip() + "\n\n## 3. Properties and how each is decided\n"
    for d, note in P:
        o += "\n### %s %s\n%s\n\n* Quantified over: %s.\n* Why tests cannot settle it: %s\n" % (d["id"], d["title"], d["statement"], d["quantifier"]["text"], d["why_tests_cant"])
        o += "* Anchors: " + "; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in d["anchors"]["mechanism"]) + ".\n* %s\n" % note
        for f, ass, hs in H.get(d["id"], []):
            o += "* `harness/%s`%s\n" % (f, "".join("\n  * assumes: " + a for a in ass))
            for a, b, c in hs: o += "  * `%s`%s: %s\n" % (a, " (thorough only)" if c == "1" else "", b)
        mine = [x for x in seeds if x[1] == d["id"]]
        if mine: o += "* Planted bugs it catches: " + ", ".join("`%s`" % x[0] for x in mine) + ".\n"
    o += "\n" + open(V + "/tools/design_tail.md").read().rstrip() + "\n\n### Planted bugs (`seeded/`)\nEvery one compiles, passes the stable tests and is reported by the check of its property (`tools/bugtest.sh seeded/ID`).\n\n| id | property | needs | breaks |\n|---|---|---|---|\n"
    for x in seeds: o += "| %s | %s | %s | %s |\n" % tuple(y.replace("|", "/").replace("\n", " ") for y in x)
    o += "\n### Known finding (not repaired)\n" + "".join("* `%s` (%s): %s\n" % (k["id"], k["property"], k["what"]) for k in K["findings"])
    o += "\n### Genuine defects found and repaired (`fix:` commits in /repo)\nEach was reported by the named check with a counterexample that the natively compiled code confirmed, and is reported again when the commit is reverted.\n\n" + "".join("* %s\n" % k[len("fixed: property="):] for k in K["fixed"])
    open(V + "/DESIGN.md", "w").write(o)
if __name__ == "__main__":
    open(V + "/properties.jsonl", "w").write("".join(json.dumps(d) + "\n" for d, _ in P))
    have = set()
    for f in glob.glob(V + "/harness/*.cpp"):
        m = re.search(r"^// PROPERTY: *(.+)$", open(f).read(4000), re.M)
        if m: have.update(m.group(1).split())
    ids = [d["id"] for d, _ in P]; na = {n["property"] for n in NA}
    assert len(set(ids)) == len(ids)
    for d, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        assert (d["id"] in have) != (d["id"] in na), (d["id"], "needs exactly one of harness / not_applicable")
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(property=d["id"], quick_cmd="python3 check.py %s --tier quick" % d["id"],
               thorough_cmd="python3 check.py %s --tier thorough" % d["id"], technique=TECH, level="model_checking", level_note=TRUST + note) for d, note in P if d["id"] in have],
               not_applicable=NA, notes="No hooks in /repo: the harnesses compile /repo's sources directly. tools/props.py regenerates this file and properties.jsonl.")
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    design(have)
    print(len(P), "properties,", len(man["checks"]), "checks,", len(NA), "not applicable; harnesses without property:", sorted(have - set(ids)))
