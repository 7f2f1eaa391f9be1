"""dev tool: regenerates DESIGN.md from tools/design_head.md, the specifications, evidence and findings (run after the checks)"""
import sys, json, glob, importlib, os
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
out = [open("/verif/tools/design_head.md").read().rstrip(), ""]
P = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l); P[d["id"]] = d
KF = json.load(open("/verif/known_findings.json"))
seeds = {}
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
out += ["## 5. Properties, one by one", ""]
for i in sorted(P):
    f = "/verif/specs/%s.py" % i
    if not os.path.exists(f): continue
    m = importlib.import_module("specs." + i); e = {}
    try: e = json.load(open("/verif/evidence/%s.json" % i))["coverage"]
    except Exception: pass
    out += ["### %s — %s" % (i, P[i]["title"]), ""]
    if getattr(m, "DESIGN", None): out += [m.DESIGN.strip(), ""]
    if e:
        fns = sorted({x.split("(")[0].replace("Cantera::", "") for x in e["functions_under_contract"]})
        out += ["*Under contract* (%d obligations, %d discharged; sources %s): %s." % (e["obligations"], e["discharged"], ", ".join("`%s`" % t for t in m.TUS), ", ".join(fns)), ""]
        u = [x if isinstance(x, str) else x.get("name", str(x)) for x in e.get("undecided", [])]
        if u: out += ["*Undecided (bounded stand-in):* " + ", ".join(u), ""]
    sec = [(getattr(m, k).__doc__ or "").strip() for k in sorted(vars(m)) if k.startswith("v_")]
    sec = [s for s in sec if s]
    if sec: out += ["*What is specified:* " + "; ".join(sec) + ".", ""]
    if getattr(m, "ASSUME", []): out += ["*Assumed, not proved:*", ""] + ["- " + a for a in m.ASSUME] + [""]
    out += ["*Bounded stand-in / replay driver* (`drivers/%s`): %s%s." % (m.DRIVER, getattr(m, "BOUND", ""), "; %d cases on a quick run" % e["bounded"]["cases"] if e and e.get("bounded", {}).get("cases") else ""), ""]
    for k in KF["findings"]:
        if k["property"] == i: out += ["*Known finding* (`%s`): %s" % (", ".join(k["match"]), k["what"]), ""]
    fx = [x.split(" ", 3)[2:] for x in KF["fixed"] if x.startswith("fixed: property=%s " % i)]
    if fx: out += ["*Defects found by this check and repaired in /repo:*", ""] + ["- `%s` %s" % (a, b) for a, b in fx] + [""]
    for s, mt in seeds.get(i, []): out += ["*Planted bug* `%s`: needs %s; %s. %s" % (s, mt["needs"], mt["what_it_breaks"], "Caught." if s not in json.load(open("/verif/tools/missed.json")) else "Missed: " + json.load(open("/verif/tools/missed.json"))[s]), ""]
out += ["## 6. Not applicable", ""]
for k, v in sorted(json.load(open("/verif/tools/not_applicable.json")).items()): out += ["- **%s** %s: %s" % (k, P[k]["title"], v)]
for i in sorted(P):
    if not os.path.exists("/verif/specs/%s.py" % i) and i not in json.load(open("/verif/tools/not_applicable.json")): out += ["- **%s** %s: see MANIFEST.json" % (i, P[i]["title"])]
open("/verif/DESIGN.md", "w").write("\n".join(out) + "\n")
