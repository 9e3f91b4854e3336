"""Write properties.jsonl, MANIFEST.json and DESIGN.md from tools/meta.py and the harness modules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import importlib  # noqa

from meta import P, NA  # noqa

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                       observe_at=p["observe"] or [w for _, w in p["mechanism"]][:1], hook_needed=None)
        if p["state"]:
            anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=anchors)) + "\n")

na = {i for i, _ in NA}
checks, sections = [], []
for p in P:
    if p["id"] in na:
        continue
    m = importlib.import_module("harness." + p["id"].lower())
    info = m.INFO
    checks.append(dict(
        property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
        thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="symbolic execution of the real Python code with z3 deciding every branch and assertion",
        level="model_checking",
        level_note="Bounded: holds for every value within the bounds (%s). Outside: %s. Trusted: z3, the proxy "
                   "arithmetic (validated by replaying sampled paths on the unpatched code), exact reals standing for "
                   "floats%s" % (info["bounds"], info["outside"],
                                 "".join("; " + a for a in info.get("assumptions", [])))))
    sections.append("### %s %s\n\n%s\n\n*Decided by*: %s\n\n*Bounds*: %s.\n\n*Outside the claim*: %s.\n%s" % (
        p["id"], p["title"], p["statement"], p["design"], info["bounds"], info["outside"],
        ("\n*Assumptions*: " + "; ".join(info["assumptions"]) + ".\n") if info.get("assumptions") else ""))

with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks,
                   not_applicable=[dict(property=i, reason=r) for i, r in NA],
                   notes="No hooks in /repo are needed. All checks share one engine (symx/) and one harness module per "
                         "property (harness/)."), f, indent=1)
    f.write("\n")

with open(os.path.join(HERE, "tools", "design_head.md")) as f:
    head = f.read()
body = head.replace("@@PROPERTIES@@", "\n".join(sections))
body = body.replace("@@NA@@", "\n".join("* %s: %s" % (i, r) for i, r in NA) or "None.")
with open(os.path.join(HERE, "known_findings.json")) as f:
    kf = json.load(f)
body = body.replace("@@FIXED@@", "\n".join("* " + x for x in kf["fixed"]) or "None.")
body = body.replace("@@KNOWN@@", "\n".join("* %s: %s" % (k["property"], k["what"]) for k in kf["known"]) or "None.")
res = os.path.join(HERE, "tools", "seeded_results.json")
rows = json.load(open(res)) if os.path.exists(res) else {}
table = []
for sid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    mp = os.path.join(HERE, "seeded", sid, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        table.append("| %s | %s | %s | %s |" % (sid, m["property"], m["what_it_breaks"], rows.get(sid, "not run")))
body = body.replace("@@SEEDED@@", "\n".join(table))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(body)
