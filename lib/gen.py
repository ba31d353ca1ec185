"""Writes properties.jsonl and MANIFEST.json from the table in proptext.py."""
import glob
import json
import os

from designtext import CAUGHT, HEAD, PER, TAIL
from proptext import PROPTEXT
from props import PROPS, SUITES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


PROPTEXT.sort(key=lambda p: p["id"])


def main():
    assert [p["id"] for p in PROPTEXT] == sorted(PROPS) == sorted(PER)
    with open(VERIF + "/properties.jsonl", "w") as f:
        for p in PROPTEXT:
            assert len(p["title"]) <= 80, p["title"]
            assert p["id"] in PROPS, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks = []
    for p in PROPTEXT:
        pid = p["id"]
        specs = ", ".join(p["specs"])
        checks.append(dict(
            property=pid, quick_cmd=f"./check.sh {pid} quick", thorough_cmd=f"./check.sh {pid} thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=f"TLA+ specification ({specs}) checked with TLC; behaviours replayed into the code and "
                      "recorded executions validated against the specification",
            level="model_checking", level_note=p["note"]))
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=[]), f, indent=1)
        f.write("\n")
    design()


def design():
    o = [HEAD, "\n## Properties\n"]
    for p in PROPTEXT:
        d, pid = PER[p["id"]], p["id"]
        q = PROPS[pid]
        o.append(f"### {pid} {p['title']}\n\n{p['statement']}\n")
        o.append(f"* Specified: {d['spec']}\n* Checked in: {', '.join('`' + f + '`' for f in p['files'])}\n"
                 f"* Compared with the specification: {', '.join(p['observe'])}\n* Why tests do not settle it: {p['why']}")
        for s in q["suites"] if isinstance(q, dict) else q:
            t = SUITES[s]
            for tier in ("quick", "thorough"):
                e = "; ".join(f"{x['cfgs']} depth {x['depth']}" + (f" ({x['simulate']} random behaviours)" if x.get("simulate") else "")
                              + (f", at most {x['limit']} behaviours" if x.get("limit") else ", all behaviours") for x in t[tier]["explore"])
                o.append(f"* Bounds, {s}, {tier}: {e}; {t[tier]['traces']} recorded executions")
        o.append(f"* Not asserted: {d['limits']}\n")
    o.append("## Findings\n\nRepaired (each a `fix:` commit in /repo):\n")
    k = json.load(open(VERIF + "/known_findings.json"))
    o += ["* " + x[len("fixed: property="):] for x in k["fixed"]]
    o.append("\nRecorded, not repaired: " + ("none." if not k["findings"] else ""))
    o += ["* " + (x if isinstance(x, str) else json.dumps(x)) for x in k["findings"]]
    o.append("\n## Planted bugs\n\n| change | property | needs | caught by |\n|---|---|---|---|")
    for f in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
        m = json.load(open(f))
        o.append(f"| {f.split('/')[-2]}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {CAUGHT.get(f.split('/')[-2], m['property'])} |")
    o.append("\n" + TAIL)
    with open(VERIF + "/DESIGN.md", "w") as f:
        f.write("\n".join(o))


main()
