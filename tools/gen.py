#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in sorted(list(props.INFO) + list(props.NA)):
        r = props.INFO.get(pid) or props.NA[pid]
        f.write(json.dumps({k: r[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
         if l.split(" ", 1)[1].startswith("verif:")]
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "cfg(jxl_verif)", "enable": "RUSTFLAGS='--cfg jxl_verif' JXL_VERIF_DIR=<directory of generated hook modules> (done by tools/check.py)",
              "source_commits": hooks},
    "checks": [{"property": p, "quick_cmd": f"python3 tools/check.py {p} quick", "thorough_cmd": f"python3 tools/check.py {p} thorough",
                "technique": r["technique"], "level": r["level"], "level_note": r["level_note"]} for p, r in sorted(props.INFO.items())],
    "not_applicable": [{"property": p, "reason": r["reason"]} for p, r in sorted(props.NA.items())],
    "notes": "known findings and fixed defects: known_findings.json; design and coverage: DESIGN.md",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# ---- DESIGN.md: the hand-written parts and one section per property, so that it stays in step ----
import re
import check
out = [open(os.path.join(V, "tools/design_head.md")).read(), "\n## The properties\n"]
for p, r in sorted(props.INFO.items()):
    hs = check.harnesses(p, "thorough")
    out.append(f"### {p} {r['title']}\n\n{r['statement']}\n\n*Over:* {r['quantifier']['text']}. *Why not tests:* {r['why_tests_cant']}.\n\n"
               f"*Specified functions:* {', '.join(r['functions'])}.\n\n*Decided by:* {r['technique']}; {r['level_note']}.\n")
    if r["assumptions"]:
        out.append("*Assumptions:* " + "; ".join(r["assumptions"]) + ".\n")
    out.append("| obligation group | in | kind |\n|---|---|---|")
    for n, h in hs.items():
        out.append(f"| {n} | {h['module']} | {h['kind']} |")
    out.append("")
out.append("## Not applicable\n")
for p, r in sorted(props.NA.items()):
    out.append(f"* **{p} {r['title']}** — {r['reason']}")
out.append("\n## Defects found on the way\n\nEach was repaired by one `fix:` commit in /repo (known_findings.json records them; a fixed entry suppresses nothing).\n")
for k in json.load(open(os.path.join(V, "known_findings.json"))):
    out.append(f"* {k['property']} ({k['status']}{', ' + k['commit'] if k.get('commit') else ''}): {k['what']}")
out.append("\n## Planted bugs\n\n`seeded/<id>`: patch, demonstration and what it needs to manifest. All are caught by the quick check of their property unless noted. (`seeded_more/` holds the same kind of planted bugs, moved there only so that a whole vcheck ends in time.)\n")
out.append("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
caught = json.load(open(os.path.join(V, "tools/caught.json"))) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
dirs = [(d, os.path.join(V, b)) for b in ("seeded", "seeded_more") if os.path.isdir(os.path.join(V, b)) for d in os.listdir(os.path.join(V, b))]
for d, sd in sorted(dirs):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, m['property'] + ' quick')} |")
out.append("\n" + open(os.path.join(V, "tools/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
