#!/usr/bin/env python3
"""writes known_findings.json: recorded findings (FINDINGS below) and the repairs committed in /repo ("fix:" commits)"""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FINDINGS = json.load(open(os.path.join(V, "tools", "findings.json")))
PROP = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
old = {}
kf = os.path.join(V, "known_findings.json")
if os.path.exists(kf):
    for e in json.load(open(kf))["fixed"]:
        old[e.split(" ")[2]] = e
fixed = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s", "8f07d6f..HEAD"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split("|", 1)
    if s.startswith("fix: "):
        prop = next((p for k, p in PROP.items() if s[5:].startswith(k)), "C08")
        fixed.append("fixed: property=%s %s %s" % (prop, h, s[5:]))
json.dump({"findings": FINDINGS, "fixed": fixed or list(old.values())}, open(kf, "w"), indent=1)
print(len(FINDINGS), "findings", len(fixed), "fixed")
