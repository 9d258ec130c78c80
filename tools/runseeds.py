#!/usr/bin/env python3
"""Runs the check of its property on every planted bug:  runseeds.py [ids]  ->  Markdown table"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
print("| bug | property | what it breaks | check | reported at |\n|---|---|---|---|---|")
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    w = "/tmp/runseed"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("target"))
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, check=True)
    r = subprocess.run(["python3", "engine/check.py", m["property"], "quick"], cwd=ROOT, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    at = [l.strip().split(" (")[0] for l in r.stdout.splitlines() if "reached from" in l][:1]
    print("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), {1: "caught", 0: "missed"}.get(r.returncode, r.returncode), ("`%s`" % at[0].replace("|", "\\|")) if at else ""), flush=True)
shutil.rmtree("/tmp/runseed", ignore_errors=True)
