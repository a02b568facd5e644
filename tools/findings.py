#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix commits (run by hand after a fix, never by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "C19 C19 C20 C20 C20 C20 C21 C08 C01 C02 C08 C08 C03 C02 C03 C14 C14 C04 C13 C04 C04 C04 C06 C06 C06 C06 C05 C09 C12 C12 C12 C06 C06 C10 C13 C14 C15 C15 C15 C15 C15 C16 C16 C18 C18 C22 C22 C22 C23 C23 C23 C24 C25 C25 C25 C25 C25 C25 C26 C26 C26 C26 C28 C28 C28 C28 C29 C29 C29 C27 C27 C27 C27 C27".split()
EXTRA = {"ed5a50c": "C02", "9db4d60": "C02", "e6b5731": "C30", "cfd38d4": "C31", "637a084": "C31", "bd423e6": "C31", "f54c433": "C32", "098894d": "C32", "4e6848f": "C26", "9b976bc": "C26", "fb4bfb3": "C09", "93fdf60": "C14"}
L = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", os.environ.get("MATERSDK_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
L = [(h, s[4:].strip()) for h, s in L if s.startswith("fix:")]
for i, (h, s) in enumerate(L):
    if i >= len(M) and h not in EXTRA:
        raise SystemExit("no property recorded for %s %s" % (h, s))
k = json.load(open(os.path.join(V, "known_findings.json")))
k["fixed"] = ["fixed: property=%s %s %s" % (M[i] if i < len(M) else EXTRA[h], h, s) for i, (h, s) in enumerate(L)]
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump(k, f, indent=1)
    f.write("\n")
