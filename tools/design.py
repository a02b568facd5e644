#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, the check modules, properties.jsonl, seeded/*/meta.json and
known_findings.json: `python3 tools/design.py`."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 "C01": "the value that was written and an independent line parser of the text",
 "C02": "the generating model (every number encodes section, row and column, so a mixed-up field is visible)",
 "C03": "a dictionary path -> current content; time stamps and byte lengths are kept equal so that no cache can tell the files apart",
 "C04": "the generating model; values encode frame, atom and component",
 "C05": "the generating model; the directory is decoded independently, types through type_map.raw",
 "C06": "a list of frame numbers transformed by the same selections",
 "C07": "the set of all (site, translation) pairs",
 "C08": "an ordered list of (element, position, moment) transformed by each operation's definition",
 "C09": "brute force over all periodic images (checks/pyc.py: images), compared one to one; equal distances in any order",
 "C10": "closed form of the features and their gradient on the brute-force neighbour set",
 "C11": "brute-force count of periodic images below the cutoff",
 "C12": "the definitions evaluated on the brute-force set / on the generating trajectory",
 "C13": "reference geometry: reciprocal lattice, distances along the path, orbits under the brute-force point group",
 "C14": "the definitions of VBM, CBM, gap, directness, metallicity evaluated on the table",
 "C15": "column sums chosen by exact element and orbital name",
 "C16": "invariants (composition, order, volume sign, strain from the metric tensor, displacement norm) for every answer vector of the random source",
 "C17": "an independent periodic table",
 "C18": "independent models of the consuming programs (sbatch header rules, etot.input key = value, fixed columns)",
 "C19": "a plain value model (std::vector) per slot; ASan/UBSan; byte balance of the allocator",
 "C20": "all lattice translations; geometric bin of each atom; brute force over the 27 bins; ASan/UBSan",
 "C21": "brute-force neighbour set with periodic images per axis; ASan/UBSan",
 "C22": "brute force on the Python side; ASan in the extension; earlier results compared after every later call; reference counts and memory growth",
 "C23": "closed form and gradient on the brute-force neighbour set; every padding entry; ASan/UBSan; byte balance",
 "C24": "closed form and gradient per slot; single frames against batches; ASan/UBSan for the headers",
 "C25": "Chebyshev polynomials in closed form (cos(n acos u)) times the switch; value model for histories; byte balance",
 "C26": "independent enumeration of all multisets of moment pairs",
 "C27": "the definition evaluated with dual numbers (exact first derivatives)",
 "C28": "an independent reader of the potential format; value model for histories; byte balance",
 "C29": "definitions; a guard pattern per cell; ASan/UBSan; byte balance",
 "C30": "the checkpoint that was written, entry by entry",
 "C31": "statistics and features computed from the brute-force neighbour set",
 "C32": "brute-force neighbour set slot by slot; a recording model whose outputs are known functions of its inputs",
}


def attrs(pid):
    t = ast.parse(open(os.path.join(V, "checks", pid.lower() + ".py")).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "RULE", "BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    cost = json.load(open(os.path.join(V, "tools", "cost.json")))
    head, tail = open(os.path.join(V, "tools", "design_head.md")).read().split("<!-- GENERATED -->\n")
    o = [head]
    o.append("## 3. Property by property\n")
    for p in props:
        a = attrs(p["id"])
        o.append("### %s %s\n" % (p["id"], p["title"]))
        o.append("*Specified:* %s\n" % p["statement"])
        o.append("*Decided by:* %s.\n" % a.get("TECHNIQUE", "").rstrip("."))
        o.append("*Enumerated:* %s.\n" % a.get("RULE", "").rstrip("."))
        o.append("*Oracle:* %s.\n" % ORACLE[p["id"]])
        b = a.get("BOUNDS", {})
        o.append("*Bounds:* quick: %s; thorough: %s.\n" % (b.get("quick", b), b.get("thorough", "the same")))
        c = cost.get(p["id"])
        if c:
            o.append("*Cost (8 cores):* quick %s; thorough %s.\n" % (c["quick"], c["thorough"]))
        o.append("*Why tests cannot settle it:* %s\n" % p["why_tests_cant"])
        o.append("*Code:* %s\n" % ", ".join("`%s`" % f for f in p["anchors"]["files"]))
    o.append(tail)
    o.append("## 7. Planted bugs (seeded/)\n\nEvery one applies to HEAD, builds, keeps the 8 stable tests, and has a demonstration. `caught` names the check that reports it.\n\n| id | property | needs | caught |\n|---|---|---|---|")
    miss = set(json.load(open(os.path.join(V, "tools", "missed.json"))))
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], "**no**" if i in miss else m["property"]))
    o.append("")
    k = json.load(open(os.path.join(V, "known_findings.json")))
    o.append("## 8. Defects found and repaired (%d)\n\nEach is one minimal `fix:` commit in /repo; the check that found it passes on the repaired tree and reports the defect again if the commit is reverted.  There are no open known findings.\n" % len(k["fixed"]))
    for l in k["fixed"]:
        _, pr, h, what = l.split(" ", 3)
        o.append("- %s `%s` %s" % (pr.split("=")[1], h, what))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")


main()
