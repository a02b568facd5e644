import itertools, os, re
import numpy as np
from .pyc import Scratch
PROPERTY = "C02"
TECHNIQUE = "exhaustive enumeration of atom.config texts (all section subsets, orders, letter cases, number formats, sizes) read by every real reader and compared with the generating model"
RULE = "every subset and order of the optional sections x letter case x number format x atom count; every field value is index-coded, so any mixed-up row, column or section is visible"
BOUNDS = {"quick": "4 optional sections (one of them unknown to the reader), all 65 ordered subsets; 5 header lines; 4 letter cases; 4 formats; 5 styles of white space; 1, 3, 12 atoms for every layout, 64..1001 atoms for some; stress on/off; trailing separator on/off",
          "thorough": "1, 2, 3, 4, 7, 12, 30 atoms for every layout"}
FMT = {"E": lambda v: "%.10E" % v, "f": lambda v: "%.9f" % v, "e3": lambda v: "%25.16e" % v, "g": lambda v: repr(float(v))}
CASE = {"asis": lambda s: s, "upper": lambda s: s.upper(), "lower": lambda s: s.lower(), "mixed": lambda s: "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))}
HEAD = {"md": ("atoms,Iteration (fs) =    0.3000000000E+01, Etot,Ep,Ek (eV) =   ", ", SCF =     7"),
        "mdn": ("atoms,Iteration (fs) =    0.3000000000E+01, Etot,Ep,Ek (eV) =   ", ""),
        "relax": ("atoms,Iteration =  21, Etot,Ep,Ek =  ", ", Average Force=  0.61164E-02, Max force=  0.18141E-01"),
        "old": ("atoms,Iteration=    0.0000000000E+00, Etot,Ep,Ek=   ", "")}
SECT = ("force", "velocity", "magnetic", "eatom")
ZS = [14, 3, 8, 92, 1, 118, 26, 14, 42, 16, 16, 7]


def model(n):
    m = {"n": n, "z": [ZS[i % len(ZS)] for i in range(n)]}
    sgn = lambda i, k: -1.0 if (i + k) % 3 == 1 else 1.0
    m["lat"] = np.array([[8.7595, 0.0, -0.25], [1e-3, 7.125, 0.5], [-1.5, 0.75, 123.4567]])
    m["vir"] = np.array([[11.5558, 4.881, -2.3877], [4.25, -0.001, 3.5], [-6.75, 0.125, 1e3]])
    A = lambda base, w: np.array([[sgn(i, k) * (base + i * 0.0625 + k * 0.01) for k in range(w)] for i in range(n)])
    m["pos"] = A(0.05, 3) * 0.5
    m["force"] = A(10.0, 3)
    m["velocity"] = A(20.0, 3)
    m["magnetic"] = A(30.0, 1)
    m["eatom"] = A(40.0, 3)
    m["e"] = (-28318.81714, -28366.65392, 47.83678177)
    return m


def restyle(line, ws):
    """the same line with other white space around the columns (text headings keep their single blanks)"""
    lead, body = {"tab": "\t", "flush": "", "deep": " " * 9, "wide": "  "}[ws], line.strip()
    if ws == "tab":
        body = re.sub(r"(?<=[0-9.])[ ]{2,}(?=[-0-9])", "\t", body)
    elif ws == "wide":
        body = re.sub(r"(?<=[0-9.])[ ]{2,}(?=[-0-9])", " " * 17, body)
    elif ws == "flush":
        body = re.sub(r"(?<=[0-9.])[ ]{2,}(?=[-0-9])", " ", body)
    return lead + body + ("  " if ws == "wide" else "")


def text(m, order, cs, fm, stress, tail, header, ws="std"):
    t = text_std(m, order, cs, fm, stress, tail, header)
    if ws == "std":
        return t
    L = t.split("\n")
    ind = {"tab": "\t", "deep": "    "}.get(ws, "")     # section headings may be indented as well
    return "\n".join([L[0]] + [restyle(l, ws) if l[:1] == " " and "---" not in l else (ind + l if l[:1].isalpha() else l) for l in L[1:]])


def text_std(m, order, cs, fm, stress, tail, header):
    f, c = FMT[fm], CASE[cs]
    L = []
    if header in HEAD:
        h, e = HEAD[header]
        L.append("  %d %s" % (m["n"], c(h) + "%.10E  %.10E   %.10E" % m["e"] + c(e)))
    else:
        L.append("  %d %s" % (m["n"], c("atoms")))
    L.append(c("Lattice vector (Angstrom)" + (", stress" if stress and header == "md" and fm == "f" else "")))
    for k in range(3):
        r = "   " + "    ".join(f(v) for v in m["lat"][k])
        if stress:
            r += c("     stress (eV): ") + "  ".join(f(v) for v in m["vir"][k])
        L.append(r)
    L.append(c("Position (normalized), move_x, move_y, move_z"))
    for i in range(m["n"]):
        L.append(" %2d    " % m["z"][i] + "    ".join(f(v) for v in m["pos"][i]) + "     1  1  1")
    head = {"force": "Force (-force, eV/Angstrom)", "velocity": {"E": "Velocity (bohr/fs)", "f": "STRESS_MASK", "e3": "CONSTRAINT_MAG", "g": "WEIGHT_ATOM"}[fm], "magnetic": "Magnetic",
            "eatom": "Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  -0.1281163115E+06"}
    for s in order:
        L.append(c(head[s]))
        for i in range(m["n"]):
            L.append(" %2d    " % m["z"][i] + "    ".join(f(v) for v in m[s][i]))
    if tail:
        L.append(" " + "-" * 49)
    return "\n".join(L) + "\n"


def check(run, m, order, t, stress, header, d):
    from matersdk.io.pwmat.utils.acextractor import ACExtractor, ACstrExtractor
    from matersdk.io.publicLayer.structure import DStructure
    n = m["n"]
    tol = 1e-9
    p = os.path.join(d, "x.config")
    with open(p, "w") as f:
        f.write(t)
    a, b = ACExtractor(file_path=p), ACstrExtractor(atom_config_str=t)
    for who, x in (("file", a), ("string", b)):
        run.expect(x.get_num_atoms() == n and x.num_atoms == n, who + ": atom count", got=x.get_num_atoms(), text=t)
        run.close(np.asarray(x.get_basis_vectors()).reshape(-1), m["lat"].reshape(-1), tol, who + ": lattice", text=t)
        run.expect(list(np.asarray(x.get_types()).reshape(-1)) == m["z"], who + ": types", got=list(x.get_types()), want=m["z"], text=t)
        run.close(np.asarray(x.get_coords()).reshape(-1), m["pos"].reshape(-1), tol, who + ": coordinates", text=t)
    for at, w in (("basis_vectors", m["lat"]), ("types", m["z"]), ("coords", m["pos"])):
        run.close(np.asarray(getattr(a, at)).reshape(-1), np.asarray(w).reshape(-1), tol, "file attribute " + at)
    mag = m["magnetic"].reshape(-1) if "magnetic" in order else np.zeros(n)
    run.close(np.asarray(a.get_magmoms()), mag, tol, "file: magnetic moments", text=t)
    if "magnetic" in order:
        run.close(np.asarray(b.get_magmoms()), mag, tol, "string: magnetic moments", text=t)
    else:
        missing(run, b.get_magmoms, "magnetic moments")
    if "eatom" in order:
        run.close(np.asarray(b.get_eatoms()), m["eatom"][:, 0], tol, "per-atom energies", text=t)
    else:
        missing(run, b.get_eatoms, "per-atom energies")
    run.close(np.asarray(b.get_fatoms()).reshape(-1), (m["force"] if "force" in order else np.zeros((n, 3))).reshape(-1), tol, "forces", text=t)
    if stress:
        run.close(np.asarray(b.get_virial()).reshape(-1), m["vir"].reshape(-1), tol, "virial", text=t)
    else:
        missing(run, b.get_virial, "virial")
    if header in HEAD:
        run.close(np.asarray(b.get_etot()).reshape(-1), [m["e"][0]], tol, "total energy", text=t)
    s1, s2 = DStructure.from_file(p, "pwmat"), DStructure.from_str(t, "pwmat")
    for s in (s1, s2):
        run.expect([x.Z for x in s.species] == m["z"], "structure: species", got=[x.Z for x in s.species])
        run.close(s.frac_coords, m["pos"], tol, "structure: coordinates")
        run.close(s.lattice.matrix, m["lat"], tol, "structure: lattice")
    run.validated(4)


def missing(run, f, what):
    try:
        v = f()
    except AttributeError:
        return
    run.expect(False, "%s reported although the text has none" % what, got=v)


def case(c, run):
    m = model(c["n"])
    with Scratch() as d:
        for order in c["orders"]:
            for stress in (0, 1):
                for tail in (0, 1):
                    for header in list(HEAD) + ["plain"]:
                        run.step()
                        ws = c.get("ws", "std")
                        run.state((c["n"], c["cs"], c["fm"], order, stress, tail, header, ws))
                        check(run, m, order, text(m, order, c["cs"], c["fm"], stress, tail, header, ws), stress, header, d)


def explore(ctx):
    orders = [o for k in range(5) for o in itertools.permutations(SECT, k)]
    cases = []
    for n in ((1, 2, 3, 4, 7, 12, 30) if ctx.thorough else (1, 3, 12)):
        for cs in CASE:
            for fm in FMT:
                for i in range(0, len(orders), 13):
                    cases.append({"n": n, "cs": cs, "fm": fm, "orders": orders[i:i + 13]})
    for ws in ("tab", "flush", "deep", "wide"):
        for n in (1, 12):
            for fm in ("E", "g", "e3"):
                for k in range(4):
                    cases.append({"n": n, "cs": list(CASE)[k], "fm": fm, "orders": [o for o in orders if len(o) in (0, 3, 4)][k::9], "ws": ws})
    for n in (64, 100, 101, 257, 1001):      # large files: a few layouts each
        for k, (cs, fm) in enumerate((("asis", "E"), ("mixed", "f"))):
            if n < 1000 or not k:
                cases.insert(0, {"n": n, "cs": cs, "fm": fm, "orders": [o for o in orders if len(o) == 4][k::24 if n > 64 else 11]})
    ctx.run_cases(cases, case)
