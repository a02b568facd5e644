import itertools, os
import numpy as np
from .pyc import LAT, SYMBOLS, Scratch, Z, dstruct
PROPERTY = "C17"
TECHNIQUE = "complete enumeration of the finite table (119 atomic numbers x both directions) plus every element and every ordered element pair driven through the real writer and readers, compared with an independent periodic table"
RULE = "every atomic number 0..118 and every table key; every element alone through write -> raw text -> ACExtractor/ACstrExtractor/DStructure/MOVEMENT frame; ordered element pairs through write/read"
BOUNDS = {"quick": "all 119 entries; all 118 single elements; all pairs (a, b) with |Za-Zb| <= 2 or one of them in {H, Mo, Og}", "thorough": "all 118^2 ordered pairs"}


def tables(c, run):
    from matersdk.io.pwmat.utils.parameters import atomic_number2specie as n2s, specie2atomic_number as s2n
    run.expect(len(n2s) == len(s2n), "the two tables have different sizes", got=[len(n2s), len(s2n)])
    for z in range(0, 119):
        sym = "X0+" if z == 0 else SYMBOLS[z - 1]
        run.state(z); run.step(2)
        run.expect(n2s.get(z) == sym, "atomic number %d stands for %r" % (z, n2s.get(z)), want=sym)
        run.expect(s2n.get(sym) == z, "element %s has atomic number %r" % (sym, s2n.get(sym)), want=z)
    for z, s in n2s.items():
        run.expect(0 <= z <= 118 and s2n.get(s) == z, "entry %r: %r is not inverted" % (z, s))
    for s, z in s2n.items():
        run.expect(n2s.get(z) == s, "entry %r: %r is not inverted" % (s, z))
    run.validated()


def frame(sp, fr, lat):
    n = len(sp)
    out = ["%12d atoms,Iteration (fs) =    0.0, Etot,Ep,Ek (eV) = -1.0E+01 -1.0E+01 0.0, SCF = 4" % n, " Lattice vector"]
    out += ["  " + "  ".join("%.10E" % x for x in v) for v in lat]
    out += [" Position, move_x, move_y, move_z"]
    out += ["%4d  %s  1 1 1" % (Z[s], "  ".join("%.10f" % x for x in f)) for s, f in zip(sp, fr)]
    out += [" Force"] + ["%4d  0.1 0.2 0.3" % Z[s] for s in sp]
    out += [" Atomic-Energy, Etot(eV)"] + ["%4d  -1.5  0.0  0.0" % Z[s] for s in sp]
    out += [" ---------------------------------------------------------"]
    return "\n".join(out) + "\n"


def through(c, run):
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.pwmat.utils.acextractor import ACExtractor, ACstrExtractor
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    lat = np.array(LAT["tri"], float)
    for sp in c["sets"]:
        sp = list(sp)
        fr = np.array([[0.11, 0.22, 0.33], [0.61, 0.52, 0.83]])[:len(sp)]
        zs = [Z[s] for s in sp]
        with Scratch() as d:
            p = os.path.join(d, "atom.config")
            dstruct(lat, sp, fr).to(file_path=p, file_format="pwmat")
            lines = open(p).read().splitlines()
            k = [i for i, l in enumerate(lines) if l.strip().upper().startswith("POSITION")][0]
            got = [int(l.split()[0]) for l in lines[k + 1:k + 1 + len(sp)]]
            run.expect(got == zs, "%s: atomic numbers in the written file" % sp, got=got, want=zs)
            q = DStructure.from_file(p, "pwmat")
            run.expect([str(x) for x in q.species] == sp, "%s: species read back" % sp, got=[str(x) for x in q.species])
            e = ACExtractor(p)
            run.expect([int(x) for x in e.get_types()] == zs, "%s: types of ACExtractor" % sp)
            e = ACstrExtractor("".join(l + "\n" for l in lines))
            run.expect([int(x) for x in e.get_types()] == zs, "%s: types of ACstrExtractor" % sp)
            run.step(4)
            if c["md"]:
                m = os.path.join(d, "MOVEMENT")
                open(m, "w").write(frame(sp, fr, lat) * 2)
                info = MVExtractor(m).get_frame_info(0)
                q = DStructure.from_str(frame(sp, fr, lat), "pwmat")
                run.expect(sorted(str(x) for x in q.species) == sorted(sp), "%s: species of a structure read from a frame" % sp, got=[str(x) for x in q.species])
                run.expect(any(np.size(x) == len(sp) and sorted(np.asarray(x).ravel().tolist()) == sorted(zs) for x in info if x is not None), "%s: types of a trajectory frame" % sp)
                run.step(2)
            run.state(tuple(sp)); run.validated()


def dispatch(c, run):
    (through if "sets" in c else tables)(c, run)


def explore(ctx):
    ones = [(s,) for s in SYMBOLS]
    if ctx.thorough:
        twos = list(itertools.product(SYMBOLS, SYMBOLS))
    else:
        twos = [(a, b) for a in SYMBOLS for b in SYMBOLS if abs(Z[a] - Z[b]) <= 2 or a in ("H", "Mo", "Og") or b in ("H", "Mo", "Og")]
    cases = [dict(tables=1)]
    cases += [dict(sets=ones[i:i + 4], md=1) for i in range(0, len(ones), 4)]
    cases += [dict(sets=twos[i:i + 40], md=0) for i in range(0, len(twos), 40)]
    ctx.run_cases(cases, dispatch)
