import itertools, os
import numpy as np
from .pyc import SYMBOLS, Z, LAT, Scratch, dstruct
PROPERTY = "C01"
TECHNIQUE = "exhaustive enumeration of structures and write/read/overwrite histories over the real writer and reader, each compared with a value model and an independent text parser"
RULE = "every structure over the element/coordinate/lattice alphabet; all histories of {write s, read} over one path; a state is a (path content) abstraction"
BOUNDS = {"quick": "118 elements; sizes 9..1001 sites; 1..3 sites x 4 elements x 9 coordinate values x 12 lattices; histories depth 3 over 5 structures",
          "thorough": "1..4 sites, histories depth 4"}
C = [0.0, 0.25, -0.125, 1.5, 0.999999, 1e-7, 1.0 / 3, -2.75, 0.9999999]
LATS = dict(LAT, tiny=[[0.9, 0, 0], [0, 1.1, 0], [0.05, 0, 1.3]], big=[[1234.5678, 0, 0], [0, 250.0, 1e-3], [0, -17.25, 99.0]],
            exact=[[5.43, 0, 0], [0, 5.43, 0], [0, 0, 5.43]], digits=[[3.1903157, 0.04567891, -0.1234567], [-1.5951578, 2.7628944, 0.3456789], [0.2345678, -0.1111115, 14.8793736]])


def parse(text):
    """independent reading of the atom.config text"""
    L = text.split("\n")
    n = int(L[0].split()[0])
    assert L[0].split()[1].lower().startswith("atom")
    i = next(k for k, l in enumerate(L) if l.lower().startswith("lattice"))
    lat = [[float(x) for x in l.split()[:3]] for l in L[i + 1:i + 4]]
    p = next(k for k, l in enumerate(L) if l.lower().startswith("position"))
    rows = []
    for l in L[p + 1:]:
        f = l.split()
        if len(f) != 7:
            break
        rows.append((int(f[0]), [float(x) for x in f[1:4]], f[4:]))
    mag = None
    m = [k for k, l in enumerate(L) if l.lower().startswith("magnetic")]
    if m:
        mag = [(int(l.split()[0]), float(l.split()[1])) for l in L[m[0] + 1:] if l.strip()]
    else:
        assert not [l for l in L[p + 1 + len(rows):] if l.strip()], "unexpected trailing text"
    return n, lat, rows, mag


def cmp_lat(run, got, want, what):
    got, want = np.array(got, float), np.array(want, float)
    run.expect(got.shape == (3, 3) and np.all(np.abs(got - want) <= 6e-7 * np.maximum(1e-3, 10 ** np.floor(np.log10(np.maximum(np.abs(want), 1e-30))))),
               what + ": lattice differs", got=got.tolist(), want=want.tolist())


def cmp_frac(run, got, want, what):
    got, want = np.array(got, float).reshape(-1, 3), np.array(want, float).reshape(-1, 3)
    run.expect(got.shape == want.shape and np.all(np.abs(got - want) <= 6e-7), what + ": coordinates differ",
               got=got.tolist(), want=want.tolist())


def roundtrip(run, path, lat, sp, fr, mags=None):
    from matersdk.io.publicLayer.structure import DStructure
    kw = {"site_properties": {"magmom": list(mags)}} if mags is not None else {}
    s = dstruct(lat, sp, fr, **kw)
    if mags is not None:
        s.to(path, "pwmat", include_magnetic_moments=True)
    else:
        s.to(path, "pwmat")
    text = open(path).read()
    n, plat, rows, mag = parse(text)
    zs = [Z[x] for x in sp]
    run.expect(n == len(sp), "stated atom count %d, structure has %d" % (n, len(sp)), text=text)
    run.expect([r[0] for r in rows] == zs, "atomic numbers in the file differ", text=text, want=zs)
    cmp_lat(run, plat, lat, "file text")
    cmp_frac(run, [r[1] for r in rows], fr, "file text")
    run.expect(all(r[2] == ["1", "1", "1"] for r in rows), "move flags", text=text)
    if mags is not None:
        run.expect(mag is not None and [m[0] for m in mag] == zs, "magnetic section: species", text=text)
        run.close([m[1] for m in mag], mags, 5.1e-3, "magnetic moments in the file")
    run.expect([str(x) for x in s.species] == list(sp) and np.array_equal(np.asarray(s.frac_coords), np.asarray(fr, float)),
               "writing changed the structure")
    t = DStructure.from_file(path, "pwmat")
    run.expect(isinstance(t, DStructure), "reader does not return a DStructure")
    run.expect(t.num_sites == len(sp), "number of sites read back", got=t.num_sites)
    run.expect([str(x) for x in t.species] == list(sp), "elements read back", got=[str(x) for x in t.species], want=list(sp))
    cmp_lat(run, t.lattice.matrix, lat, "read back")
    cmp_frac(run, t.frac_coords, fr, "read back")
    if mags is None:
        t.to(path, "pwmat")
        run.expect(open(path).read() == text, "rewriting what was read is not a fixed point", first=text, second=open(path).read())
    u = DStructure.from_str(text, "pwmat")
    run.expect([str(x) for x in u.species] == list(sp), "from_str: elements", got=[str(x) for x in u.species])
    cmp_lat(run, u.lattice.matrix, lat, "from_str"); cmp_frac(run, u.frac_coords, fr, "from_str")
    # sort=True: same sites, ordered by atomic number, order of equal elements kept
    v = DStructure.from_file(path, "pwmat", sort=True)
    perm = sorted(range(len(sp)), key=lambda i: zs[i])
    run.expect([str(x) for x in v.species] == [sp[i] for i in perm], "sort=True: species", got=[str(x) for x in v.species])
    cmp_frac(run, v.frac_coords, np.array(fr, float)[perm], "sort=True")
    run.validated(5)
    return t


# a few structures of different lengths for the histories
HIST = [("cubic", ["Li"], [[0, 0, 0]]),
        ("tri", ["Si", "Li", "Si"], [[0, 0, 0], [.25, .5, -.125], [.7, .1, 1.5]]),
        ("hex", ["Mo", "S", "S", "O"], [[.3333333, .6666667, .5], [.1, .2, .3], [.9, .8, .7], [0, .999999, 1e-7]]),
        ("big", ["U", "H"], [[.5, .5, .5], [.25, .75, .125]]),
        ("neg", ["Li"], [[.75, .25, .5]])]


def case(c, run):
    from matersdk.io.publicLayer.structure import DStructure
    with Scratch() as d:
        p = os.path.join(d, "atom.config")
        k = c["k"]
        if k == "el":
            for sym in c["syms"]:
                run.state(("el", sym)); run.step()
                roundtrip(run, p, LATS["tri"], [sym], [[.125, .25, .75]])
                roundtrip(run, p, LATS["cubic"], [sym, "H", sym], [[0, 0, 0], [.25, .5, .75], [.1, .2, .3]])
        elif k == "coord":
            # all coordinate triples on one site
            for z in C:
                fr = [[c["x"], c["y"], z]]
                run.state(("coord", fr)); run.step()
                roundtrip(run, p, LATS[c["lat"]], ["Fe"], fr)
        elif k == "species":
            for coords in c["coords"]:
                run.state((c["sp"], coords, c["lat"])); run.step()
                roundtrip(run, p, LATS[c["lat"]], c["sp"], [[C[a], C[(a + 3 + 2 * i) % len(C)], C[(2 * a + i) % len(C)]] for i, a in enumerate(coords)])
        elif k == "mag":
            run.state(("mag", c["m"])); run.step()
            roundtrip(run, p, LATS["hex"], ["Fe", "O", "Ni"][:len(c["m"])], [[.1, .2, .3], [.4, .5, .6], [.7, .8, .9]][:len(c["m"])], c["m"])
        elif k == "hist":
            # histories of writes and reads over two paths; the model is the last structure written to each path
            paths = [p, os.path.join(d, "b", "POS")]
            os.makedirs(os.path.join(d, "b"))
            model = {}
            for op in c["ops"]:
                run.step()
                if op[0] == "w":
                    lat, sp, fr = HIST[op[2]]
                    roundtrip(run, paths[op[1]], LATS[lat], sp, fr)
                    model[op[1]] = op[2]
                elif op[0] == "c" and op[1] in model:   # copy through memory to the other path
                    s = DStructure.from_file(paths[op[1]], "pwmat")
                    s.to(paths[1 - op[1]], "pwmat")
                    model[1 - op[1]] = model[op[1]]
                run.state(("hist", sorted(model.items())))
                for q, m in model.items():
                    lat, sp, fr = HIST[m]
                    t = DStructure.from_file(paths[q], "pwmat")
                    run.expect([str(x) for x in t.species] == sp, "history: elements", got=[str(x) for x in t.species], want=sp)
                    cmp_lat(run, t.lattice.matrix, LATS[lat], "history"); cmp_frac(run, t.frac_coords, fr, "history")
            run.validated()
        elif k == "large":
            n = c["n"]
            sp = [["Li", "Si", "O", "U", "H"][(i * i + i // 7) % 5] for i in range(n)]
            fr = [[round((0.0137 * i) % 1.0, 6), round(0.9 - 0.0007 * i, 6), round(((i * 37) % 1009) / 1009.0, 6)] for i in range(n)]
            run.state(("large", n, c["mag"])); run.step()
            roundtrip(run, p, LATS[c["lat"]], sp, fr, [round(0.01 * ((i * 7) % 500) - 2.5, 2) for i in range(n)] if c["mag"] else None)
        elif k == "poscar":
            lat, sp, fr = HIST[c["i"]]
            s = dstruct(LATS[lat], sp, fr)
            q = os.path.join(d, "POSCAR")
            s.to(q, "poscar")
            t = DStructure.from_file(q, "vasp")
            run.expect(isinstance(t, DStructure) and [str(x) for x in t.species] == sp, "POSCAR route: elements", got=[str(x) for x in t.species])
            run.close(t.lattice.matrix, LATS[lat], 1e-5, "POSCAR route: lattice")
            run.close(t.frac_coords, fr, 1e-5, "POSCAR route: coordinates")
            roundtrip(run, p, t.lattice.matrix, [str(x) for x in t.species], t.frac_coords)
            run.state(("poscar", c["i"])); run.step()


def explore(ctx):
    cases = [{"k": "el", "syms": SYMBOLS[i:i + 8]} for i in range(0, 118, 8)]
    for lat in LATS:
        for x in C:
            for y in C:
                if lat in ("tri", "cubic") or (x == y):
                    cases.append({"k": "coord", "lat": lat, "x": x, "y": y})
    els = ["Li", "Si", "O", "U"]
    nmax = 4 if ctx.thorough else 3
    for lat in LATS:
        for n in range(1, nmax + 1):
            for sp in itertools.product(els, repeat=n):
                cs = list(itertools.product(range(0, len(C), 2 if n < 3 else 4), repeat=n))
                cases.append({"k": "species", "lat": lat, "sp": list(sp), "coords": cs})
    mv = [0.0, 1.25, -3.0, 0.01]
    for n in (1, 2, 3):
        cases += [{"k": "mag", "m": list(m)} for m in itertools.product(mv, repeat=n)]
    ops = [("w", q, s) for q in (0, 1) for s in range(len(HIST))] + [("c", 0), ("c", 1)]
    for dep in ([1, 2, 3] if ctx.thorough else [1, 2]):
        for seq in itertools.product(ops, repeat=dep):
            if seq[0][0] == "w" and seq[0][1] == 0:
                cases.append({"k": "hist", "ops": seq})
    if not ctx.thorough:
        for seq in itertools.product([("w", 0, 2), ("w", 0, 0), ("w", 1, 1), ("c", 0), ("c", 1)], repeat=3):
            if seq[0][0] == "w":
                cases.append({"k": "hist", "ops": seq})
    cases += [{"k": "poscar", "i": i} for i in range(2)]
    cases += [{"k": "large", "n": n, "lat": lat, "mag": m} for n in (9, 10, 11, 64, 99, 100, 101, 130, 999, 1001) for m in (0, 1) for lat in (("big", "hex") if n < 900 else ("tri",))]
    ctx.run_cases(cases, case)
