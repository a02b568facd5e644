import itertools
import numpy as np
from .pyc import LAT, Z
PROPERTY = "C08"
TECHNIQUE = "explicit-state exploration of all operation sequences on the real structure class over a list-of-sites model"
RULE = "every element sequence (vacancies included) x site properties x operation sequence up to the depth; model = ordered list of (element, position, moment)"
BOUNDS = {"quick": "sequences of length 1..4 (and 5 of length 17..120) over {Li,Si,O,Xe,vacancy}, sites inside and outside the cell, depth 2; site look-up for translations in {-2..2}^3 on 8 lattices; element symbols that begin alike; vacuum in orthogonal and sheared cells",
          "thorough": "length 5 and depth 3"}
POS = [[0.5, 1.25, 0.625], [0.0, 0.0, 0.0], [0.75, -0.125, 0.125], [0.25, 0.5, 0.9375], [0.125, 0.375, 0.375]]
MAG = [2.0, 1.0, 4.0, 3.0, 0.5]
for _i in range(5, 120):     # further sites of large structures, all different
    POS.append([((_i * 37) % 128) / 128.0, ((_i * 51 + 9) % 128) / 128.0, ((_i * 5 + _i * _i) % 64) / 64.0])
    MAG.append(((_i * 29) % 64) / 8.0 - 4.0)
ZZ = dict(Z, X=0)


def build(seq, mag, lat):
    from matersdk.io.publicLayer.structure import DStructure
    from pymatgen.core import DummySpecies
    kw = {"site_properties": {"magmom": MAG[:len(seq)] if mag == 1 else [0.0] * len(seq)}} if mag else {}
    return DStructure(lattice=np.array(lat, float), species=[DummySpecies("X", 0) if e == "X" else e for e in seq], coords=POS[:len(seq)], **kw)


def observe(s, mag):
    return [("X" if str(x.specie) == "X0+" else str(x.specie), tuple(np.round(np.asarray(x.frac_coords, float), 12)), (x.properties.get("magmom") if mag else None)) for x in s.sites]


def check(run, s, model, mag, lat, what):
    got = observe(s, mag)
    run.expect(got == model, what + ": sites", got=got, want=model)
    run.close(s.lattice.matrix, lat, 1e-12, what + ": lattice")


def apply(run, s, model, op, mag, lat):
    """returns (structure, model) after op"""
    if op[0] == "sort":
        r = s.reformat_elements_()
        model = sorted(model, key=lambda t: ZZ[t[0]])
    elif op[0] == "order":
        before = observe(s, mag)
        t = s.reformat_elements(list(op[1]))
        run.expect(observe(s, mag) == before, "reformat_elements changed its own structure")
        run.expect(type(t).__name__ == "DStructure", "reformat_elements does not return a DStructure")
        s = t
        model = [m for e in op[1] for m in model if (m[0] if m[0] != "X" else "X0+") == e]
    elif op[0] == "novac":
        s.remove_vacanies()
        model = [m for m in model if m[0] != "X"]
    elif op[0] == "query":
        queries(run, s, model, lat)
    return s, model


def queries(run, s, model, lat):
    if not model:
        return
    lat = np.array(lat, float)
    fr = np.array([m[1] for m in model], float)
    cart = fr @ lat
    run.close(s.get_centroid(), cart.mean(axis=0), 1e-9, "centroid")
    abc = np.linalg.norm(lat, axis=1)
    ext = cart.max(axis=0) - cart.min(axis=0)
    marg = abc - ext - 10
    got = list(s.judge_vacuum_exist())
    run.expect(len(got) == 3 and all(bool(g) == (m > 0) for g, m in zip(got, marg) if abs(m) > 1e-9 or m == 0), "vacuum detection", got=got, want=(marg > 0).tolist())
    els = [m[0] for m in model]
    if "X" not in els:
        zs = sorted(set(Z[e] for e in els))
        run.expect([int(x) for x in s.get_natoms()] == [len(els)] + [sum(Z[e] == z for e in els) for z in zs], "get_natoms()", got=[int(x) for x in s.get_natoms()])
        for perm in itertools.permutations([3, 8, 14, 54], 3):
            g = [int(x) for x in s.get_natoms(atomic_numbers_order=list(perm))]
            run.expect(g == [len(els)] + [sum(Z[e] == z for e in els) for z in perm], "get_natoms(order)", got=g)
    for i in range(len(model)):
        g = s.get_site_index(cart[i])
        run.expect(g == i + 1, "get_site_index of site %d" % i, got=g)
    run.expect(s.get_site_index(cart[0] + np.array([.03, .011, .07])) == 0, "get_site_index of a place without an atom")


def case(c, run):
    if c["k"] == "index":
        s = build(c["seq"], False, LAT[c["lat"]])
        lat = np.array(LAT[c["lat"]], float)
        for t in itertools.product(range(-2, 3), repeat=3):
            for i in range(len(c["seq"])):
                g = s.get_site_index((np.array(POS[i]) + t) @ lat)
                run.expect(g == i + 1, "get_site_index of an image", got=g, want=i + 1, translation=t)
                run.step()
            for off in ([.5, 0, 0], [0, .5, 0], [0, 0, .5], [.03, .01, 0], [1e-3, 0, 0], [0, -1e-5, 0], [0, 0, 1e-7]):
                f = np.array(POS[0]) + off
                if not any(np.allclose(f % 1, np.array(p) % 1, 0, 1e-9) for p in POS[:len(c["seq"])]):
                    g = s.get_site_index((f + t) @ lat)
                    run.expect(g == 0, "get_site_index of a place without an atom", got=g, offset=off, translation=t)
        run.state(("index", c["lat"], c["seq"])); run.validated()
        return
    if c["k"] == "vac":
        lat = np.diag(c["abc"]) + np.array(c.get("shear", np.zeros((3, 3))), float)
        s = build(["Li", "Si", "O"][:c["n"]], False, lat)
        queries(run, s, observe(s, False), lat)
        run.state(("vac", c["abc"], c["n"], c.get("shear"))); run.step(); run.validated()
        return
    for mag in (0, 1, 2) if len(c["seq"]) < 4 or "pre" in c else (0, 1):      # 2: all moments are zero
        for ops in c["opss"]:
            lat = LAT[c["lat"]]
            s = build(c["seq"], mag, lat)
            model = [(e, tuple(np.round(p, 12)), ((MAG[i] if mag == 1 else 0.0) if mag else None)) for i, (e, p) in enumerate(zip(c["seq"], POS))]
            check(run, s, model, mag, lat, "construction")
            for op in ops:
                if not model:
                    break
                if op[0] == "order" and not [m for m in model if (m[0] if m[0] != "X" else "X0+") in op[1]]:
                    break      # nothing selected: outside the domain
                s, model = apply(run, s, model, op, mag, lat)
                run.step()
                check(run, s, model, mag, lat, "after %r" % (ops,))
                run.state((tuple(model), mag))
            run.validated()


def explore(ctx):
    els = ["Li", "Si", "O", "X", "Xe"]
    names = ["Li", "Si", "O", "X0+", "Xe"]
    orders = [("order", p) for k in (1, 2, 3, 4) for p in itertools.permutations(names, k)]
    base = [("sort",), ("novac",), ("query",)] + orders
    few = [("sort",), ("novac",), ("query",), ("order", ("O", "X0+", "Li", "Xe", "Si")), ("order", ("Si", "Li"))]
    cases = []
    for n in range(1, 6 if ctx.thorough else 5):
        for seq in itertools.product(els, repeat=n):
            opss = [(o,) for o in base] + [(a, b) for a in few for b in few]
            if ctx.thorough:
                opss += list(itertools.product(few, repeat=3))
            if n >= 4 and not ctx.thorough:
                opss = [(o,) for o in few] + [(a, b) for a in few for b in few if a != b and b != ("query",)] + [(few[0], few[2]), (few[1], few[2])]
            cases.append(dict(k="ops", seq=seq, lat="tri", opss=opss))
    for n, pat in ((17, (0, 1, 2, 3, 4)), (40, (2, 2, 0, 1, 3, 1, 4)), (120, (1, 0, 3, 2, 4)), (100, (0, 3)), (33, (3, 2, 1))):
        seq = tuple(els[pat[(i * i + i // 4) % len(pat)]] for i in range(n))
        cases.insert(0, dict(k="ops", seq=seq, lat="tri", opss=[(a, b) for a in few for b in few if a != b]))
        if n > 30:
            cases.insert(0, dict(k="index", lat="shear", seq=tuple(e for e in seq if e != "X")[:30]))
    for lat in LAT:
        for seq in (("Li",), ("Si", "O"), ("O", "Li", "O", "Si")):
            cases.append(dict(k="index", lat=lat, seq=seq))
    pre = [("S", "Si", "Se", "Sn"), ("C", "Cl", "Co", "Cu"), ("N", "Na", "Ni", "Ne"), ("H", "He", "Hg", "Hf")]   # symbols that begin alike
    for g in pre:
        for n in (2, 3):
            for seq in itertools.permutations(g, n):
                cases.append(dict(k="ops", pre=1, seq=seq, lat="tri", opss=[(("sort",),), (("sort",), ("order", g))] + [(("order", p),) for k in (1, 2, 3) for p in itertools.permutations(g, k)]))
    for sh in ([[0, 0, 0], [6.5, 0, 0], [0, 3.5, 0]], [[0, 0, -5.0], [0, 0, 8.0], [2.0, 7.0, 0]], [[0, 9.0, 4.0], [-4.0, 0, 0], [12.0, 0, 0]], [[-30.0, 3.0, 0], [0, -28.0, 0], [0, 0, 0]]):
        for n in (1, 2, 3):
            for abc in itertools.product([9.0, 11.5, 16.0], repeat=3):
                cases.append(dict(k="vac", abc=abc, n=n, shear=sh))
    ls = [9.0, 10.0, 11.0, 12.0, 16.0, 30.0]
    for n in (1, 2, 3):
        for abc in itertools.product(ls, repeat=3):
            cases.append(dict(k="vac", abc=abc, n=n))
    ctx.run_cases(cases, case)
