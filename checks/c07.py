import itertools
import numpy as np
from .pyc import LAT, MOTIF, Z, dstruct, motif
PROPERTY = "C07"
TECHNIQUE = "exhaustive enumeration of crystals x odd scalings over the real supercell builder, compared with the set of all lattice translations"
RULE = "every (lattice, motif, scaling in {1,3,5}^3, list/array/tuple argument, ordered or not); a state is one supercell; every site is matched to exactly one (primitive site, translation)"
BOUNDS = {"quick": "8 lattices x 9 motifs x 27 scalings (product <= 45) x 3 argument types; a 36-atom cell x 4 scalings, a 144-atom cell x 3; scalings up to 21", "thorough": "all 27 scalings plus 7, all combinations"}
EXTRA = {
    "out": (["Si", "Li"], [[1.25, -0.5, 0.1], [0.3, 2.1, -1.7]]),              # sites outside the unit cell
    "rev": (["U", "Mo", "Si", "Li"], [[0, 0, 0], [.5, .1, .2], [.25, .75, .6], [.8, .3, .45]]),   # descending Z
    "mix": (["S", "H", "S", "H"], [[.1, .1, .1], [.6, .2, .3], [.3, .8, .5], [.9, .6, .7]]),
}
LARGE = {"big": ([["Si", "Li", "O", "Mo", "Li"][(i * i + i // 3) % 5] for i in range(36)], [[round((0.137 * i) % 1, 4), round((0.0571 * i * i) % 1, 4), round((0.391 * i + .05) % 1, 4)] for i in range(36)])}
LARGE["more"] = (LARGE["big"][0] * 4, [[round((0.1371 * i) % 1, 4), round((0.0571 * i * i) % 1, 4), round((0.3917 * i + .05) % 1, 4)] for i in range(144)])
ALL = dict(MOTIF, **EXTRA)


def case(c, run):
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]] if c["mot"] in ALL else LARGE[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    s = dstruct(lat, sp, fr)
    n = len(sp)
    cart = fr @ lat
    for sc in c["scs"]:
        arg = {"list": list(sc), "tuple": tuple(sc), "array": np.array(sc)}[c["arg"]]
        half = [(k - 1) // 2 for k in sc]
        trans = list(itertools.product(*[range(-h, h + 1) for h in half]))
        want = {}
        for t in trans:
            for i in range(n):
                want.setdefault((i, t), cart[i] + np.array(t) @ lat)
        for ref in (False, True, None):
            run.step(); run.state((c["lat"], c["mot"], sc, ref, c["arg"]))
            S = s.make_supercell_(arg, reformat_mark=ref) if ref is not None else s.make_supercell_(arg)
            what = "supercell %s of %s/%s" % (sc, c["lat"], c["mot"])
            run.expect(S.num_sites == len(want), what + ": number of sites", got=S.num_sites, want=len(want))
            run.close(S.lattice.matrix, np.diag(sc) @ lat, 1e-9, what + ": lattice")
            run.close(S.num_sites / S.volume, n / abs(np.linalg.det(lat)), 1e-9, what + ": density")
            # invert: every site must be one (primitive site, integer translation within the block), each once
            got = {}
            inv = np.linalg.inv(lat)
            ids = []
            for site in S.sites:
                f = np.asarray(site.coords) @ inv
                hit = [i for i in range(n) if sp[i] == str(site.specie) and np.all(np.abs((f - fr[i]) - np.round(f - fr[i])) < 1e-7)]
                run.expect(len(hit) == 1, what + ": a site is not a lattice translation of a primitive site of its element", site=str(site))
                t = tuple(int(x) for x in np.round(f - fr[hit[0]]))
                run.expect((hit[0], t) in want, what + ": a site lies outside the block of cells centred on the home cell", translation=t)
                run.expect((hit[0], t) not in got, what + ": an image occurs twice", site=str(site))
                got[(hit[0], t)] = 1
                ids.append((hit[0], t))
            home = [k for k, (i, t) in enumerate(ids) if t == (0, 0, 0)]
            zs = [Z[str(x.specie)] for x in S.sites]
            if ref is False:
                run.expect([ids[k] for k in range(n)] == [(i, (0, 0, 0)) for i in range(n)], what + ": the home cell does not come first", got=ids[:n])
            else:
                run.expect(zs == sorted(zs), what + ": not ordered by atomic number")
                keys = [int(x) for x in s.get_key_idxs(scaling_matrix=arg)]
                run.expect(sorted(keys) == sorted(home), what + ": home-cell indices", got=keys, want=home)
                order = sorted(range(n), key=lambda i: Z[sp[i]])
                run.expect([ids[k][0] for k in keys] == order, what + ": home-cell indices are not in the order of the (element-sorted) primitive cell",
                           got=[ids[k][0] for k in keys], want=order)
            run.expect(s.num_sites == n and np.array_equal(np.asarray(s.frac_coords), fr) and [str(x) for x in s.species] == sp, "the primitive structure was modified")
            run.validated()


def explore(ctx):
    rng = (1, 3, 5, 7) if ctx.thorough else (1, 3, 5)
    scs = [t for t in itertools.product(rng, repeat=3) if ctx.thorough and np.prod(t) <= 147 or np.prod(t) <= 45]
    cases = []
    for lat in LAT:
        for mot in ALL:
            for arg in ("list", "array", "tuple"):
                sub = scs if arg == "list" or ctx.thorough else [(3, 1, 5), (3, 3, 3), (1, 1, 1)]
                for i in range(0, len(sub), 6):
                    cases.append(dict(lat=lat, mot=mot, arg=arg, scs=sub[i:i + 6]))
    for lat in ("tri", "hex"):
        for sc in ((1, 1, 1), (3, 1, 3), (1, 5, 1), (3, 3, 3)):
            cases.insert(0, dict(lat=lat, mot="big", arg="list", scs=[sc]))
    for sc in ((1, 1, 1), (3, 1, 1), (1, 3, 3)):
        cases.insert(0, dict(lat="tri", mot="more", arg="list", scs=[sc]))
    for sc in ((9, 1, 1), (1, 11, 1), (1, 3, 13), (21, 1, 1), (7, 7, 3)):
        cases.insert(0, dict(lat="shear", mot="3", arg="array", scs=[sc]))
    ctx.run_cases(cases, case)
