import numpy as np
from .pyc import dstruct, images, shell_cutoffs
from .c09 import ALL, LAT, LATL, CUTL, block
PROPERTY = "C11"
TECHNIQUE = "exhaustive enumeration of crystals x cutoff classes x odd supercells over the real graph builder, compared with the brute-force count of periodic images"
RULE = "every (lattice, motif, cutoff class, smallest sufficient odd scaling and larger ones); a state is one adjacency matrix; asked for twice"
BOUNDS = {"quick": "8 lattices x 9 motifs x all cutoff classes up to 6 A (plus half the shortest distance) x 3 scalings; cutoffs exactly on a distance in 3 crystals", "thorough": "cutoffs up to 8 A, 5 scalings"}


# all numbers exact in binary, so cutoffs can lie exactly on a distance (which then counts)
EXACT = {"e1": (["Li"], [[.25, .5, .125]]), "e2": (["Li", "Si"], [[0, 0, 0], [.5, 0, 0]]), "e3": (["Li", "Si", "O"], [[.125, .25, .5], [.875, .25, .5], [.125, .75, .25]])}


def case(c, run):
    from matersdk.feature.graph.edge import AdjacentMatrix
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]] if c["mot"] in ALL or c["mot"] not in EXACT else EXACT[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    n = len(sp)
    s = dstruct(lat, sp, fr)
    allims = images(lat, fr, max(c["rcs"]))
    for rc in c["rcs"]:
        ims = [x for x in allims if x[4] <= rc]
        want = np.zeros((n, n))
        for x in ims:
            want[x[0], x[1]] += 1
        for extra in c["extra"]:
            for conv in (list, tuple, np.array):
                sc = block(ims, extra)
                what = "%s/%s rcut %.4f scaling %s" % (c["lat"], c["mot"], rc, sc)
                run.step(); run.state((what, conv.__name__))
                am = AdjacentMatrix(structure=s, rcut=rc, scaling_matrix=conv(sc))
                for k in range(2):
                    got = np.asarray(am.get_adjacent_matrix())
                    run.expect(got.shape == (n, n), what + ": shape", got=got.shape)
                    run.expect(np.array_equal(got, want), what + ": adjacency matrix", got=got.tolist(), want=want.tolist())
                run.validated()
    run.expect(np.array_equal(np.asarray(s.frac_coords), fr) and np.array_equal(np.asarray(s.lattice.matrix), lat), "the structure was modified")


def explore(ctx):
    rmax = 8.0 if ctx.thorough else 6.0
    extra = [(0, 0, 0), (1, 0, 0), (0, 2, 1)] + ([(0, 0, 1), (2, 1, 1)] if ctx.thorough else [])
    cases = []
    for lat in LAT:
        for mot in ALL:
            cuts = shell_cutoffs(LAT[lat], ALL[mot][1], rmax)
            for i in range(0, len(cuts), 25):
                cases.append(dict(lat=lat, mot=mot, rcs=cuts[i:i + 25], extra=extra))
    for mot in EXACT:
        cases.append(dict(lat="cubic", mot=mot, rcs=[1.0, 2.0, 3.0, 4.0, 5.0, 8.0], extra=extra[:2]))
    cases.insert(0, dict(lat="tiny", mot="1off", rcs=[5.37, 7.91], extra=extra[:1]))
    for lat in LATL:
        if lat == "tiny":
            continue
        cases.insert(0, dict(lat=lat, mot="big", rcs=CUTL[lat] + [5.9], extra=extra[:1]))
    ctx.run_cases(cases, case)
