import itertools
import numpy as np
from .pyc import LAT, MOTIF, Z, dstruct, images, shell_cutoffs
PROPERTY = "C09"
TECHNIQUE = "exhaustive enumeration of crystals x cutoff classes x supercells over the real neighbour-table code, compared with the brute-force periodic neighbour set"
RULE = "every (lattice, motif, cutoff class = one radius in each gap between neighbour shells, smallest sufficient odd supercell and larger ones); a state is one neighbour table; every row is matched one-to-one against brute force"
BOUNDS = {"quick": "8 lattices x 12 motifs x all cutoff classes up to 5.2 A x 2 supercells (at most 80 kB of images each); a 30-atom crystal in two large cells, a 280-atom crystal; 3 clusters with cutoffs exactly on a distance", "thorough": "cutoffs up to 7 A, 4 supercells"}
EXTRA = {
    "out": (["Si", "Li"], [[1.25, -0.5, 0.1], [0.3, 1.6, -0.7]]),
    "rev": (["U", "Mo", "Si", "Li"], [[0, 0, 0], [.5, .1, .2], [.25, .75, .6], [.8, .3, .45]]),
    "tie": (["Li", "Si", "O"], [[.5, .5, .5], [.5 + .25 + 1e-8, .5, .5], [.5 - .25, .5, .5]]),
    "pad0": (["Li", "Li", "Si"], [[0, 0, 0], [.3, .2, .1], [.6, .55, .7]]),
    "near": (["Li", "Si", "Li"], [[.1, .2, .3], [.6, .2 + 3e-5, .3 - 1e-4], [.1 - 6e-6, .7, .3 + 4e-4]]),
    "mix": (["S", "H", "S", "H"], [[.1, .1, .1], [.6, .2, .3], [.3, .8, .5], [.9, .6, .7]]),
}
LARGE = {"big": ([["Si", "Li", "O", "Mo", "Li"][(i * i + i // 3) % 5] for i in range(30)], [[round((0.137 * i) % 1, 4), round((0.0571 * i * i) % 1, 4), round((0.391 * i + .05) % 1, 4)] for i in range(30)])}
_s = list(__import__("itertools").product(range(7), range(7), range(6)))[::-1][:280]
LARGE["huge"] = ([["Si", "Li", "O"][(i * 7 + i // 11) % 3] for i in range(len(_s))],
                 [[round((a + .31 * ((b * 3 + c) % 5) / 5) / 7, 5), round((b + .29 * ((a + c * 2) % 7) / 7) / 7, 5), round((c + .37 * ((a * 2 + b) % 3) / 3) / 6, 5)] for a, b, c in _s])
LATL = {"tiny": [[2.0, 0.1, 0.0], [0.0, 2.1, 0.0], [0.2, 0.0, 1.9]], "huge": [[15.4, 0.3, 0.0], [0.0, 15.9, -0.4], [0.7, 0.0, 13.8]], "wide": [[11.3, 0.4, -0.7], [1.9, 10.1, 0.8], [-1.2, 2.3, 12.6]], "long": [[3.4, 0, 0], [0.9, 3.7, 0], [0.5, -1.1, 61.0]]}
CUTL = {"tiny": [], "huge": [2.63], "wide": [2.31, 4.57], "long": [3.17, 4.43]}


class _Find(dict):
    def __missing__(self, k):
        return LARGE[k]


class _FindL(dict):
    def __missing__(self, k):
        return LATL[k]


ALL = _Find(MOTIF, **EXTRA)          # iterates over the small crystals, finds the large ones too
LAT = _FindL(LAT)


def block(ims, extra):
    n = [max([abs(x[2][k]) for x in ims] or [0]) for k in range(3)]
    return [2 * (n[k] + extra[k]) + 1 for k in range(3)]


def rows_of(sp, fr, lat, rc, ims):
    order = sorted(range(len(sp)), key=lambda i: Z[sp[i]])
    per = {i: sorted([x for x in ims if x[0] == i and x[4] <= rc], key=lambda x: x[4]) for i in range(len(sp))}
    return order, per


def check_table(run, what, nb, sp, fr, lat, rc, order, per):
    n = len(sp)
    cart = fr @ lat
    an, ds, xs = np.asarray(nb.key_nbr_atomic_numbers), np.asarray(nb.key_nbr_distances), np.asarray(nb.key_nbr_coords)
    width = 1 + max(len(per[i]) for i in range(n))
    run.expect(an.shape == (n, width) and ds.shape == (n, width) and xs.shape == (n, width, 3), what + ": shape of the tables",
               got=[an.shape, ds.shape, xs.shape], want=width)
    for r, i in enumerate(order):
        m = len(per[i])
        run.expect(an[r, 0] == Z[sp[i]] and abs(ds[r, 0]) < 1e-9, what + ": first entry of a row is not the centre", row=r)
        c = xs[r, 0]
        f = (c - cart[i]) @ np.linalg.inv(lat)
        run.close(f, np.round(f), 1e-7, what + ": centre position")
        run.close(ds[r, 1:m + 1], [x[4] for x in per[i]], 1e-8, what + ": distances of row %d" % r)
        run.expect(not an[r, m + 1:].any() and not ds[r, m + 1:].any() and not xs[r, m + 1:].any(), what + ": padding is not zero", row=r)
        run.expect(all(ds[r, k] <= ds[r, k + 1] + 1e-13 for k in range(m)), what + ": not ordered by distance", row=r, got=ds[r, :m + 1].tolist())
        left = list(per[i])
        for k in range(1, m + 1):
            v = xs[r, k] - c
            hit = [x for x in left if np.abs(x[3] - v).max() < 1e-7]
            run.expect(len(hit) == 1, what + ": a listed neighbour is not (or twice) a periodic image within the cutoff", row=r, col=k, vec=v.tolist())
            run.expect(Z[sp[hit[0][1]]] == an[r, k], what + ": wrong element for a neighbour", row=r, col=k)
            run.expect(abs(hit[0][4] - ds[r, k]) < 1e-8, what + ": distance does not belong to the position", row=r, col=k)
            left = [x for x in left if x is not hit[0]]
        run.expect(not left, what + ": neighbours are missing", row=r)


def case(c, run):
    if "edge" in c:
        return edge(c, run)
    from matersdk.io.publicLayer.neigh import StructureNeighborsUtils as U, StructureNeighborsDescriptor
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    n = len(sp)
    s = dstruct(lat, sp, fr)
    rmax = max(c["rcs"])
    allims = images(lat, fr, rmax)
    for rc in c["rcs"]:
        ims = [x for x in allims if x[4] <= rc]
        order, per = rows_of(sp, fr, lat, rc, ims)
        for extra in c["extra"]:
            sc = block(ims, extra)
            if n * np.prod(sc) > 3500 and n < 200:
                sc = block(ims, (0, 0, 0))
            what = "%s/%s rcut %.4f supercell %s" % (c["lat"], c["mot"], rc, sc)
            run.step(); run.state((c["lat"], c["mot"], rc, tuple(sc)))
            nb = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rc, scaling_matrix=sc)
            check_table(run, what, nb, sp, fr, lat, rc, order, per)
            run.expect(U.get_max_num_nbrs_real(structure=s, rcut=rc, scaling_matrix=sc) == max(len(per[i]) for i in range(n)), what + ": maximum number of neighbours")
            for els in (sorted(set(sp)), sorted(set(sp))[::-1], sorted(set(sp)) + ["He"]):
                got = U.get_max_num_nbrs_real_element(structure=s, rcut=rc, nbr_elements=els, scaling_matrix=sc)
                want = {e: max(sum(1 for x in per[i] if sp[x[1]] == e) for i in range(n)) for e in els}
                run.expect({k: int(v) for k, v in got.items()} == want, what + ": maximum number of neighbours per element", got=str(got), want=want)
            # 1-based primitive indices
            zs = sorted({Z[x] for x in sp})
            for perm in ([zs] if len(zs) == 1 else [zs, zs[::-1]]):
                pad = [want[[e for e in set(sp) if Z[e] == z][0]] + 1 + k for k, z in enumerate(perm)]
                idx = np.asarray(U.get_nbrs_indices(struct_nbr=nb, center_atomic_numbers=perm, nbr_atomic_numbers=perm, max_num_nbrs=pad))
                centers = [i for z in perm for i in order if Z[sp[i]] == z]
                run.expect(idx.shape == (len(centers), sum(pad)), what + ": shape of the neighbour indices", got=idx.shape)
                for r, i in enumerate(centers):
                    o = 0
                    for k, z in enumerate(perm):
                        mine = [x for x in per[i] if Z[sp[x[1]]] == z]
                        row = [int(v) for v in idx[r, o:o + pad[k]]]
                        o += pad[k]
                        run.expect(row[len(mine):] == [0] * (pad[k] - len(mine)), what + ": padding of the neighbour indices", row=row, want=[x[1] + 1 for x in mine])
                        # equal distances may come in any order: compare shell by shell
                        a = 0
                        while a < len(mine):
                            b = a
                            while b < len(mine) and mine[b][4] - mine[a][4] < 1e-7:
                                b += 1
                            run.expect(sorted(row[a:b]) == sorted(x[1] + 1 for x in mine[a:b]), what + ": neighbour indices", row=row, want=[x[1] + 1 for x in mine])
                            a = b
            run.validated()
    run.expect(np.array_equal(np.asarray(s.frac_coords), fr) and [str(x) for x in s.species] == sp, "the structure was modified")


def edge(c, run):
    """a cluster in a wide box, all numbers exact in binary: neighbours exactly at the cutoff belong to the set"""
    from matersdk.io.publicLayer.neigh import StructureNeighborsUtils as U, StructureNeighborsDescriptor
    lat = np.diag([64.0, 64.0, 64.0])
    sp, xs = EDGE[c["edge"]]
    fr = np.array(xs, float) / 64.0
    s = dstruct(lat, sp, fr)
    for rc in c["rcs"]:
        ims = images(lat, fr, rc)
        order, per = rows_of(sp, fr, lat, rc, ims)
        what = "cluster %s rcut %g" % (c["edge"], rc)
        nb = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rc, scaling_matrix=[1, 1, 1])
        check_table(run, what, nb, sp, fr, lat, rc, order, per)
        got = U.get_max_num_nbrs_real(structure=s, rcut=rc, scaling_matrix=[1, 1, 1])
        run.expect(got == max(len(per[i]) for i in per), what + ": maximum number of neighbours", got=int(got), want=max(len(per[i]) for i in per))
        got = U.get_max_num_nbrs_real_element(structure=s, rcut=rc, nbr_elements=sorted(set(sp)), scaling_matrix=[1, 1, 1])
        want = {e: max(sum(1 for x in per[i] if sp[x[1]] == e) for i in per) for e in set(sp)}
        run.expect({k: int(v) for k, v in got.items()} == want, what + ": maximum number of neighbours per element", got=str(got), want=want)
        run.step(); run.state((c["edge"], rc)); run.validated()


EDGE = {"row": (["Li", "Si", "Li", "O"], [[32, 32, 32], [33, 32, 32], [35, 32, 32], [36, 32, 32]]),
        "345": (["Si", "Li", "Li", "O", "Si"], [[32, 32, 32], [35, 36, 32], [32, 28, 35], [32, 33, 32], [34, 32, 32]]),
        "cube": (["Li", "Si"] * 4, [[30 + 2 * a, 30 + 2 * b, 30 + 2 * d] for a in (0, 1) for b in (0, 1) for d in (0, 1)])}


def explore(ctx):
    rmax = 7.0 if ctx.thorough else 5.2
    extra = [(0, 0, 0), (1, 0, 1), (0, 1, 0), (1, 1, 1)] if ctx.thorough else [(0, 0, 0), (1, 0, 1)]
    cases = []
    for lat in LAT:
        for mot in ALL:
            sp, fr = ALL[mot]
            cuts = shell_cutoffs(LAT[lat], fr, rmax)
            step = 8
            lim = cuts if ctx.thorough else cuts[:10] + cuts[10::6]
            for i in range(0, len(lim), step):
                cases.append(dict(lat=lat, mot=mot, rcs=lim[i:i + step], extra=extra))
    for e in EDGE:
        cases.append(dict(edge=e, rcs=[1.0, 2.0, 3.0, 4.0, 5.0, 2.5, 3.75]))
    for lat in LATL:
        for rc in CUTL[lat] + ([6.3] if lat == "wide" else []):
            cases.insert(0, dict(lat=lat, mot="huge" if lat == "huge" else "big", rcs=[rc], extra=extra[:1] if lat == "huge" else extra[:2]))
    ctx.run_cases(cases, case)
