import itertools, os
import numpy as np
from .pyc import Z, Scratch, dstruct, images, shell_cutoffs
from .c09 import ALL, LAT, LATL, CUTL, block, rows_of
from . import c02, schedpool
PROPERTY = "C12"
TECHNIQUE = "exhaustive enumeration of crystals, trajectories, species choices and cutoff classes over the real statistics code, against the definitions evaluated on the brute-force neighbour set"
RULE = "statistics of one structure: every (lattice, motif, cutoff class, ordered species choice, angle window); trajectories: every (frames, atoms, displacement pattern, lattice drift) written to a file and read by the real code"
BOUNDS = {"quick": "8 lattices x 9 motifs x 5 cutoff classes; trajectories of 1..4 frames x 1..3 atoms x 5 displacement patterns x 3 lattices; all schedules of 2..3 worker processes for trajectories of 2..5 frames",
          "thorough": "10 cutoff classes; 1..6 frames, 8 lattices"}


def ang(a, b):
    return float(np.degrees(np.arccos(np.clip(np.dot(a, b) / np.linalg.norm(a) / np.linalg.norm(b), -1, 1))))


def static(c, run):
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.feature.avg.avgbond import AvgBond
    from matersdk.feature.avg.avgangle import AvgAngle
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    s = dstruct(lat, sp, fr)
    rc = c["rc"]
    ims = images(lat, fr, rc)
    order, per = rows_of(sp, fr, lat, rc, ims)
    nb = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rc, scaling_matrix=block(ims, (0, 0, 0)))
    zs = sorted({Z[x] for x in sp})
    for z1, z2 in itertools.product(zs, zs):
        ds = [x[4] for i in order if Z[sp[i]] == z1 for x in per[i] if Z[sp[x[1]]] == z2]
        if ds:
            run.step(); run.state((c["lat"], c["mot"], rc, z1, z2))
            run.close(AvgBond.get_avg_bond_length(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2), np.mean(ds), 1e-8,
                      "%s/%s rcut %.4f: mean bond length %d-%d" % (c["lat"], c["mot"], rc, z1, z2))
            run.validated()
    for z1, z2, z3 in itertools.product(zs, repeat=3):
        rows = []
        for i in order:
            if Z[sp[i]] != z1:
                continue
            a = [x for x in per[i] if Z[sp[x[1]]] == z2]
            b = [x for x in per[i] if Z[sp[x[1]]] == z3]
            pairs = itertools.combinations(a, 2) if z2 == z3 else itertools.product(a, b)
            for x, y in pairs:
                rows.append((ang(x[3], y[3]), min(x[4], y[4]), max(x[4], y[4])))
        if not rows or len(rows) > c["maxtri"]:
            continue
        what = "%s/%s rcut %.4f: %d-%d-%d" % (c["lat"], c["mot"], rc, z2, z1, z3)
        run.step(); run.state(what)
        m, q = AvgAngle.get_avg_bond(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2, atomic_number_3=z3)
        A = np.array([r[0] for r in rows])
        run.close(m, A.mean(), 1e-6, what + ": mean bond angle")
        run.close(q, 1 - 3 / 8 * np.sum((1 / 3 + np.cos(np.deg2rad(A))) ** 2), 1e-6, what + ": tetrahedral order")
        srt = sorted(set(np.round(A, 6)))
        for std in {srt[0], srt[len(srt) // 2], srt[-1], 90.0}:
            for eps in (7.0, 25.0):
                if any(abs(abs(a - std) - eps) < 1e-3 for a in A):      # a window edge on top of an angle decides nothing
                    eps += 0.0137
                if any(abs(abs(a - std) - eps) < 1e-3 for a in A):
                    continue
                want = sorted(r for r in rows if abs(r[0] - std) < eps)
                got = np.asarray(AvgBond.get_bond_lengths_lst_according2angle(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2, atomic_number_3=z3,
                                                                              angle_standard=std, angle_epsilon=eps))
                run.step()
                run.expect(got.shape == (len(want), 3), what + ": number of bond pairs with angle %.3f +- %.3f" % (std, eps), got=got.shape, want=len(want))
                if want:      # equal as multisets of rows (rows are equal up to rounding or clearly different)
                    w = np.array(want)
                    near = lambda a, b: (np.abs(a[:, None, :] - b[None, :, :]).max(axis=2) < 2e-5).sum(axis=1)
                    run.expect(np.array_equal(near(got, w), near(got, got)) and np.all(near(w, got) > 0),
                               what + ": bond pairs with angle %.3f +- %.3f" % (std, eps), got=got[:20].tolist(), want=want[:20])
        run.validated()


PATTERN = {
    "walk": lambda f, i, k: 0.013 * ((7 * f + 3 * i + 5 * k) % 11 - 4) + 0.002 * f,
    "still": lambda f, i, k: 0.0,
    "drift": lambda f, i, k: 0.031 * f * (k + 1),                      # rigid translation
    "one": lambda f, i, k: 0.047 * f * (i == 0) * (1 if k != 1 else -2),
    "far": lambda f, i, k: (0.83 * f if i != 1 else -1.3 * f) * (1, 0.5, -2)[k],        # beyond half a cell, beyond a cell
    "mixed": lambda f, i, k: 0.02 * ((-1) ** (f + i)) * (f * f + i + 1) * (k + 1) / 3.0 if f else 0.0,
}


def traj(c, run):
    import os as _os
    _os.cpu_count = lambda: 3
    from matersdk.feature.avg.avgbond import AvgBond, PairBond
    from matersdk.feature.avg.msd import Msd, DiffractionIntensity
    from matersdk.io.pwmat.output.movement import Movement
    n, nf = c["n"], c["nf"]
    z = ([14, 3, 14] * 20)[:n]
    base = np.array([[0.11, 0.23, 0.37], [0.52, 0.71, 0.64], [0.83, 0.18, 0.91]] + [[round((.137 * i) % 1, 3), round((.211 * i) % 1, 3), round((.079 * i) % 1, 3)] for i in range(3, n)])[:n]
    L0 = np.array(LAT[c["lat"]], float)
    lats = [L0 * (1 + 0.01 * f if c["drift"] else 1.0) for f in range(nf)]
    poss = [base + np.array([[PATTERN[c["pat"]](f, i, k) for k in range(3)] for i in range(n)]) for f in range(nf)]
    m0 = c02.model(n)
    txt = "".join(c02.text(dict(m0, z=z, lat=lats[f], pos=poss[f]), ["force"], "asis", "e3", 0, 0, "md") + " " + "-" * 49 + "\n" for f in range(nf))
    with Scratch() as d:
        p = os.path.join(d, "MOVEMENT")
        with open(p, "w") as f:
            f.write(txt)
        cart = [poss[f] @ lats[f] for f in range(nf)]
        what = str(c)
        run.state(what)
        msd = [float(np.mean(np.sum((cart[f] - cart[0]) ** 2, axis=1))) for f in range(1, nf)]
        cen = [x - x.mean(axis=0) for x in cart]
        msdc = [float(np.mean(np.sum((cen[f] - cen[0]) ** 2, axis=1))) for f in range(1, nf)]
        mv = Movement(movement_path=p)
        if c.get("w"):      # every order in which the worker processes may finish
            ims = [images(lats[f], poss[f], 4.63) for f in range(nf)]
            sc = block([x for im in ims for x in im], (0, 0, 0))
            want = [np.mean([x[4] for x in im if z[x[0]] == 14 and z[x[1]] == 3]) for im in ims]
            bodies = [lambda: run.close(Msd(mv).calc_msd(), msd, 1e-8, what + ": mean squared displacement"),
                      lambda: run.close(Msd(mv).calc_msd_sub_centroid(), msdc, 1e-8, what + ": mean squared displacement relative to the centroid"),
                      lambda: run.close(DiffractionIntensity(mv, 1.7).calc_di(), np.exp(-1.7 ** 2 * np.array(msd) / 3), 1e-8, what + ": diffraction intensity"),
                      lambda: run.close(AvgBond(p, "Si", "Li", 4.63).get_frames_avg_bond(scaling_matrix=sc), want, 1e-8, what + ": mean bond length per frame")]
            for k, body in enumerate(bodies):
                q, steps = schedpool.explore(body, d, c["w"], c["bound"])
                run.step(steps); run.validated(q)
                for i in range(q):
                    run.state((what, k, i))
            return
        if nf > 1:
            run.close(Msd(mv).calc_msd(), msd, 1e-8, what + ": mean squared displacement")
            run.close(Msd(mv).calc_msd_sub_centroid(), msdc, 1e-8, what + ": mean squared displacement relative to the centroid")
            run.close(DiffractionIntensity(mv, 1.7).calc_di(), np.exp(-1.7 ** 2 * np.array(msd) / 3), 1e-8, what + ": diffraction intensity")
            run.step(3)
        for i, j in itertools.product(range(n) if n < 9 else (0, 9, n - 1), repeat=2):
            run.close(PairBond(p, i, j).get_frames_pair_bond(), [np.linalg.norm(x[j] - x[i]) for x in cart], 1e-8, what + ": distance of atoms %d and %d" % (i, j))
            run.step()
        rc = 4.63 if nf * n * n < 300 else 2.2
        els = sorted({14: "Si", 3: "Li"}[x] for x in set(z))
        for e1, e2 in itertools.product(els, els):
            want = []
            for f in range(nf):
                ims = images(lats[f], poss[f], rc)
                want.append([x[4] for x in ims if z[x[0]] == Z[e1] and z[x[1]] == Z[e2]])
            if all(want):
                sc = block([x for f in range(nf) for x in images(lats[f], poss[f], rc)], (0, 0, 0))
                got = AvgBond(p, e1, e2, rc).get_frames_avg_bond(scaling_matrix=sc)
                run.close(got, [np.mean(w) for w in want], 1e-8, what + ": mean %s-%s bond length per frame" % (e1, e2))
                run.step()
        run.validated()


def case(c, run):
    (static if "mot" in c else traj)(c, run)


def explore(ctx):
    cases = []
    for lat in LAT:
        for mot in ALL:
            cuts = shell_cutoffs(LAT[lat], ALL[mot][1], 5.5 if ctx.thorough else 4.6)
            for k in sorted({int(round(k)) for k in np.linspace(0, len(cuts) - 1, 10 if ctx.thorough else 5)}):
                cases.append(dict(lat=lat, mot=mot, rc=cuts[k], maxtri=6000 if ctx.thorough else 900))
    for lat in ("wide", "long", "huge"):
        for rc in CUTL[lat]:
            cases.insert(0, dict(lat=lat, mot="big", rc=rc, maxtri=900))
    for nf, n in ((40, 2), (101, 1), (7, 24), (2, 60)):
        for pat in ("walk", "still"):
            cases.insert(0, dict(lat="tri", nf=nf, n=n, pat=pat, drift=nf % 2))
    for nf, w, bound in ((2, 2, 1), (3, 2, 1), (4, 2, 0), (4, 3, 0), (5, 2, 0)):
        cases.insert(0, dict(lat="tri", nf=nf, n=3, pat="walk", drift=1, w=w, bound=bound))
    for lat in (list(LAT) if ctx.thorough else ["cubic", "tri", "hex"]):
        for nf in range(1, 7 if ctx.thorough else 5):
            for n in (1, 2, 3):
                for pat in PATTERN:
                    for drift in (0, 1):
                        cases.append(dict(lat=lat, nf=nf, n=n, pat=pat, drift=drift))
    ctx.run_cases(cases, case)
