import itertools
import numpy as np
from .pyc import Z, dstruct, images, shell_cutoffs
from .c09 import ALL, LAT, LATL, CUTL, block, rows_of
PROPERTY = "C10"
TECHNIQUE = "exhaustive enumeration of crystals x cutoffs x smoothing radii x species pairs over the real feature code, compared with a reference computed from the brute-force neighbour set; derivatives against the closed form and against the features of displaced neighbours"
RULE = "every (lattice, motif, neighbour cutoff, feature cutoff, smoothing radius, ordered species pair and stacking order); a state is one feature block"
BOUNDS = {"quick": "8 lattices x 9 motifs x 4 neighbour cutoffs x 3 feature cutoffs x 3 smoothing radii", "thorough": "10 neighbour cutoffs x 4 feature cutoffs x 4 smoothing radii"}


def switch(r, rs, rc):
    """value and derivative of the switching function"""
    if r < rs:
        return 1.0, 0.0
    if r >= rc:
        return 0.0, 0.0
    u = (r - rs) / (rc - rs)
    return u ** 3 * (-6 * u * u + 15 * u - 10) + 1.0, (3 * u * u * (-6 * u * u + 15 * u - 10) + u ** 3 * (-12 * u + 15)) / (rc - rs)


def feature(v, rs, rc):
    r = float(np.linalg.norm(v))
    w, _ = switch(r, rs, rc)
    return np.concatenate([[w / r], w * v / r / r])


def jac(v, rs, rc):
    """d feature / d position of the neighbour"""
    r = float(np.linalg.norm(v))
    w, dw = switch(r, rs, rc)
    out = np.zeros((4, 3))
    for b in range(3):
        out[0, b] = -w * v[b] / r ** 3 + dw * v[b] / r ** 2
        for a in range(3):
            out[a + 1, b] = ((1.0 if a == b else 0.0) * w / r ** 2 - 2 * w * v[a] * v[b] / r ** 4 + v[a] * dw * v[b] / r ** 3)
    return out


def case(c, run):
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.feature.deepmd.premise import DpFeaturePairPremiseDescriptor
    from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
    from matersdk.feature.deepmd.se import DpseTildeRDescriptor
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    s = dstruct(lat, sp, fr)
    rn = c["rn"]
    ims = images(lat, fr, rn)
    order, per = rows_of(sp, fr, lat, rn, ims)
    nb = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rn, scaling_matrix=block(ims, (0, 0, 0)))
    zs = sorted({Z[x] for x in sp})
    blocks = {}
    mx = {}
    for zc, zn in itertools.product(zs, zs + [2]):
        rows = [i for i in order if Z[sp[i]] == zc]
        mine = [[x for x in per[i] if Z[sp[x[1]]] == zn] for i in rows]
        width = max(len(m) for m in mine)
        mx[zc, zn] = (rows, mine, width)
        what = "%s/%s neighbours %.4f pair %d-%d" % (c["lat"], c["mot"], rn, zc, zn)
        pre = DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=nb)
        an, d, rc_ = [np.asarray(x) for x in pre.extract_feature_pair(center_atomic_number=zc, nbr_atomic_number=zn)]
        run.step(); run.state(what)
        run.expect(an.shape == (len(rows), width) and d.shape == an.shape and rc_.shape == an.shape + (3,), what + ": shapes of the pair tables", got=an.shape)
        order_of = []
        for r, m in enumerate(mine):
            run.expect(all(an[r, :len(m)] == zn) and not an[r, len(m):].any() and not d[r, len(m):].any() and not rc_[r, len(m):].any(), what + ": pair table entries")
            run.close(d[r, :len(m)], [x[4] for x in m], 1e-8, what + ": pair distances")
            left, o = list(m), []
            for k in range(len(m)):
                hit = [x for x in left if np.abs(x[3] - rc_[r, k]).max() < 1e-7]
                run.expect(len(hit) == 1, what + ": a relative position in the pair table is not that of a neighbour", row=r, col=k)
                left = [x for x in left if x is not hit[0]]
                o.append(hit[0])
            order_of.append(o)
        run.close(pre.expand_rc(center_atomic_number=zc, nbr_atomic_number=zn, max_num_nbrs=width + 2)[:, :width], rc_, 1e-12, what + ": expand_rc")
        run.expect(not pre.expand_rc(zc, zn, width + 2)[:, width:].any(), what + ": padding of expand_rc")
        for rc, rs in c["pairs"]:
            w2 = what + " rcut %.4f rcut_smooth %.4f" % (rc, rs)
            run.step(); run.state(w2)
            f = DpseTildeRPairDescriptor.create("v1", structure_neighbors=nb, center_atomic_number=zc, nbr_atomic_number=zn, rcut=rc, rcut_smooth=rs)
            want = np.zeros((len(rows), width + 1, 4))
            dwant = np.zeros((len(rows), width + 1, 4, 3))
            for r, o in enumerate(order_of):
                for k, x in enumerate(o):
                    want[r, k] = feature(x[3], rs, rc)
                    dwant[r, k] = -jac(x[3], rs, rc)      # derivative with respect to the centre
            got = f.get_tildeR(max_num_nbrs=width + 1)
            run.close(got, want, 1e-7, w2 + ": features")
            run.close(f.get_tildeR(width), want[:, :width], 1e-7, w2 + ": features without padding")
            run.close(f.calc_derivative(max_num_nbrs=width + 1), dwant, 1e-6, w2 + ": derivative of the features")
            run.close(f.get_tildeR(max_num_nbrs=width + 1), want, 1e-7, w2 + ": features after asking for the derivative")
            blocks[zc, zn, rc, rs] = want
            run.validated()
    for rc, rs in c["pairs"]:
        for perm in ([zs] if len(zs) == 1 else [zs, zs[::-1], zs[:1], zs[1:]]):
            nbrs = perm + [2]
            sel = [max(mx[zc, zn][2] for zc in zs) + k for k, zn in enumerate(nbrs)]
            t = DpseTildeRDescriptor.create("v1", nb, perm, nbrs, sel, rc, rs)
            want = []
            for zc in perm:
                for k, zn in enumerate(nbrs):
                    b = blocks[zc, zn, rc, rs][:, :mx[zc, zn][2]]
                    e = np.zeros((b.shape[0], sel[k], 4))
                    e[:, :b.shape[1]] = b
                    want.append(e.flatten())
            run.step()
            run.close(t.get_tildeR(), np.concatenate(want), 1e-7, "stacked features of %s with neighbours %s" % (perm, nbrs))
            run.close(t.get_tildeR(), np.concatenate(want), 1e-7, "stacked features asked for twice")


def explore(ctx):
    cases = []
    for lat in LAT:
        for mot in ALL:
            cuts = shell_cutoffs(LAT[lat], ALL[mot][1], 6.0 if ctx.thorough else 5.0)
            n = 10 if ctx.thorough else 4
            pick = sorted({int(round(k)) for k in np.linspace(0, len(cuts) - 1, n)})
            for k in pick:
                rn = cuts[k]
                rcs = [rn, 0.8 * rn, rn + 1.0] + ([0.55 * rn] if ctx.thorough else [])
                fr = [0.0, 0.5, 0.9] + ([0.3] if ctx.thorough else [])
                cases.append(dict(lat=lat, mot=mot, rn=rn, pairs=[(rc, q * rc) for rc in rcs for q in fr]))
    for lat in ("wide", "long", "huge"):
        for rn in CUTL[lat][:1] + ([] if lat == "long" else [4.57]):
            cases.insert(0, dict(lat=lat, mot="big", rn=rn, pairs=[(rn, 0.5 * rn), (0.8 * rn, 0.0)]))
    ctx.run_cases(cases, case)
