import itertools, os
import numpy as np
from .pyc import LAT, Z, Scratch, dstruct, images, shell_cutoffs
from .c09 import ALL, block
from .c10 import feature, jac
PROPERTY = "C31"
TECHNIQUE = "exhaustive enumeration of crystals x cutoffs x species lists x paddings x frame-index sequences over the real normaliser, compared with statistics and normalised features computed from the brute-force neighbour set; save/load histories replayed on the real files"
RULE = "every (lattice, motif, cutoff class, smoothing radius, ordered centre and neighbour species lists, padding, statistics) and every sequence of frame indices up to the bound; a state is one statistics table or one normalised block"
BOUNDS = {"quick": "8 lattices x 12 motifs x 2 cutoffs x 2 smoothing radii; centre lists: every non-empty ordered selection of the species, neighbour lists: sorted/reversed/with an absent species/single; 1-2 paddings; index sequences over 3 frames: all up to length 2 and three of length 3, all up to length 3 for one-atom crystals; feature arrays over a 5-value alphabet, N <= 2 rows x 1..3 frames",
          "thorough": "4 cutoffs x 3 smoothing radii, index sequences up to length 3, N <= 3 rows"}
DAV = np.array([[0.25, 0.0, 0.0, 0.0], [-0.5, 0.125, 0.3, -0.2], [0.0, 1.0, -2.0, 0.75], [0.4, 0.05, 0.06, 0.07], [0.11, 0.12, 0.13, 0.14]])
DST = np.array([[0.5, 0.2, 0.3, 0.4], [2.0, 1.25, 0.01, 0.75], [0.35, 0.6, 0.8, 3.0], [1.5, 1.6, 1.7, 1.8], [0.9, 0.21, 0.31, 0.41]])


class System:
    def __init__(self, structures):
        self.structures_lst = structures


def ref_blocks(lat, sp, fr, rc, rs):
    """{(i, zn): [(feature, derivative w.r.t. the centre, neighbour index, vector)]}, nearest first"""
    out = {}
    for x in sorted(images(lat, fr, rc), key=lambda x: x[4]):
        out.setdefault((x[0], Z[sp[x[1]]]), []).append((feature(x[3], rs, rc), -jac(x[3], rs, rc), x[1], x[3]))
    return out


def centres(sp, zs):
    return [i for z in zs for i in range(len(sp)) if Z[sp[i]] == z]


def match(run, what, got, dgot, mine, avg, std):
    """rows of one centre/neighbour-species block against the reference (equal distances in any order)"""
    m = len(mine)
    left = list(mine)
    for k in range(m):
        hit = [x for x in left if np.abs(got[k] - (x[0] - avg) / std).max() < 1e-6 * (1 + np.abs(got[k]).max())
               and np.abs(dgot[k] - x[1] / std[:, None]).max() < 1e-5 * (1 + np.abs(dgot[k]).max())]
        run.expect(hit, what + ": a normalised feature (or its derivative) is not that of a neighbour", col=k, got=got[k].tolist(), dgot=dgot[k].tolist(), want=[((x[0] - avg) / std).tolist() for x in left])
        # features are ordered with the distance: the slot belongs to the k-th nearest shell
        run.expect(abs(np.linalg.norm(hit[0][3]) - np.linalg.norm(mine[k][3])) < 1e-6, what + ": slots are not ordered by distance", col=k)
        left = [x for x in left if x is not hit[0]]
    run.close(got[m:], np.tile((0 - avg) / std, (len(got) - m, 1)), 1e-9, what + ": padding slots")
    run.expect(not dgot[m:].any(), what + ": derivative of the padding slots")


def ref_stats(rows):
    rows = np.asarray(rows, float).reshape(-1, 4)
    n = len(rows)
    if n == 0:
        return np.zeros(4), np.full(4, 1e-2)
    s, a = rows[:, 0], rows[:, 1:].flatten()
    sd = lambda v: max(float(np.sqrt(np.mean((v - v.mean()) ** 2))), 0.0)
    f = lambda x: x if x >= 1e-2 else 1e-2
    return np.array([s.mean(), 0, 0, 0]), np.array([f(sd(s))] + [f(sd(a))] * 3)




def displaced(fr, k):
    fr = np.array(fr, float)
    if k == 0:
        return fr
    d = np.array([[((7 * i + 3 * a + 5 * k) % 11 - 5) * 0.004 for a in range(3)] for i in range(len(fr))])
    return fr + d


def sc_of(lat, frs, rc):
    n = [block(images(lat, f, rc), (0, 0, 0)) for f in frs]
    return [max(x[k] for x in n) for k in range(3)]


def crystal(c, run):
    from matersdk.feature.deepmd.preprocess import TildeRNormalizer, NormalizerPremise
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]]
    sp = list(sp)
    frs = [displaced(fr, k) for k in range(3)]
    ss = [dstruct(lat, sp, f) for f in frs]
    sysm = System(ss)
    zs = sorted({Z[x] for x in sp})
    with Scratch() as d:
        for rc, rs in c["cuts"]:
            sc = sc_of(lat, frs, rc)
            refs = [ref_blocks(lat, sp, f, rc, rs) for f in frs]
            mx = {z: max([len(r.get((i, z), [])) for r in refs for i in range(len(sp))]) for z in zs + [2]}
            for cen in c["cens"]:
                for nbr in c["nbrs"]:
                    for pad in c["pads"]:
                        sel = [mx[z] + (0 if pad == 0 else k + 1) for k, z in enumerate(nbr)]
                        if sum(sel) == 0:
                            continue
                        what = "%s/%s rcut %.4f smooth %.4f centres %s neighbours %s slots %s" % (c["lat"], c["mot"], rc, rs, cen, nbr, sel)
                        run.step(); run.state(what)
                        stat = None
                        for seq in c["seqs"]:
                            davg, dstd = TildeRNormalizer.calc_stats(dp_labeled_system=sysm, structure_indices=list(seq), rcut=rc, rcut_smooth=rs,
                                center_atomic_numbers=cen, nbr_atomic_numbers=nbr, max_num_nbrs=sel, scaling_matrix=sc)
                            run.step(); run.state((what, seq))
                            run.expect(np.shape(davg) == (len(cen), 4) and np.shape(dstd) == (len(cen), 4), what + ": shape of the statistics")
                            for k, z in enumerate(cen):
                                rows = []
                                for f in seq:
                                    for i in centres(sp, [z]):
                                        for j, zn in enumerate(nbr):
                                            b = [x[0] for x in refs[f].get((i, zn), [])]
                                            rows += b + [np.zeros(4)] * (sel[j] - len(b))
                                a, s = ref_stats(rows)
                                run.close(davg[k], a, 1e-7, what + ": mean for frames %s, centre %d" % (seq, z))
                                run.close(dstd[k], s, 1e-5, what + ": deviation for frames %s, centre %d" % (seq, z))
                            stat = (davg, dstd)
                        # normalise with these statistics and with arbitrary ones
                        for src in ("file", "sys", "given"):
                            if src == "sys":
                                nz = TildeRNormalizer.from_dp_labeled_system(dp_labeled_system=sysm, structure_indices=list(c["seqs"][-1]), rcut=rc, rcut_smooth=rs,
                                    center_atomic_numbers=cen, nbr_atomic_numbers=nbr, max_num_nbrs=sel, scaling_matrix=sc)
                                A, S = stat
                                run.close(nz.davgs, A, 1e-12, what + ": mean of the normaliser made from the system")
                                run.close(nz.dstds, S, 1e-12, what + ": deviation of the normaliser made from the system")
                            else:
                                A, S = DAV[:len(cen)].copy(), DST[:len(cen)].copy()
                                nz = TildeRNormalizer(rcut=rc, rcut_smooth=rs, center_atomic_numbers=cen, nbr_atomic_numbers=nbr, max_num_nbrs=sel, scaling_matrix=sc, davgs=A.copy(), dstds=S.copy())
                            if src == "file":
                                h = os.path.join(d, "n.h5")
                                nz.to(hdf5_file_path=h)
                                nz = TildeRNormalizer.from_file(hdf5_file_path=h)
                                run.expect(nz.rcut == rc and nz.rcut_smooth == rs and list(nz.center_atomic_numbers) == list(cen) and list(nz.nbr_atomic_numbers) == list(nbr)
                                           and list(nz.max_num_nbrs) == list(sel) and list(nz.scaling_matrix) == list(sc) and np.array_equal(nz.davgs, A) and np.array_equal(nz.dstds, S),
                                           what + ": the normaliser read back differs from the saved one")
                            for f in ((0, 2) if src == "file" else (1,)):
                                t, dt = nz.normalize(structure=ss[f])
                                rows = centres(sp, cen)
                                run.expect(t.shape == (len(rows), sum(sel), 4) and dt.shape == (len(rows), sum(sel), 4, 3), what + ": shape of the normalised features", got=[t.shape, dt.shape])
                                for r, i in enumerate(rows):
                                    k = list(cen).index(Z[sp[i]])
                                    o = 0
                                    for j, zn in enumerate(nbr):
                                        match(run, what + " (%s)" % src, t[r, o:o + sel[j]], dt[r, o:o + sel[j]], refs[f].get((i, zn), []), A[k], S[k])
                                        o += sel[j]
                                run.step()
                            dic, ddic = nz._normalize(structure=ss[1])
                            if src == "given":
                                t, dt = nz.normalize(ss[1])
                                run.expect(set(dic) == {"%d_%d" % (a, b) for a in cen for b in nbr} and set(ddic) == set(dic), what + ": keys of the pair blocks", got=sorted(dic))
                                run.close(np.concatenate([np.concatenate([dic["%d_%d" % (a, b)] for b in nbr], 1) for a in cen], 0), t, 1e-12, what + ": pair blocks and stacked features")
                                run.close(np.concatenate([np.concatenate([ddic["%d_%d" % (a, b)] for b in nbr], 1) for a in cen], 0), dt, 1e-12, what + ": pair blocks and stacked derivatives")
                        run.validated()
    for s, f in zip(ss, frs):
        run.expect(np.array_equal(np.asarray(s.frac_coords), f) and [str(x) for x in s.species] == sp, "a structure was modified")


def arrays(c, run):
    """statistics and normalisation of bare feature arrays"""
    from matersdk.feature.deepmd.preprocess import TildeRPairNormalizer
    AL = [0.0, 0.1, 0.3, 1.0, -0.7]
    n = c["n"]
    for tail in itertools.product(range(5), repeat=n):
        idx = [c["first"]] + list(tail)
        # each row: s from the alphabet, angles from a rotation of it
        rows = np.array([[AL[i], AL[(i + j) % 5], AL[(2 * i + j) % 5] * 0.5, -AL[(i + 2 * j) % 5]] for j, i in enumerate(idx)])
        if c["flat"]:
            rows = np.array([[AL[i]] * 4 for i in idx])
        for shape in c["shapes"]:
            q = int(np.prod(shape))
            arr = np.concatenate([rows] * q)[: q * len(rows)].reshape(tuple(shape) + (len(rows), 4))
            keep = arr.copy()
            run.step(); run.state((tuple(idx), tuple(shape), c["flat"]))
            what = "features %s shape %s" % (rows.tolist(), arr.shape)
            z = TildeRPairNormalizer(tildeRs_array=arr)
            a, s = ref_stats(arr)
            run.close(np.ravel(z.davg), a, 1e-9, what + ": mean")
            run.close(np.ravel(z.dstd), s, 1e-6, what + ": deviation")
            a, s = np.ravel(z.davg).copy(), np.ravel(z.dstd).copy()
            run.close(z.normalize(tildeRs_array=arr), (keep - a) / s, 1e-12, what + ": normalised")
            run.expect(np.array_equal(arr, keep), what + ": the features were modified")
            for g, (A, S) in enumerate(zip(DAV, DST)):
                y = TildeRPairNormalizer(davg=A if g % 2 else A.reshape(1, 4), dstd=S if g % 2 else S.reshape(1, 4))
                run.close(y.normalize(arr), (keep - A) / S, 1e-12, what + ": normalised with given statistics")
                der = np.arange(arr.size * 3, dtype=float).reshape(arr.shape + (3,)) * 0.125 - 1.0
                dk = der.copy()
                run.close(y.normalize_derivative(tildeR_derivatives_array=der), dk / S.reshape((1,) * (arr.ndim - 1) + (4, 1)), 1e-12, what + ": derivative")
                run.expect(np.array_equal(der, dk), what + ": the derivatives were modified")
            run.close(z.normalize(arr), (keep - a) / s, 1e-12, what + ": normalised after another normaliser was used")
            run.validated()
    for bad in (dict(), dict(davg=DAV[0]), dict(dstd=DST[0])):
        try:
            TildeRPairNormalizer(**bad)
            ok = True
        except Exception:
            ok = False
        run.expect(not ok, "a normaliser without statistics is accepted", given=sorted(bad))


def files(c, run):
    """histories of saves and loads over one path"""
    from matersdk.feature.deepmd.preprocess import TildeRNormalizer
    def make(k):
        n = 1 + k % 3
        return dict(rcut=3.0 + k, rcut_smooth=2.0 + 0.5 * k, center_atomic_numbers=[3, 14, 42][:n][::(1 if k % 2 else -1)], nbr_atomic_numbers=[1, 118, 16, 26][: 1 + (k + 1) % 4],
                    max_num_nbrs=[5 + k, 300, 129 + k, 70000][: 1 + (k + 1) % 4], scaling_matrix=[3, 1 + 2 * (k % 2), 5], davgs=DAV[k % 2:k % 2 + n] * (k + 1), dstds=DST[k % 2:k % 2 + n] + k)
    with Scratch() as d:
        for seq in c["seqs"]:
            run.step(); run.state(seq)
            objs = {}
            h = os.path.join(d, "x.h5")
            loaded = []
            for k in seq:
                p = make(k)
                TildeRNormalizer(**p).to(h)
                loaded.append((k, TildeRNormalizer.from_file(h)))
                for kk, o in loaded:
                    q = make(kk)
                    for name in q:
                        run.expect(np.array_equal(np.asarray(getattr(o, name)), np.asarray(q[name])), "history %s: %s of the normaliser read in step %d" % (seq, name, kk), got=str(getattr(o, name)))
                run.step()
            os.remove(h)
            run.validated()
    p = make(2)
    for name in ("davgs", "dstds"):
        for bad in (p[name][:-1], np.vstack([p[name], p[name][:1]]), p[name][:, :3]):
            try:
                TildeRNormalizer(**dict(p, **{name: bad}))
                ok = True
            except Exception:
                ok = False
            run.expect(not ok, "statistics that do not fit the species are accepted", which=name, shape=bad.shape)


def disp(c, run):
    {"crystal": crystal, "arrays": arrays, "files": files}[c["k"]](c, run)


def selections(zs):
    return [list(p) for n in range(1, len(zs) + 1) for p in itertools.permutations(zs, n)]


def explore(ctx):
    t = ctx.thorough
    cases = []
    full = [s for n in range(1, 4) for s in itertools.product(range(3), repeat=n)]
    short = [s for s in full if len(s) < 3] + [(0, 1, 1), (2, 0, 2), (1, 1, 0)]
    for li, lat in enumerate(LAT):
        for mi, mot in enumerate(ALL):
            sp, fr = ALL[mot]
            zs = sorted({Z[x] for x in sp})
            seqs = full if t or len(sp) == 1 else short
            cuts = shell_cutoffs(LAT[lat], fr, 4.6)
            pick = sorted({int(round(k)) for k in np.linspace(0, len(cuts) - 1, 4 if t else 2)})
            cens = selections(zs) if len(zs) < 3 else [zs, zs[::-1], zs[1:], zs[:1], zs[1:] + zs[:1]]
            cens = cens + [zs[:1] + [2]]
            nbrs = [zs, zs[::-1], [2] + zs, zs[-1:]]
            nbrs = [n for k, n in enumerate(nbrs) if n not in nbrs[:k]]
            for k in pick:
                rcs = [(cuts[k], 0.5 * cuts[k]), (cuts[k], 0.95 * cuts[k])] + ([(cuts[k], 0.0)] if t else [])
                for ci, cen in enumerate(cens):
                    # every sequence of frames with the first neighbour list, the last sequence with the others
                    cases.append(dict(k="crystal", lat=lat, mot=mot, cuts=rcs[:1] if ci else rcs, cens=[cen], nbrs=nbrs[:1], pads=[0, 1] if ci == 0 else [(ci + 1) % 2], seqs=seqs if ci == 0 else seqs[:1] + seqs[-3:]))
                    if nbrs[1:]:
                        cases.append(dict(k="crystal", lat=lat, mot=mot, cuts=rcs[(ci % 2):(ci % 2) + 1], cens=[cen], nbrs=nbrs[1:], pads=[ci % 2], seqs=[seqs[-2]]))
    for n in ((1, 2, 3) if t else (1, 2)):
        for first in range(5):
            for flat in (0, 1):
                cases.append(dict(k="arrays", n=n, first=first, flat=flat, shapes=[[1], [3], [2, 3], [1, 1], [7]]))
    cases.append(dict(k="files", seqs=[s for n in (1, 2, 3) for s in itertools.product(range(4), repeat=n)]))
    ctx.run_cases(cases, disp)
