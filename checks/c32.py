import itertools, os
import numpy as np
from .pyc import LAT, Z, Scratch, dstruct, images, shell_cutoffs
from .c09 import ALL
from .c10 import feature, jac
from .c31 import DAV, DST, centres, displaced, ref_blocks, sc_of
PROPERTY = "C32"
TECHNIQUE = "exhaustive enumeration of crystals x cutoffs x species lists x paddings x inference histories over the real preprocessing and inference code with a recording model, compared with the brute-force neighbour set slot by slot"
RULE = "every (lattice, motif, cutoff class, smoothing radius, ordered species lists incl. species the crystal does not have, padding) and every sequence of inferences over two models and two crystals up to the bound; a state is one set of model inputs or one inference"
BOUNDS = {"quick": "8 lattices x 12 motifs x 2 cutoffs x up to 5 centre lists x 3 neighbour lists x 2 paddings; inference histories of length <= 3 incl. crystals displaced in place and model files replaced; chains of 300, 2100 atoms",
          "thorough": "4 cutoffs, histories of length <= 4"}

try:
    import torch

    class Recorder(torch.nn.Module):
        """a model whose outputs are known functions of its inputs"""
        def __init__(self, w):
            super().__init__()
            self.w = torch.nn.Parameter(torch.tensor([float(w)], dtype=torch.float64))

        def forward(self, rc, ri, rid, nei, natoms):
            assert not self.training
            e = (ri.sum(dim=(2, 3)) * self.w + rc.sum(dim=(2, 3)) + nei.sum(dim=2) * 0.25).unsqueeze(-1)
            tot = e.sum(dim=1) + float(np.asarray(natoms).ravel() @ np.arange(1, np.asarray(natoms).size + 1))
            de = torch.autograd.grad(e, ri, torch.ones_like(e))[0]       # as the networks do: forces from the gradient
            f = (rid * de.unsqueeze(-1)).sum(dim=(2, 3))
            v = torch.arange(9, dtype=torch.float64).reshape(1, 9) * self.w
            return tot, e, f, v
except ImportError:                                     # reported as a violation when a case runs
    torch = None


def slots(run, what, rc, ri, rid, nei, sp, refs, cen, nbr, sel, A, S):
    rows = centres(sp, cen)
    N = sum(sel)
    run.expect(rc.shape == (1, len(rows), N, 3) and ri.shape == (1, len(rows), N, 4) and rid.shape == (1, len(rows), N, 4, 3) and nei.shape == (1, len(rows), N),
               what + ": shapes of the model inputs", got=[rc.shape, ri.shape, rid.shape, nei.shape], want=[len(rows), N])
    for r, i in enumerate(rows):
        k = list(cen).index(Z[sp[i]])
        o = 0
        for j, zn in enumerate(nbr):
            mine = refs.get((i, zn), [])
            left = list(mine)
            for q in range(sel[j]):
                v = rc[0, r, o + q]
                if q >= len(mine):
                    run.expect(not v.any() and nei[0, r, o + q] == 0 and not rid[0, r, o + q].any(), what + ": padding slot", row=r, slot=o + q)
                    run.close(ri[0, r, o + q], -A[k] / S[k], 1e-9, what + ": padding slot of the features")
                    continue
                hit = [x for x in left if np.abs(x[3] - v).max() < 1e-7]
                run.expect(len(hit) == 1, what + ": a relative position is not that of a neighbour of this species", row=r, slot=o + q, got=v.tolist())
                x = hit[0]
                left = [y for y in left if y is not x]
                run.expect(abs(np.linalg.norm(x[3]) - np.linalg.norm(mine[q][3])) < 1e-6, what + ": slots are not ordered by distance", row=r, slot=o + q)
                run.close(ri[0, r, o + q], (x[0] - A[k]) / S[k], 1e-6, what + ": features do not belong to the neighbour in this slot")
                run.close(rid[0, r, o + q], x[1] / S[k][:, None], 1e-5, what + ": derivative does not belong to the neighbour in this slot")
                run.expect(nei[0, r, o + q] == x[2] + 1, what + ": neighbour index does not belong to the neighbour in this slot", row=r, slot=o + q, got=float(nei[0, r, o + q]), want=x[2] + 1)
            o += sel[j]


def want_natoms(sp, cen):
    return [len(sp)] + [sum(1 for s in sp if Z[s] == z) for z in cen]


def crystal(c, run):
    from matersdk.infer.pwmatmlff.deepmd.preprocess import InferPreprocessor
    from matersdk.infer.pwmatmlff.deepmd.inference import DpInfer
    from matersdk.infer.pwmatmlff.deepmd.inference_depre import FFInfer
    import h5py
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    s = dstruct(lat, sp, fr)
    zs = sorted({Z[x] for x in sp})
    for rc, rs in c["cuts"]:
        sc = sc_of(lat, [fr], rc)
        refs = ref_blocks(lat, sp, fr, rc, rs)
        mx = {z: max(len(refs.get((i, z), [])) for i in range(len(sp))) for z in zs + [2]}
        for cen, nbr, pad in itertools.product(c["cens"], c["nbrs"], c["pads"]):
            sel = [max(mx[z] + (0 if pad == 0 else k + 1), 1) for k, z in enumerate(nbr)]
            what = "%s/%s rcut %.4f smooth %.4f centres %s neighbours %s slots %s" % (c["lat"], c["mot"], rc, rs, cen, nbr, sel)
            run.step(); run.state(what)
            A, S = DAV[:len(cen)].copy(), DST[:len(cen)].copy()
            arg = dict(rcut=rc, rcut_smooth=rs, davg=A, dstd=S, center_atomic_numbers=cen, nbr_atomic_numbers=nbr, max_num_nbrs=sel, scaling_matrix=sc)
            p = InferPreprocessor(structure=s, **arg)
            rcv = p.expand_rc()
            ri, rid = p.expand_tildeR()
            nei = p.expand_list_neigh()
            slots(run, what, rcv, ri, rid, nei, sp, refs, cen, nbr, sel, A, S)
            nat = np.asarray(p.expand_natoms_img())
            run.expect(nat.tolist() == [want_natoms(sp, cen)], what + ": atom counts of the model input", got=nat.tolist(), want=want_natoms(sp, cen))
            run.expect(np.array_equal(A, DAV[:len(cen)]) and np.array_equal(S, DST[:len(cen)]), what + ": the statistics were modified")
            t = DpInfer(pt_file_path="unused", device="cpu", **arg)._preprocess(structure=s)
            for name, a, b in zip(("relative positions", "features", "derivatives", "neighbour indices"), t[:4], (rcv, ri, rid, nei)):
                run.expect(str(a.dtype) == "torch.float64", what + ": number type of the tensor of " + name)
                run.close(a.detach().numpy(), b, 1e-13, what + ": tensor of " + name)
            run.expect(np.asarray(t[4]).tolist() == nat.tolist(), what + ": atom counts handed to the model")
            run.validated()
        # the older interface: unnormalised features per species pair
        with Scratch() as d:
            h = os.path.join(d, "p.h5")
            with h5py.File(h, "w") as f:
                f.create_dataset("M1", data=4)
                f.create_dataset("w", data=np.arange(6.0).reshape(2, 3))
            cap = {z: mx[z] + 1 for z in zs}
            ff = FFInfer(hdf5_path=h, rcut=rc, rcut_smooth=rs, max_num_nbrs_dict=cap, davgs_dict={}, dstds_dict={})
            run.expect(set(ff.model_params_dict) == {"M1", "w"} and ff.model_params_dict["M1"] == 4 and np.array_equal(ff.model_params_dict["w"], np.arange(6.0).reshape(2, 3)), "parameters of the older inference object")
            tr = ff.calc_tildeR(structure=s, scaling_matrix=sc)
            run.expect(set(tr) == {"%d_%d" % (a, b) for a in zs for b in zs}, "species pairs of the older inference object", got=sorted(tr))
            for a, b in itertools.product(zs, zs):
                g = tr["%d_%d" % (a, b)]
                rows = centres(sp, [a])
                run.expect(g.shape == (len(rows), cap[b], 4), "shape of the features of pair %d-%d" % (a, b))
                for r, i in enumerate(rows):
                    left = list(refs.get((i, b), []))
                    m = len(left)
                    for q in range(m):
                        hit = [x for x in left if np.abs(x[0] - g[r, q]).max() < 1e-7]
                        run.expect(hit, "features of pair %d-%d" % (a, b), got=g[r, q].tolist())
                        left = [x for x in left if x is not hit[0]]
                    run.expect(not g[r, m:].any(), "padding of pair %d-%d" % (a, b))
            run.step()
    run.expect(np.array_equal(np.asarray(s.frac_coords), fr) and [str(x) for x in s.species] == sp, "the structure was modified")


def chain(c, run):
    """many atoms: indices and counts beyond 8 and 11 bits"""
    from matersdk.infer.pwmatmlff.deepmd.preprocess import InferPreprocessor
    from matersdk.infer.pwmatmlff.deepmd.inference import DpInfer
    n = c["n"]
    lat = np.diag([2.0 * n, 9.0, 9.0])
    sp = ["Li" if (i * i) % 3 else "Si" for i in range(n)]
    fr = np.array([[(i + 0.01 * ((7 * i) % 5)) / n, 0.3, 0.4 + 0.002 * (i % 3)] for i in range(n)])
    s = dstruct(lat, sp, fr)
    rc, rs = 2.9, 1.5
    refs = {}
    cart = fr @ lat
    for i in range(n):
        for j, sh in (((i - 1) % n, -1 if i == 0 else 0), ((i + 1) % n, 1 if i == n - 1 else 0)):
            v = cart[j] + np.array([sh * lat[0, 0], 0, 0]) - cart[i]
            refs.setdefault((i, Z[sp[j]]), []).append((feature(v, rs, rc), -jac(v, rs, rc), j, v))
    for k in refs:
        refs[k].sort(key=lambda x: np.linalg.norm(x[3]))
    zs, sel = [3, 14], [2, 3]
    A, S = DAV[:2], DST[:2]
    arg = dict(rcut=rc, rcut_smooth=rs, davg=A, dstd=S, center_atomic_numbers=zs, nbr_atomic_numbers=zs, max_num_nbrs=sel, scaling_matrix=[3, 1, 1])
    run.step(); run.state(n)
    t = DpInfer(pt_file_path="unused", device="cpu", **arg)._preprocess(structure=s)
    slots(run, "chain of %d atoms" % n, *[x.detach().numpy() for x in t[:4]], sp, refs, zs, zs, sel, A, S)
    run.expect(np.asarray(t[4]).tolist() == [want_natoms(sp, zs)], "chain of %d atoms: atom counts" % n)
    run.validated()


def history(c, run):
    """inferences over two models and two crystals; each answer is that of its own model file and crystal"""
    from matersdk.infer.pwmatmlff.deepmd.inference import DpInfer
    from matersdk.infer.pwmatmlff.deepmd.preprocess import InferPreprocessor
    lat = np.array(LAT[c["lat"]], float)
    sp, fr = ALL[c["mot"]]
    sp = list(sp)
    zs = sorted({Z[x] for x in sp})
    frs = [displaced(fr, k) for k in (0, 2)]
    ss = [dstruct(lat, sp, f) for f in frs]
    rc = shell_cutoffs(lat, frs[0], 4.6)[-1]
    rs = 0.6 * rc
    sc = sc_of(lat, frs, rc)
    refs = [ref_blocks(lat, sp, f, rc, rs) for f in frs]
    sel = [max([len(r.get((i, z), [])) for r in refs for i in range(len(sp))]) + 1 for z in zs]
    A, S = DAV[:len(zs)], DST[:len(zs)]
    arg = dict(rcut=rc, rcut_smooth=rs, davg=A, dstd=S, center_atomic_numbers=zs, nbr_atomic_numbers=zs, max_num_nbrs=sel, scaling_matrix=sc)
    W = [0.5, -3.0]
    inp = []
    for k in (0, 1):
        p = InferPreprocessor(structure=ss[k], **arg)
        inp.append((p.expand_rc(), *p.expand_tildeR(), p.expand_list_neigh()))
        slots(run, "history crystal %d" % k, *inp[-1], sp, refs[k], zs, zs, sel, A, S)
    nat = want_natoms(sp, zs)

    def want(m, k):
        rcv, ri, rid, nei = inp[k]
        e = (ri.sum(axis=(2, 3)) * W[m] + rcv.sum(axis=(2, 3)) + nei.sum(axis=2) * 0.25)[0]
        return [e.sum() + np.dot(nat, np.arange(1, len(nat) + 1))], e[:, None], rid.sum(axis=(2, 3))[0] * W[m], (np.arange(9.0) * W[m]).reshape(3, 3)
    with Scratch() as d:
        pts = [os.path.join(d, "m%d.pt" % k) for k in (0, 1)]
        for k in (0, 1):
            torch.save(Recorder(W[k]), pts[k])
        for seq in c["seqs"]:
            objs = [DpInfer(pt_file_path=q, device="cpu", **arg) for q in pts]
            cur, now = [0, 1], [0, 1]
            run.state(tuple(seq))
            for op, a in seq:
                run.step()
                if op == "move":            # the caller displaces the atoms of crystal 0 in place; the next answer is that of the displaced crystal
                    for i in range(len(sp)):
                        ss[0].replace(i, sp[i], coords=frs[1 - now[0]][i])
                    now[0] = 1 - now[0]
                    continue
                if op == "swap":            # the model file of object a now holds the other network
                    cur[a] = 1 - cur[a]
                    torch.save(Recorder(W[cur[a]]), pts[a])
                    continue
                for k in ((0, 1) if op == "both" else (int(op),)):
                    got = objs[a].infer(structure=ss[k])
                    for name, g, w in zip(("energy", "atomic energies", "forces", "virial"), got, want(cur[a], now[k])):
                        run.expect(isinstance(g, np.ndarray), "%s: %s is not an array" % (seq, name))
                        run.close(g, w, 1e-10, "%s: %s" % (seq, name))
            for k in (0, 1):
                torch.save(Recorder(W[k]), pts[k])
            ss[0] = dstruct(lat, sp, frs[0])
            run.validated()
        if not torch.cuda.is_available():
            try:
                DpInfer(pt_file_path=pts[0], device="cuda:0", **arg)
                ok = True
            except ValueError:
                ok = False
            run.expect(not ok, "a device that is not there is accepted")


def disp(c, run):
    if torch is None:
        run.expect(False, "torch cannot be imported")
    torch.set_num_threads(1)
    {"crystal": crystal, "history": history, "chain": chain}[c["k"]](c, run)


def explore(ctx):
    t = ctx.thorough
    cases = []
    for lat in LAT:
        for mot in ALL:
            sp, fr = ALL[mot]
            zs = sorted({Z[x] for x in sp})
            cuts = shell_cutoffs(LAT[lat], fr, 4.6)
            pick = sorted({int(round(k)) for k in np.linspace(0, len(cuts) - 1, 4 if t else 2)})
            cens = [zs, zs[::-1], zs + [2], [2] + zs, zs[:1]]
            nbrs = [zs, zs[::-1], [2] + zs]
            cens = [n for k, n in enumerate(cens) if n not in cens[:k]]
            nbrs = [n for k, n in enumerate(nbrs) if n not in nbrs[:k]]
            for n, k in enumerate(pick):
                for ci, cen in enumerate(cens):
                    cases.append(dict(k="crystal", lat=lat, mot=mot, cuts=[(cuts[k], (0.5, 0.95)[n % 2] * cuts[k])], cens=[cen], nbrs=nbrs if ci == 0 else nbrs[:1] + nbrs[-1:], pads=[0, 1] if ci == 0 else [ci % 2]))
    cases = [dict(k="chain", n=n) for n in (2100, 300)] + cases
    ops = [("0", 0), ("1", 0), ("0", 1), ("1", 1), ("both", 0), ("swap", 0), ("move", 0)]
    n = 4 if t else 3
    allseq = [s for k in range(1, n + 1) for s in itertools.product(ops, repeat=k)]
    step = 16
    for lat, mot in (("tri", "4"), ("hex", "3")):
        sub = allseq if mot == "4" else [s for s in allseq if len(s) <= 2]
        for i in range(0, len(sub), step):
            cases.append(dict(k="history", lat=lat, mot=mot, seqs=sub[i:i + step]))
    ctx.run_cases(cases, disp)
