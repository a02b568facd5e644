import glob, itertools, os
import numpy as np
from mc.core import REPO, VERIF
from . import tcomp
PROPERTY = "C24"
TECHNIQUE = "exhaustive enumeration of neighbour tables through EnvMatrix and Se4pw (ASan/UBSan) and of batches x precisions x memory layouts through the real Torch operators built from the working tree, against the closed-form definition and gradient"
RULE = "every table over the stated alphabet of types and positions; every batch of frames; every value, derivative, relative position and neighbour index compared slot by slot, unused slots must be zero (index -1)"
BOUNDS = {"quick": "1 centre x 0..4 neighbours (1 type), 0..3 (2 types), 0..2 (3 types) over 8 positions incl. r = smoothing radius, r = cutoff, beyond, and very close pairs; rows of up to 700 neighbours, up to 9 types, up to 260 centres; 2 and 3 centres with shorter rows; 3 width rules; float and double. Operators: all batches of 1..3 frames (and some of 8, 17, 65) over 5 frames x 2 precisions x 6 layouts; batches of 1..2 x 3 cutoff pairs x every assignment of 3 width rules to the frames",
          "thorough": "rows one longer; batches up to 4 frames"}
ASSUMPTIONS = ["per-type widths at least the number of neighbours of that type", "integer tensors are int32, as the operators document"]
CUTS = [(2.5, 1.0), (3.25, 0.0), (2.0, 1.875)]
POS = np.array([[0.5, 0.25, -0.75], [-1.25, 0.5, 1.0], [0, 0, -1.0], [2.0, -1.5, 0], [3.0, 0.5, 0.5], [1.5, 1.25, -1.0], [0.25, -2.0, 1.125]])
# frames of two centres, two types; (type, position) per neighbour
FR = [
    ([(0, 0), (1, 1)], [(1, 5)]),
    ([(1, 2), (0, 3), (1, 4)], []),
    ([], [(0, 6), (0, 0), (1, 1)]),
    ([(0, 5)], [(0, 1)]),
    ([(1, 6), (1, 0), (0, 1)], [(0, 2), (1, 5), (0, 4)]),
]
WS = [[3, 4], [4, 3], [5, 2]]                              # widths per type, the same total
NT, INUM, TOT = 2, 2, 7


def row(x, RC, RS):
    r = float(np.linalg.norm(x))
    if r < RS:
        s, q = 1.0, 0.0
    elif r >= RC:
        s, q = 0.0, 0.0
    else:
        u = (r - RS) / (RC - RS)
        s = u ** 3 * (-6 * u * u + 15 * u - 10) + 1
        q = (-30 * u ** 4 + 60 * u ** 3 - 30 * u * u) / (RC - RS)
    v = np.concatenate([[s / r], s * x / r ** 2])
    d = np.zeros((4, 3))
    d[0] = (q / r - s / r ** 2) * x / r
    d[1:] = np.eye(3) * s / r ** 2 + np.outer(x, x) * (q / r ** 3 - 2 * s / r ** 4)
    return v, d


def oracle(k, W, cut):
    """values, d/dR_ij, relative positions, index of the neighbour within its row, all in slot order"""
    v, d, x, j = np.zeros((INUM, TOT, 4)), np.zeros((INUM, TOT, 4, 3)), np.zeros((INUM, TOT, 3)), -np.ones((INUM, TOT), int)
    for i, r in enumerate(FR[k]):
        n = [0] * NT
        for jj, (t, p) in enumerate(r):
            s = sum(W[:t]) + n[t]
            n[t] += 1
            v[i, s], d[i, s] = row(POS[p], *cut)
            x[i, s] = POS[p]
            j[i, s] = jj
    return v, d, x, j


def env_frame(k):
    types = np.array([0, 1, 1, 0, 1, 0], np.int32)        # atoms of the frame; several per type
    pick = {0: [0, 3, 5], 1: [1, 2, 4]}
    nn = np.array([len(r) for r in FR[k]], np.int32)
    fn = -np.ones((INUM, TOT), np.int32)
    rc = np.zeros((INUM, TOT, 3))
    for i, r in enumerate(FR[k]):
        for j, (t, p) in enumerate(r):
            fn[i, j] = pick[t][(i + j + k) % 3]
            rc[i, j] = POS[p]
    return np.arange(INUM, dtype=np.int32), nn, fn, rc, types


NAT = 2 + 8


def s4_frame(k):
    off = 2 * (k % 2)                                      # home atoms at 0,1 or 2,3 of the frame
    il = np.array([off, off + 1], np.int32)
    x = np.zeros((NAT, 3)); ty = np.zeros(NAT, np.int32)
    x[off + 1] = [0.5, -0.25, 0.125]
    free = [a for a in range(NAT) if a not in (off, off + 1)]
    if k % 3 == 0:
        free = free[::-1]
    nn = np.array([len(r) for r in FR[k]], np.int32)
    fn = -np.ones((INUM, TOT), np.int32)
    for i, r in enumerate(FR[k]):
        for j, (t, p) in enumerate(r):
            a = free.pop(0)
            fn[i, j] = a; ty[a] = t; x[a] = x[il[i]] + POS[p]
    return il, nn, fn, x, ty


def layout(t, how):
    """the same values in another memory layout"""
    import torch
    if how == "plain":
        return t.contiguous()
    if how == "batch last":
        return t.permute(*range(1, t.dim()), 0).contiguous().permute(t.dim() - 1, *range(t.dim() - 1))
    if how == "reversed axes":
        p = list(range(t.dim()))[::-1]
        return t.permute(*p).contiguous().permute(*p)
    if how == "strided":
        b = torch.full([2 * s for s in t.shape], 77, dtype=t.dtype)
        sl = tuple(slice(0, None, 2) for _ in t.shape)
        b[sl] = t
        return b[sl]
    if how == "window":
        b = torch.full([s + 2 for s in t.shape], 77, dtype=t.dtype)
        sl = tuple(slice(1, 1 + s) for s in t.shape)
        b[sl] = t
        return b[sl]
    if how == "expanded":                                   # every frame is the same memory; only for equal frames
        return t[:1].expand(*t.shape)


HOW = ["plain", "batch last", "reversed axes", "strided", "window"]


def batch(c, run):
    import torch
    ks, dt, how = c["ks"], c["dtype"], c["how"]
    T = dict(float32=torch.float32, float64=torch.float64)[dt]
    tol = 2e-4 if dt == "float32" else 1e-11
    B = len(ks)
    dtol = tol * (20 if c["cut"] == 2 else 1)                # the narrow switching region has a steep derivative
    RC, RS = CUTS[c["cut"]]
    ws = [WS[i] for i in c["ws"]]
    want = [oracle(k, w, (RC, RS)) for k, w in zip(ks, ws)]
    def stack(fs, i):
        t = torch.from_numpy(np.stack([f[i] for f in fs]))
        return layout(t.to(T) if t.dtype.is_floating_point else t, how)
    def cmp(nm, got, exp, pad, t):
        run.expect(tuple(got.shape) == exp.shape and (got.dtype == T), "%s: shape %s %s, expected %s" % (nm, tuple(got.shape), got.dtype, exp.shape))
        g = got.detach().double().numpy()
        bad = ~(np.abs(g - exp) <= t * (1 + np.abs(exp))) | (pad & (g != 0))
        if bad.any():
            b = np.argwhere(bad)[0].tolist()
            run.expect(False, "%s of frames %s (%s, %s) at %s" % (nm, ks, dt, how, b), got=float(g[tuple(b)]), want=float(exp[tuple(b)]))
    V, D, X, J = (np.stack([w[i] for w in want]) for i in range(4))
    P = (J < 0)
    V1, D1 = V, D
    # EnvMatrixOp
    fs = [env_frame(k) for k in ks]
    a = [stack(fs, i) for i in range(5)]
    um = layout(torch.tensor(ws, dtype=torch.int32), how)
    if c.get("grad"):
        a[3].requires_grad_(True)
    keep = [t.detach().clone() for t in a]
    r = torch.ops.deepmd.EnvMatrixOp(a[0], a[1], a[2], a[3], a[4], um, RC, RS)
    run.step()
    run.expect(len(r) == 2, "number of results of EnvMatrixOp")
    def env():
        cmp("environment matrix", r[0], V, P[..., None] & np.ones_like(V, bool), tol)
        cmp("derivative of the environment matrix", r[1], D, P[..., None, None] & np.ones_like(D, bool), 4 * dtol)
    env()
    run.expect(all(torch.equal(x, y) for x, y in zip(a, keep)), "EnvMatrixOp changed its inputs")
    # Se4pwOp
    fs = [s4_frame(k) for k in ks]
    a = [stack(fs, i) for i in range(5)]
    w = layout(torch.tensor([ws[0]], dtype=torch.int32), how)[0]
    V, D, X, J = (np.stack([oracle(k, ws[0], (RC, RS))[i] for k in ks]) for i in range(4))
    P1, P = P, (J < 0)
    keep = [t.clone() for t in a]
    s = torch.ops.mcverif.se4pw(B, INUM, a[0], a[1], a[2], a[3], a[4], NT, w, RC, RS)
    pr = torch.ops.mcverif.prim(B, INUM, a[0], a[1], a[2], a[4], NT, w)
    run.step(2)
    cmp("se4pw matrix", s[0], V, P[..., None] & np.ones_like(V, bool), tol)
    cmp("se4pw derivative", s[1], -D, P[..., None, None] & np.ones_like(D, bool), 4 * dtol)
    cmp("se4pw relative positions", s[2], X, P[..., None] & np.ones_like(X, bool), tol)
    exp = -np.ones(J.shape, int)
    for b in range(B):
        for i in range(INUM):
            for q in range(TOT):
                if J[b, i, q] >= 0:
                    exp[b, i, q] = fs[b][2][i, J[b, i, q]] % INUM
    run.expect(tuple(pr.shape) == exp.shape and pr.tolist() == exp.tolist(), "se4pw neighbour indices of frames %s (%s)" % (ks, how), got=pr.tolist(), want=exp.tolist())
    run.expect(all(torch.equal(x, y) for x, y in zip(a, keep)), "Se4pwOp changed its inputs")
    V, D, P = V1, D1, P1
    env()                                                   # the first result is still what it was
    run.state((tuple(ks), dt, how, c["cut"], tuple(c["ws"]))); run.validated()


def explore(ctx):
    if ctx.only is None or isinstance(ctx.only, str):
        ctx.run_cxx(ctx.compile("c24", [os.path.join(VERIF, "cxx", "c24.cpp")]))
        if ctx.only is not None:
            return
    import torch
    torch.set_num_threads(1)
    d = os.path.join(REPO, "source", "descriptor", "deepmd")
    so = tcomp.build(ctx, "ops", sorted(glob.glob(d + "/src/*.cc")) + [d + "/bind/envMatrixOp_bind.cc", os.path.join(VERIF, "cxx", "se4pw_bind.cc")])
    if not so:
        return
    torch.ops.load_library(so)
    cases = []
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for ks in itertools.product(range(len(FR)), repeat=n):
            for dt in ("float64", "float32"):
                for how in HOW + (["expanded"] if n > 1 and len(set(ks)) == 1 else []):
                    cases.append(dict(ks=list(ks), dtype=dt, how=how, cut=0, ws=[0] * n))
                if n < 3:
                    cases.append(dict(ks=list(ks), dtype=dt, how="plain", grad=True, cut=0, ws=[0] * n))
                if n < 3:
                    for cut in range(len(CUTS)):
                        for ws in itertools.product(range(len(WS)), repeat=n):
                            for how in HOW if ctx.thorough else HOW[:1] + HOW[3:4]:
                                cases.append(dict(ks=list(ks), dtype=dt, how=how, cut=cut, ws=list(ws)))
    for n in (8, 17, 65):                                    # large batches
        for dt in ("float64", "float32"):
            for how in HOW:
                cases.append(dict(ks=[(3 * i + i // 5) % len(FR) for i in range(n)], dtype=dt, how=how, cut=n % 3, ws=[(i * i) % len(WS) for i in range(n)]))
    ctx.run_cases(cases, batch)
