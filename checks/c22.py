import ctypes, importlib.util, itertools, os, shutil, subprocess, sys
import numpy as np
from mc.core import REPO
from .pyc import LAT, Z, images
from .c09 import LARGE, LATL
PROPERTY = "C22"
TECHNIQUE = "exhaustive enumeration of crystals x cutoffs x periodicity x flags x array layouts, and of all call sequences, on the real extension module built with SWIG from the working tree and run under AddressSanitizer, against brute force"
RULE = "every combination of the stated alphabet through find_info4mlff(); all call histories with earlier results kept alive and compared after each later call; memory growth over repeated calls"
BOUNDS = {"quick": "8 lattices x 5 motifs (and 2 cells of 30 atoms) x 4 cutoffs x 8 periodicity patterns x sort x fractional/Cartesian x padding {0,1,5} and two widths that are too small; a dense cell (298 neighbours), a chain of 700 atoms, heavy elements, widths up to 2000; 6 array layouts; all call sequences of length 3 over 4 calls", "thorough": "8 cutoffs, call sequences of length 5"}
ASSUMPTIONS = ["fractional coordinates in [0,1)", "no neighbour within 2e-3 of the cutoff"]
MOT = {
    "1": ([6], [[0.25, 0.5, 0.125]]),
    "2": ([14, 8], [[0.125, 0.25, 0.0625], [0.5625, 0.75, 0.625]]),
    "3": ([42, 16, 16], [[0.3125, 0.0625, 0.5], [0.6875, 0.375, 0.71875], [0.1875, 0.8125, 0.28125]]),
    "3b": ([8, 1, 1], [[0, 0, 0], [0.90625, 0.03125, 0.96875], [0.25, 0.21875, 0.0]]),
    "4": ([29, 8, 29, 8], [[0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]]),
}
NB = None
CACHE = {}


def build(tmp):
    """the extension exactly as the repository's own setup script builds it, from the working tree"""
    src = os.path.join(tmp, "source")
    for d in ("nblist", "core"):
        shutil.copytree(os.path.join(REPO, "source", d), os.path.join(src, d), ignore=shutil.ignore_patterns("gen", "build", "*.so", "tests"))
    bind = os.path.join(src, "nblist", "bind")
    gen = os.path.join(bind, "gen")
    os.makedirs(gen)
    fl = "-w -O1 -g1 -fsanitize=address -fno-omit-frame-pointer"
    env = dict(os.environ, CFLAGS=fl, CXXFLAGS=fl, LDFLAGS="-fsanitize=address", CC="gcc", CXX="g++")
    env.pop("LD_PRELOAD", None)
    p = subprocess.run([sys.executable, "setup.py", "build_ext", "--force", "--build-lib=" + gen], cwd=bind, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("the extension does not build: " + p.stdout[-3000:])
    return gen


def brute(lat, fr, rc, pbc):
    n = len(fr)
    out = [[] for _ in range(n)]
    key = (lat.tobytes(), fr.tobytes())
    if key not in CACHE:
        CACHE[key] = images(lat, fr, 7.0)
    for i, j, s, v, d in CACHE[key]:
        if d < rc and all(pbc[k] or s[k] == 0 for k in range(3)):
            out[i].append((j, v, d))
    return out


def compare(run, res, zs, want, umax, sort, what):
    n = len(zs)
    run.expect(isinstance(res, (tuple, list)) and len(res) == 7, what + ": number of results")
    inum, il, nn, fn, rc, ty, ng = res
    run.expect(inum == n and ng == 0, what + ": inum %s nghost %s" % (inum, ng))
    for a, sh, kind, nm in ((il, (n,), "i", "ilist"), (nn, (n,), "i", "numneigh"), (fn, (n, umax), "i", "firstneigh"), (rc, (n, umax, 3), "f", "relative_coords"), (ty, (n,), "i", "types")):
        run.expect(isinstance(a, np.ndarray) and a.shape == sh and a.dtype.kind == kind, what + ": shape or type of " + nm, got=[list(np.shape(a)), str(getattr(a, "dtype", None))], want=list(sh))
    run.expect(il.tolist() == list(range(n)), what + ": ilist", got=il.tolist())
    run.expect(ty.tolist() == list(zs), what + ": types", got=ty.tolist(), want=list(zs))
    run.expect(nn.tolist() == [len(w) for w in want], what + ": neighbour counts", got=nn.tolist(), want=[len(w) for w in want])
    for i in range(n):
        k = len(want[i])
        run.expect((fn[i, k:] == -1).all() and (rc[i, k:] == 0).all(), what + ": padding of row %d" % i)
        if not k:
            continue
        wj = np.array([w[0] for w in want[i]])
        wv = np.array([w[1] for w in want[i]])
        dm = np.abs(rc[i, :k, None, :] - wv[None]).max(axis=2) + 1e3 * (fn[i, :k, None] != wj[None])
        near = dm < 1e-8
        run.expect((near.sum(axis=0) == 1).all() and (near.sum(axis=1) == 1).all(), what + ": neighbours of atom %d" % i,
                   got=[fn[i, :k].tolist(), rc[i, :k].tolist()], want=[wj.tolist(), wv.tolist()])
        if sort:
            d = np.linalg.norm(rc[i, :k], axis=1)
            run.expect((np.diff(d) > -1e-9).all(), what + ": row %d is not in increasing distance" % i, got=d.tolist())


def args_of(lat, zs, fr, cart):
    x = fr @ lat if cart else fr
    return np.ascontiguousarray(lat, np.float64), np.array(zs, np.int32), np.ascontiguousarray(x, np.float64)


def setting(c):
    lat = np.array(LAT[c["lat"]] if c["lat"] in LAT else LATL[c["lat"]], float)
    zs, fr = MOT[c["mot"]] if c["mot"] in MOT else ([Z[x] for x in LARGE[c["mot"]][0]], np.floor(np.array(LARGE[c["mot"]][1]) * 1024) / 1024)     # exact in single precision too
    return lat, list(zs), np.array(fr, float)


def grid(c, run):
    lat, zs, fr = setting(c)
    for p in range(8):
        pbc = [bool(p & 1), bool(p & 2), bool(p & 4)]
        want = brute(lat, fr, c["rc"], pbc)
        mx = max(len(w) for w in want)
        for sort, cart, ex in itertools.product((False, True), (False, True), (0, 1, 5)):
            um = mx + ex
            if not um:
                continue
            a = args_of(lat, zs, fr, cart)
            keep = [x.copy() for x in a]
            what = "%s/%s rcut=%.4f pbc=%s sort=%d cart=%d umax=%d" % (c["lat"], c["mot"], c["rc"], pbc, sort, cart, um)
            res = NB.find_info4mlff(a[0], a[1], a[2], c["rc"], pbc, um, sort, cart)
            run.step()
            compare(run, res, zs, want, um, sort, what)
            run.expect(all(np.array_equal(x, y) for x, y in zip(a, keep)) and pbc == [bool(p & 1), bool(p & 2), bool(p & 4)], what + ": the inputs were modified")
            run.state((c["lat"], c["mot"], c["rc"], p, sort, cart, ex)); run.validated()
        for um in ([mx - 1] if mx > 1 else []) + ([1] if mx > 2 else []):
            # too narrow a table: an exception, no truncated result and no write past the table
            try:
                NB.find_info4mlff(*args_of(lat, zs, fr, False), c["rc"], pbc, um, True, False)
            except Exception:
                pass
            else:
                run.expect(False, "%s/%s rcut=%.4f pbc=%s: a table of width %d was accepted for %d neighbours" % (c["lat"], c["mot"], c["rc"], pbc, um, mx))
            run.step(); run.validated()


def layouts(c, run):
    lat, zs, fr = setting(c)
    want = brute(lat, fr, c["rc"], [True] * 3)
    um = max(len(w) for w in want) + 2
    L, A, X = args_of(lat, zs, fr, False)
    Lt = np.ascontiguousarray(L.T).T                     # Fortran order
    big = np.full((6, 6), 9.5); big[::2, ::2] = L
    xb = np.full((len(zs), 5), 7.5); xb[:, 1:4] = X
    zb = np.full(2 * len(zs), 99, np.int32); zb[::2] = A
    var = {"plain": (L, A, X), "fortran": (Lt, A, np.asfortranarray(X)), "sliced": (big[::2, ::2], zb[::2], xb[:, 1:4]),
           "int64": (L, A.astype(np.int64), X), "float32": (L, A, X.astype(np.float32)), "reversed": (L[::-1][::-1], A[::-1].copy()[::-1], X)}
    for nm, a in var.items():
        for rc in ([c["rc"]] + ([int(c["rc"])] if float(c["rc"]).is_integer() else [])):
            res = NB.find_info4mlff(a[0], a[1], a[2], rc, [True, True, True], um, True, False)
            compare(run, res, zs, want, um, True, "%s/%s array layout %s" % (c["lat"], c["mot"], nm))
            run.step(); run.state((c["lat"], c["mot"], nm)); run.validated()
    # every way of writing the scalar arguments
    for p in range(8):
        bits = [p & 1, p >> 1 & 1, p >> 2 & 1]
        want = brute(lat, fr, c["rc"], bits)
        um = max(1, max(len(w) for w in want))
        for nm, b in (("bool", bool), ("int", int), ("numpy bool", np.bool_), ("numpy int", np.int64), ("float", float), ("None/object", lambda v: "yes" if v else None)):
            for srt, cart in itertools.product((0, 1), (0, 1)):
                rcs = {"bool": float, "int": float, "numpy bool": np.float64, "numpy int": np.float64}.get(nm, float)(c["rc"])
                u = np.int64(um) if nm.startswith("numpy") else um
                a = args_of(lat, zs, fr, bool(cart))
                res = NB.find_info4mlff(a[0], a[1], a[2], rcs, [b(x) for x in bits], u, b(srt), b(cart))
                compare(run, res, zs, want, um, srt, "%s/%s flags written as %s: pbc=%s sort=%d cart=%d" % (c["lat"], c["mot"], nm, bits, srt, cart))
                run.step(); run.state((c["lat"], c["mot"], nm, p, srt, cart)); run.validated()


def scale(c, run):
    """hundreds of atoms, hundreds of neighbours, heavy elements, wide tables"""
    if c["what"] == "dense":
        lat, zs, fr, rc = np.array([[1.25, 0.1, 0], [0.1, 1.375, 0.05], [0, -0.1, 1.4375]]), [3], np.array([[0.25, 0.5, 0.125]]), 5.63
    elif c["what"] == "heavy":
        lat, zs, fr, rc = np.array(LAT["tri"], float), [118, 92, 84], np.array(MOT["3"][1], float), 4.17
    else:
        n = 700
        lat, rc = np.diag([2.0 * n, 9.0, 9.0]), 2.9
        zs = [3 if (i * i) % 3 else 14 for i in range(n)]
        fr = np.array([[(i + 0.01 * ((7 * i) % 5)) / n, 0.3, 0.4 + 0.002 * (i % 3)] for i in range(n)])
    if c["what"] == "chain":
        x = fr @ lat
        want = []
        for i in range(len(zs)):
            w = [(j, x[j] + np.array([s * lat[0, 0], 0, 0]) - x[i]) for j, s in (((i - 1) % n, -1 if i == 0 else 0), ((i + 1) % n, 1 if i == n - 1 else 0))]
            want.append([(j, v, np.linalg.norm(v)) for j, v in w])
    else:
        want = brute(lat, fr, rc, [True] * 3)
    mx = max(len(w) for w in want)
    for um, sort, cart in itertools.product((mx, mx + 1, mx + 300, 2000), (False, True), (False, True)):
        res = NB.find_info4mlff(*args_of(lat, zs, fr, cart), rc, [True] * 3, um, sort, cart)
        run.step(); run.state(("scale", c["what"], um, sort, cart))
        compare(run, res, zs, want, um, sort, "%s, %d atoms, up to %d neighbours, width %d" % (c["what"], len(zs), mx, um))
        run.validated()


CALLS = [("cubic", "2", 4.3, [True] * 3, True, False), ("tri", "3", 3.9, [True, False, True], False, True), ("shear", "1", 5.1, [True] * 3, True, False), ("hex", "4", 3.4, [False] * 3, False, False)]


def seqs(c, run):
    """earlier results stay what they were while later calls are made and other results are dropped"""
    kept = []
    for k, (ci, drop) in enumerate(c["seq"]):
        lt, mo, rc, pbc, sort, cart = CALLS[ci]
        lat, zs, fr = setting(dict(lat=lt, mot=mo))
        want = brute(lat, fr, rc, pbc)
        um = max(1, max(len(w) for w in want)) + k
        a = args_of(lat, zs, fr, cart)
        res = NB.find_info4mlff(a[0], a[1], a[2], rc, list(pbc), um, sort, cart)
        a[0].fill(3.3); a[2].fill(0.1); a[1].fill(5)          # the results must not refer to the inputs
        run.step()
        if drop and kept:
            kept.pop(0)
        kept.append((res, zs, want, um, sort))
        for x in kept:
            compare(run, x[0], x[1], x[2], x[3], x[4], "call sequence %s" % (c["seq"],))
        if k == 1:
            kept[-1][0][3][:] = kept[-1][0][3]                # results are writable
    run.state(("seq", tuple(c["seq"]))); run.validated()


def leaks(c, run):
    """repeated calls hold on to nothing: neither to the inputs nor to memory of their own"""
    lat, zs, fr = setting(dict(lat="tri", mot=c["mot"]))
    f = ctypes.CDLL(None)
    try:
        f.__sanitizer_get_current_allocated_bytes.restype = ctypes.c_size_t
        size = f.__sanitizer_get_current_allocated_bytes
    except AttributeError:
        size = None
    base = args_of(lat, zs, fr, False)
    var = {"plain": lambda: [x.copy() for x in base],
           "convert": lambda: [base[0].astype(np.float32), base[1].astype(np.int64), np.asfortranarray(base[2])],
           "narrow": lambda: [x.copy() for x in base]}[c["var"]]
    um = 1 if c["var"] == "narrow" else c["um"]
    pbc = [True, True, True]
    a = var()
    opts = [3.9, pbc, um + 100000 - 100000, c["sort"], False]
    objs = a + [pbc]
    def call():
        try:
            NB.find_info4mlff(*a, *opts)
        except ValueError:
            assert c["var"] == "narrow"
    rc0 = [sys.getrefcount(o) for o in objs]
    for _ in range(5):
        call()
    rc1 = [sys.getrefcount(o) for o in objs]
    run.expect(rc0 == rc1, "%s: the call keeps references to its inputs" % c, got=rc1, want=rc0)
    if size:
        g = []
        for _ in range(3):
            b = size()
            for _ in range(100):
                call()
            g.append(size() - b)
        # one leaked block of even one int per call is 100 blocks of >= 4 bytes in every round
        run.expect(min(g) < 400, "%s: memory grows by %d bytes per call" % (c, min(g) // 100), got=g)
    run.step(305); run.state(("leak", repr(sorted(c.items())))); run.validated()


def dispatch(c, run):
    dict(grid=grid, scale=scale, layouts=layouts, seqs=seqs, leaks=leaks)[c["kind"]](c, run)


def cuts(lat, fr, want, rmax):
    ds = sorted(x[4] for x in images(lat, fr, rmax))
    c = [0.75 * ds[0]] + [0.5 * (a + b) for a, b in zip(ds, ds[1:]) if b - a > 4e-3]
    return c if len(c) <= want else [c[int(i * (len(c) - 1) / (want - 1) + 0.5)] for i in range(want)]


def explore(ctx):
    global NB
    if not os.environ.get("MC_C22"):
        # restart this interpreter with the sanitizer runtime in place before anything else is loaded
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        lib2 = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env = dict(os.environ, MC_C22="1", LD_PRELOAD=os.path.realpath(lib) + ":" + os.path.realpath(lib2), ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_container_overflow=0", PYTHONMALLOC="malloc")
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    try:
        gen = build(ctx.tmp)
    except RuntimeError as e:
        ctx.add_violation(str(e)[:300], kind="build", detail=str(e))
        return
    sys.path.insert(0, gen)
    import nblist
    assert os.path.realpath(nblist.__file__).startswith(os.path.realpath(gen))
    NB = nblist
    cases = []
    for l in LAT:
        for m in MOT:
            lat, zs, fr = setting(dict(lat=l, mot=m))
            for rc in cuts(lat, fr, 8 if ctx.thorough else 4, 6.5 if ctx.thorough else 5.6):
                cases.append(dict(kind="grid", lat=l, mot=m, rc=rc))
            cases.append(dict(kind="layouts", lat=l, mot=m, rc=cuts(lat, fr, 5, 5.6)[-1]))
    for l in ("wide", "long"):
        lat, zs, fr = setting(dict(lat=l, mot="big"))
        for rc in cuts(lat, fr, 3, 5.0):
            cases.append(dict(kind="grid", lat=l, mot="big", rc=rc))
        cases.append(dict(kind="layouts", lat=l, mot="big", rc=cuts(lat, fr, 2, 4.4)[-1]))
    cases = [dict(kind="scale", what=w) for w in ("dense", "chain", "heavy")] + cases
    acts = [(i, d) for i in range(len(CALLS)) for d in (0, 1)]
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        cases += [dict(kind="seqs", seq=s) for s in itertools.product(acts, repeat=n)]
    if ctx.thorough:
        cases += [dict(kind="seqs", seq=tuple((i, 0) for i in s)) for s in itertools.product(range(4), repeat=5)]
    cases += [dict(kind="leaks", um=u, sort=s, mot=m, var=v) for u in (100, 1000) for s in (False, True) for m in ("1", "3") for v in ("plain", "convert", "narrow")]
    ctx.run_cases(cases, dispatch)
