import itertools, os, warnings
import numpy as np
from .pyc import LAT, Scratch, dstruct
PROPERTY = "C13"
TECHNIQUE = "exhaustive enumeration of k-point files (all label placements), crystal systems, dimensions, densities and meshes over the real samplers and readers, against reference geometry"
RULE = "k-point files: every placement of labels on 1..6 points x lattice x path shape; k-paths: every crystal of the list x dimension x density, every segment checked; meshes: every mesh x shift, orbits computed by brute-force point groups"
BOUNDS = {"quick": "1..6 points, all 2^n label placements, 8 lattices; 9..400 points with 7 placements; 14 standard crystals x 2 dimensions x 4 densities; meshes 1..4^3 x 8 shifts on 5 crystals; k-meshes 13 cells x 12 densities",
          "thorough": "1..8 points; 9 densities; meshes 1..6"}
BOHR = 0.529177249
PATHS = {
    "zig": [[0, 0, 0], [.5, 0, 0], [.5, .5, 0], [0.25, .5, .5], [0, 0, .5], [-.125, .25, .375], [.75, .1, .2], [0, .5, 0]],
    "line": [[0, 0, 0.1 * k] for k in range(8)],
    "rep": [[0, 0, 0], [0, 0, 0], [.3333333333, .3333333333, 0], [.3333333333, .3333333333, 0], [.5, 0, 0], [0, 0, 0], [.5, .5, .5], [.25, 0, 0]],
}
NAMES = {"zig": ["G", "M", "K", "A1", "H_2", "X", "G", "R|S"], "line": ["G", "Z", "Z", "G", "G", "Z", "Z", "Z"], "rep": ["G", "G", "K", "K", "M", "G", "R", "X"]}
NEEDLE = {  # several atoms filling (or not) a long cell: name -> (lattice, fractional positions, directions with more than 10 A of vacuum)
    "long": ([[3.0, 0, 0], [0, 4.0, 0], [0, 0, 24.0]], [[.1, .2, .05], [.2, .3, .4], [.5, .5, .95]], ()),
    "longx": ([[31.0, 0, 0], [0, 2.5, 0], [0, 0, 3.3]], [[.02, .2, .05], [.5, .3, .4], [.98, .5, .95]], ()),
    "slab2": ([[3.0, 0, 0], [0, 4.0, 0], [0, 0, 24.0]], [[.1, .2, .4], [.2, .3, .45], [.5, .5, .6]], (2,)),
    "wire": ([[20.0, 0, 0], [0, 21.0, 0], [0, 0, 2.4]], [[.1, .2, .4], [.2, .3, .45]], (0, 1)),
    "long2": ([[2.2, 0, 0], [0, 28.0, 0], [0, 0, 26.0]], [[.1, .02, .97], [.2, .97, .03], [.1, .5, .5]], ()),
}


def atom_config(lat, pos=((.1, .2, .3),)):
    L = ["  %d atoms" % len(pos), "Lattice vector (Angstrom)"]
    L += ["   " + "   ".join("%.12f" % v for v in r) for r in lat]
    return "\n".join(L + ["Position (normalized), move_x, move_y, move_z"] + [" 14  %.9f  %.9f  %.9f  1 1 1" % tuple(x) for x in pos]) + "\n"


def inkpt(c, run):
    from matersdk.io.pwmat.input.inkpt import Inkpt
    n = c["n"]
    lat = np.array(LAT[c["lat"]], float)
    B = 2 * np.pi * np.linalg.inv(lat).T
    fr = np.array([np.array(PATHS[c["path"]][k % 8]) + 0.015625 * (k // 8) for k in range(n)], float)
    w = [round(0.1 * (k + 1), 3) for k in range(n)]
    masks = c.get("masks") or range(2 ** n)
    names = (NAMES[c["path"]] * 50)[:n]
    with Scratch() as d:
        ac, kp = os.path.join(d, "atom.config"), os.path.join(d, "IN.KPT")
        open(ac, "w").write(atom_config(lat))
        for mask in masks:
            lab = [k for k in range(n) if mask >> k & 1]
            L = ["%12d" % n, "  2 0"]
            for k in range(n):
                L.append("  %.10f  %.10f  %.10f   %.6f" % (*fr[k], w[k]) + ("  " + names[k] if k in lab else ""))
            with open(kp, "w") as f:
                f.write("\n".join(L) + "\n")
            what = "IN.KPT %s/%s labels %s of %d points" % (c["lat"], c["path"], lab, n)
            run.step(); run.state(what)
            q = Inkpt(kp)
            run.expect(q.iflag == 2 and q.a0 == 0 and q.get_num_kpts() == n, what + ": header")
            run.close(q.get_kpt_coords_frac(), fr, 1e-9, what + ": fractional coordinates")
            run.close(q.get_kpt_weights(), w, 1e-9, what + ": weights")
            h = q.get_hsp()
            run.expect(list(h["hsp"]) == [names[k] for k in lab], what + ": labels", got=h["hsp"])
            run.close(np.array(h["coords_frac"]).reshape(-1, 3), fr[lab].reshape(-1, 3), 1e-9, what + ": labelled coordinates")
            cart = fr @ B
            run.close(q.get_kpt_coords_A(ac), cart, 1e-7, what + ": Cartesian coordinates")
            run.close(q.get_kpt_coords_Bohr(ac), cart * BOHR, 1e-7, what + ": Cartesian coordinates in Bohr")
            dist = [0.0]
            for k in range(1, n):
                jump = k in lab and k - 1 in lab
                dist.append(dist[-1] + (0.0 if jump else float(np.linalg.norm(cart[k] - cart[k - 1]))))
            run.close(q.get_distance_from_gamma_A(ac), dist, 1e-7, what + ": distances along the path")
            run.close(q.get_distance_from_gamma_bohr(ac), np.array(dist) * BOHR, 1e-7, what + ": distances along the path in Bohr")
            run.validated()


A, Cc = 4.0, 6.3
CRYST = {  # conventional cells and bases, turned into standard primitive cells below
    "sc": ([[A, 0, 0], [0, A, 0], [0, 0, A]], ["Po"], [[0, 0, 0]]),
    "cscl": ([[A, 0, 0], [0, A, 0], [0, 0, A]], ["Cs", "Cl"], [[0, 0, 0], [.5, .5, .5]]),
    "bcc": ([[A, 0, 0], [0, A, 0], [0, 0, A]], ["Fe", "Fe"], [[0, 0, 0], [.5, .5, .5]]),
    "fcc": ([[A, 0, 0], [0, A, 0], [0, 0, A]], ["Cu"] * 4, [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
    "tet": ([[A, 0, 0], [0, A, 0], [0, 0, Cc]], ["Ti"], [[0, 0, 0]]),
    "bct1": ([[A, 0, 0], [0, A, 0], [0, 0, 3.1]], ["In", "In"], [[0, 0, 0], [.5, .5, .5]]),
    "bct2": ([[A, 0, 0], [0, A, 0], [0, 0, Cc]], ["In", "In"], [[0, 0, 0], [.5, .5, .5]]),
    "orc": ([[3.1, 0, 0], [0, 4.2, 0], [0, 0, 5.3]], ["Ga"], [[0, 0, 0]]),
    "orcc": ([[3.1, 0, 0], [0, 4.2, 0], [0, 0, 5.3]], ["Ga", "Ga"], [[0, 0, 0], [.5, .5, 0]]),
    "orci": ([[3.1, 0, 0], [0, 4.2, 0], [0, 0, 5.3]], ["Ga", "Ga"], [[0, 0, 0], [.5, .5, .5]]),
    "hex": ([[3.19, 0, 0], [-1.595, 2.762621, 0], [0, 0, Cc]], ["Mo", "S", "S"], [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .12], [2 / 3, 1 / 3, .38]]),
    "slab": ([[3.19, 0, 0], [-1.595, 2.762621, 0], [0, 0, 19.0]], ["Mo", "S", "S"], [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .17], [2 / 3, 1 / 3, .33]]),
    "mcl": ([[3.1, 0, 0], [0, 4.2, 0], [0, -1.3, 5.1]], ["Se"], [[0, 0, 0]]),
    "tri": ([[4.1, 0, 0], [0.7, 3.8, 0], [0.5, 0.9, 4.6]], ["Si", "C"], [[0, 0, 0], [.31, .22, .47]]),
}


def standard(name):
    from pymatgen.core import Structure
    from pymatgen.symmetry.analyzer import SpacegroupAnalyzer
    lat, sp, fr = CRYST[name]
    p = SpacegroupAnalyzer(Structure(lat, sp, fr), symprec=0.1).get_primitive_standard_structure(international_monoclinic=False)
    return np.array(p.lattice.matrix), [str(x) for x in p.species], np.array(p.frac_coords)


def kpath(c, run):
    from pymatgen.symmetry.kpath import KPathSetyawanCurtarolo
    from matersdk.calculation.kpath.kpathSampler import KpathSampler
    warnings.filterwarnings("ignore")
    lat, sp, fr = standard(c["cr"])
    s = dstruct(lat, sp, fr)
    ref = KPathSetyawanCurtarolo(dstruct(lat, sp, fr), symprec=0.1, angle_tolerance=5, atol=1e-5).kpath
    g = lambda x: "G" if x == "\\Gamma" else x
    pts = {g(k): np.array(v, float) for k, v in ref["kpoints"].items()}
    paths = [[g(x) for x in p] for p in ref["path"]]
    dim = c["dim"]
    if dim == 2:
        pts = {k: v for k, v in pts.items() if v[2] == 0}
        paths = [q for q in ([x for x in p if x in pts] for p in paths) if len(q) > 1]
    ks = KpathSampler(structure=s, dimension=dim)
    what = "k-path of %s, dimension %d" % (c["cr"], dim)
    run.step(); run.state(what)
    run.expect(set(ks.kpoints) == set(pts), what + ": names of the high-symmetry points", got=sorted(ks.kpoints), want=sorted(pts))
    for k in pts:
        run.close(ks.kpoints[k], pts[k], 1e-9, what + ": coordinates of " + k)
    run.expect([list(p) for p in ks.kpaths] == paths, what + ": paths", got=[list(p) for p in ks.kpaths], want=paths)
    Bc = np.linalg.inv(lat).T
    with Scratch() as d:
        ks.HIGHK_file_path = os.path.join(d, "HIGHK")
        ks.gen_kpt_path = os.path.join(d, "gen.kpt")
        for rep in range(2):
            ks.output_HIGHK_file()
            L = open(ks.HIGHK_file_path).read().splitlines()[1:]
            got = {l.split()[3]: [float(x) for x in l.split()[:3]] for l in L}
            run.expect(len(L) == len(pts) and set(got) == set(pts), what + ": points in the HIGHK file", got=sorted(got))
            for k in pts:
                run.close(got[k], pts[k], 1e-6, what + ": HIGHK coordinates of " + k)
        for dens in c["dens"]:
            for rep in range(2):
                ks.output_gen_kpt(density=dens)
                L = [l.split() for l in open(ks.gen_kpt_path).read().splitlines()[1:] if l.strip()]
                segs = [(p[k], p[k + 1]) for p in paths for k in range(len(p) - 1)]
                run.step(); run.state((what, dens))
                run.expect(len(L) == 3 * len(segs), what + ": number of segments in gen.kpt", got=len(L) / 3, want=len(segs))
                for k, (a, b) in enumerate(segs):
                    num, l1, l2 = L[3 * k:3 * k + 3]
                    run.expect(l1[3] == a and l2[3] == b, what + ": end points of segment %d" % k, got=(l1[3], l2[3]), want=(a, b))
                    run.close([float(x) for x in l1[:3]], pts[a], 1e-6, what + ": start of segment %d" % k)
                    run.close([float(x) for x in l2[:3]], pts[b], 1e-6, what + ": end of segment %d" % k)
                    ln = float(np.linalg.norm((pts[b] - pts[a]) @ Bc)) / dens
                    m = float(num[0])
                    run.expect(m == int(m) and ln - 1e-7 <= m < ln + 1 + 1e-7, what + ": number of points of segment %s-%s at density %g" % (a, b, dens), got=m, want=ln)
                run.validated()
    run.expect(np.allclose(s.lattice.matrix, lat) and np.allclose(s.frac_coords, fr), "the structure was modified")


def point_group(lat, sp, fr):
    """all integer matrices W (|entries| <= 1) that preserve the lattice metric and map the crystal onto itself"""
    M = lat @ lat.T
    out = []
    for e in itertools.product((-1, 0, 1), repeat=9):
        W = np.array(e).reshape(3, 3)
        if abs(round(np.linalg.det(W))) != 1 or not np.allclose(W @ M @ W.T, M, atol=1e-6):
            continue
        x = fr @ W                                       # row vectors: frac' = frac W
        for t in (fr[j] - x[0] for j in range(len(sp)) if sp[j] == sp[0]):
            y = x + t
            ok = True
            for i in range(len(sp)):
                d = fr - y[i]
                d = d - np.round(d)
                hit = [j for j in range(len(sp)) if sp[j] == sp[i] and np.abs(d[j]).max() < 1e-4]
                if not hit:
                    ok = False
                    break
            if ok:
                out.append(W)
                break
    return out


def mesh(c, run):
    from matersdk.calculation.kpoints.kpointsSampler import KPointsSampler
    lat, sp, fr = [np.array(x) if k != 1 else x for k, x in enumerate(CRYST[c["cr"]])]
    lat, fr = np.array(lat, float), np.array(fr, float)
    G = point_group(lat, sp, fr)
    ops = [np.round(np.linalg.inv(W).T).astype(int) for W in G]           # k' (row) = k W^-T
    ops = ops + [-o for o in ops]
    s = dstruct(lat, sp, fr)
    for n in c["meshes"]:
        for sh in itertools.product((0, 1), repeat=3):
            n_, sh_ = np.array(n), np.array(sh)
            grid = {tuple((2 * np.array(i) + sh_) % (2 * n_)) for i in itertools.product(*[range(k) for k in n])}
            lab = {}
            good = True
            for p in grid:
                orb = set()
                for o in ops:
                    q = (np.array(p) / (2 * n_)) @ o * (2 * n_)
                    r = np.round(q).astype(int)
                    if np.abs(q - r).max() > 1e-6 or tuple(r % (2 * n_)) not in grid:
                        good = False
                        break
                    orb.add(tuple(r % (2 * n_)))
                if not good:
                    break
                lab[p] = min(orb), len(orb)
            if not good:            # the mesh does not have the symmetry of the crystal: nothing is stated
                continue
            what = "mesh %s shift %s of %s" % (n, sh, c["cr"])
            run.step(); run.state(what)
            k = KPointsSampler(structure=s, kmesh=np.array(n), is_shift=np.array(sh))
            got = k.get_kpoints()
            norb = len({v[0] for v in lab.values()})
            run.expect(len(got) == norb and k.get_num_kpoints() == norb, what + ": number of irreducible points", got=len(got), want=norb)
            seen = set()
            for kp, w in got:
                q = np.asarray(kp) * 2 * n_
                r = np.round(q).astype(int)
                key = tuple(r % (2 * n_))
                run.expect(np.abs(q - r).max() < 1e-6 and key in lab, what + ": a point is not on the mesh", point=list(map(float, kp)))
                run.expect(lab[key][0] not in seen, what + ": two equivalent points")
                seen.add(lab[key][0])
                run.expect(int(w) == lab[key][1], what + ": weight of a point", got=int(w), want=lab[key][1])
            run.validated()


def kmesh(c, run):
    from matersdk.calculation.kpoints.kmesh import KMesh
    with Scratch() as d:
        p = os.path.join(d, "atom.config")
        lat = np.array(LAT[c["lat"]] if c["lat"] in LAT else NEEDLE[c["lat"]][0], float)
        pos = NEEDLE[c["lat"]][1] if c["lat"] in NEEDLE else [(.1, .2, .3)]
        open(p, "w").write(atom_config(lat, pos))
        bl = np.linalg.norm(np.linalg.inv(lat).T, axis=1)
        abc = np.linalg.norm(lat, axis=1)
        vac = NEEDLE[c["lat"]][2] if c["lat"] in NEEDLE else [k for k in range(3) if abc[k] > 10]
        for dens in c["dens"]:
            x = bl / dens if dens else np.ones(3)
            if np.abs(x - np.floor(x) - 0.5).min() < 1e-6 and dens:
                continue
            run.step(); run.state(("kmesh", c["lat"], dens))
            want = [1 if k in vac or not dens else max(1, int(np.floor(x[k] + 0.5))) for k in range(3)]
            got = KMesh(file_format="pwmat", file_path=p).get_kmesh(dens)
            run.close(got, want, 1e-9, "k-mesh of %s at density %g" % (c["lat"], dens))
            run.validated()


def case(c, run):
    {"inkpt": inkpt, "kpath": kpath, "mesh": mesh, "kmesh": kmesh}[c["kind"]](c, run)


def explore(ctx):
    cases = []
    for cr in CRYST:
        for dim in (2, 3):
            cases.append(dict(kind="kpath", cr=cr, dim=dim, dens=[0.01, 0.037, 0.1, 0.25] + ([0.003, 0.02, 0.06, 0.5, 1.0] if ctx.thorough else [])))
    for n in (9, 10, 11, 40, 100, 130, 400):
        ms = [0, 1, (1 << n) - 1, 1 << n - 1, sum(1 << k for k in range(0, n, 5)), sum(3 << k for k in range(0, n - 1, 7)), sum(1 << k for k in range(n) if k % 20 in (0, 19))]
        for lat in ("tri", "hex"):
            cases.append(dict(kind="inkpt", lat=lat, path="zig", n=n, masks=ms))
            cases.append(dict(kind="inkpt", lat=lat, path="rep", n=n, masks=ms))
    top = 6 if ctx.thorough else 4
    for cr in ("sc", "cscl", "hex", "orc", "tri"):
        ms = [m for m in itertools.product(range(1, top + 1), repeat=3)]
        for i in range(0, len(ms), 16):
            cases.append(dict(kind="mesh", cr=cr, meshes=ms[i:i + 16]))
    for lat in NEEDLE:
        cases.append(dict(kind="kmesh", lat=lat, dens=[0, 0.01, 0.017, 0.02, 0.03, 0.04, 0.05, 0.07, 0.1, 0.15, 0.3, 1.0]))
    for lat in LAT:
        cases.append(dict(kind="kmesh", lat=lat, dens=[0, 0.01, 0.017, 0.02, 0.03, 0.04, 0.05, 0.07, 0.1, 0.15, 0.3, 1.0]))
        for path in PATHS:
            for n in range(1, 9 if ctx.thorough else 7):
                cases.append(dict(kind="inkpt", lat=lat, path=path, n=n))
    ctx.run_cases(cases, case)
