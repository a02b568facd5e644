import itertools, os
import numpy as np
from .pyc import LAT, Scratch, Z, dstruct
from .c09 import ALL as _ALL
ALL = dict(_ALL, coin=(["Li", "Li", "Si"], [[0.1, 0.2, 0.3], [0.1, 0.2, 0.3], [0.6, 0.5, 0.4]]))     # two atoms at one place
PROPERTY = "C16"
TECHNIQUE = "exhaustive exploration of the nondeterminism of the random source (every combination of extreme and middle answers, supplied by a stand-in) for crystals x amplitudes over the real perturbation code, checking the invariants on each outcome"
RULE = "every (crystal, strain amplitude, displacement amplitude, number of copies, answer vector of the random source); a state is one perturbed structure; the strain is recovered from the metric tensor, so the final rotation does not matter"
BOUNDS = {"quick": "9 lattices (one left-handed) x 12 motifs x 3 strains x 3 displacements x 2 copies; uniform answers {0, 1/2, 1-}^6 (all 729 for 2 crystals, 27 for the rest), normal answers {-1,0,1}^3; a source that never repeats, 1..12 copies, up to 48 atoms", "thorough": "all 729 x 27 answers for every crystal"}
LL = dict(LAT, left=[[0, 3.9, 0], [4.2, 0.1, 0], [0.2, 0.3, 5.0]])
ONE = 1.0 - 2.0 ** -53


class Source:
    """stand-in for numpy's random source: answers taken from fixed vectors, every call recorded"""
    def __init__(self, u, g, shift):
        self.u, self.g, self.n, self.calls, self.shift = u, g, 0, {"rand": 0, "randn": 0}, shift

    def _arr(self, vec, shape, name):
        self.calls[name] += 1
        size = int(np.prod(shape)) if shape else 1
        out = np.array([vec[(k + self.shift * (self.calls[name] - 1)) % len(vec)] for k in range(size)], float)
        return out.reshape(shape) if shape else float(out[0])

    def _u(self, low, high, size):
        return low + (high - low) * self._arr(self.u, self._shape(size), "rand")

    def _g(self, loc, scale, size):
        return loc + scale * self._arr(self.g, self._shape(size), "randn")

    @staticmethod
    def _shape(size):
        return () if size is None else (size,) if np.isscalar(size) else tuple(size)

    def __enter__(self):
        new = {"rand": lambda *s: self._u(0.0, 1.0, s), "randn": lambda *s: self._g(0.0, 1.0, s),
               "random": lambda size=None: self._u(0.0, 1.0, size), "random_sample": lambda size=None: self._u(0.0, 1.0, size),
               "uniform": lambda low=0.0, high=1.0, size=None: self._u(low, high, size),
               "normal": lambda loc=0.0, scale=1.0, size=None: self._g(loc, scale, size),
               "standard_normal": lambda size=None: self._g(0.0, 1.0, size)}
        self.old = {k: getattr(np.random, k) for k in new}
        for k in new:
            setattr(np.random, k, new[k])
        return self

    def __exit__(self, *a):
        for k in self.old:
            setattr(np.random, k, self.old[k])


def check(run, what, lat, sp, fr, q, frac, dist, gmax, geq, vecs=None, whole=True):
    run.expect([str(x) for x in q.species] == sp, what + ": species", got=[str(x) for x in q.species])
    L2 = np.asarray(q.lattice.matrix, float)
    inv = np.linalg.inv(lat)
    M = inv @ (L2 @ L2.T) @ inv.T                       # = P P^T, P symmetric and close to one
    w, V = np.linalg.eigh(M)
    run.expect((w > 0).all(), what + ": degenerate cell")
    P = V @ np.diag(np.sqrt(w)) @ V.T
    tol = 1e-8
    run.expect(np.all(np.abs(np.diag(P) - 1) <= frac + tol), what + ": diagonal strain beyond the stated fraction", got=np.diag(P).tolist())
    off = np.abs(P[np.triu_indices(3, 1)])
    run.expect(np.all(off <= 0.5 * frac + tol), what + ": shear strain beyond half the stated fraction", got=off.tolist())
    run.expect(np.sign(np.linalg.det(L2)) == np.sign(np.linalg.det(lat)), what + ": handedness of the cell")
    d = np.asarray(q.frac_coords, float) - fr
    d = d - np.round(d)
    # |displacement| in the deformed cell; rotations do not matter
    mv = np.sqrt(np.maximum(0, np.einsum("ij,jk,ik->i", d, L2 @ L2.T, d)))
    if whole:
        run.expect(np.abs(np.round(np.asarray(q.frac_coords, float) - fr)).max() == 0, what + ": an atom moved by a whole cell")
    run.expect(np.all(mv <= dist * gmax + 1e-7), what + ": an atom moved further than the stated amplitude", got=mv.tolist(), want=dist * gmax)
    if vecs is not None:
        # Cartesian displacement before the final rotation: d (lat P); one of the drawn vectors (the only one if just one can be drawn)
        v = d @ lat @ P
        for k in range(len(sp)):
            run.expect(any(np.abs(v[k] - dist / np.sqrt(3) * w).max() < 1e-7 for w in vecs), what + ": displacement of atom %d is not the amplitude times the drawn vector" % k,
                       got=v[k].tolist(), want=[(dist / np.sqrt(3) * w).tolist() for w in vecs])
    if geq:
        run.close(mv, [dist * gmax] * len(sp), 1e-7, what + ": displacement of the atoms")


def case(c, run):
    from matersdk.adalearn.generator.perturbation import PerturbStructure
    lat = np.array(LL[c["lat"]], float)
    sp, fr = ALL[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    for u, g in c["answers"]:
        for frac, dist in c["amps"]:
            s = dstruct(lat, sp, fr)
            with Source(u, g, c["shift"]) as src:
                out = PerturbStructure(s).perturb(pert_num=c["num"], cell_pert_fraction=frac, atom_pert_distance=dist)
            what = "%s/%s strain %g displacement %g answers %s %s" % (c["lat"], c["mot"], frac, dist, u, g)
            run.step()
            run.expect(len(out) == c["num"], what + ": number of perturbed structures", got=len(out))
            used = src.calls["rand"] == c["num"] and src.calls["randn"] > 0 if c["num"] else False
            for q in out:
                run.state((c["lat"], c["mot"], frac, dist, u, g, c["num"]))
                # normal answers are at most one per component, so no atom may move further than the amplitude
                check(run, what, lat, sp, fr, q, frac, dist, np.linalg.norm(g) / np.sqrt(3) if used else 1e9, used,
                      None if not used else [np.array(g)] if not c["shift"] else [np.roll(g, -k) for k in range(3)])
            run.expect(np.array_equal(np.asarray(s.frac_coords), fr) and np.array_equal(np.asarray(s.lattice.matrix), lat) and [str(x) for x in s.species] == sp,
                       what + ": the input structure was modified")
            run.validated()
    for bad in ((-0.01, 0.1), (0.1, -0.01)):
        try:
            PerturbStructure(dstruct(lat, sp, fr)).perturb(1, *bad)
            run.expect(False, "a negative amplitude was accepted: %s" % (bad,))
        except RuntimeError:
            pass


def own(c, run):
    """a source that never answers the same twice: every atom of every copy has a displacement of its own, every copy a strain of its own"""
    from matersdk.adalearn.generator.perturbation import PerturbStructure
    lat = np.array(LL[c["lat"]], float)
    if c["mot"] == "big":
        sp = [["Li", "Si", "Mo"][(i * i) % 3] for i in range(48)]
        fr = np.array([[(i % 4) / 4 + 0.01, (i // 4 % 4) / 4 + 0.02, (i // 16) / 3 + 0.03] for i in range(48)])
    else:
        sp, fr = ALL[c["mot"]]
    sp, fr = list(sp), np.array(fr, float)
    M = 6 * c["num"] + 5
    u = [((k * 0.6180339887498949) % 1.0) for k in range(1, M)]
    M = 3 * c["num"] * len(sp) + 7
    g = [2 * ((k * 0.4142135623730951) % 1.0) - 1 for k in range(1, M)]
    frac, dist = 0.1, 0.3
    s = dstruct(lat, sp, fr)
    with Own(u, g, 0) as src:
        out = PerturbStructure(s).perturb(pert_num=c["num"], cell_pert_fraction=frac, atom_pert_distance=dist)
    what = "%s/%s %d copies, all draws different" % (c["lat"], c["mot"], c["num"])
    run.step()
    run.expect(len(out) == c["num"], what + ": number of perturbed structures", got=len(out))
    disp, cells = [], []
    for n, q in enumerate(out):
        check(run, what, lat, sp, fr, q, frac, dist, 1.0 if src.n else 1e9, False)
        L2 = np.asarray(q.lattice.matrix, float)
        d = np.asarray(q.frac_coords, float) - fr
        d = d - np.round(d)
        cells.append((L2 @ L2.T).ravel())
        disp += [(n, i, v) for i, v in enumerate(d @ L2)]
        run.state((what, n))
    cells = np.array(cells)
    for a, b in itertools.combinations(range(len(out)), 2):
        run.expect(np.abs(cells[a] - cells[b]).max() > 1e-9, what + ": copies %d and %d have the same strain" % (a, b))
    # lengths do not depend on the rotation
    ln = np.array([np.linalg.norm(v) for _, _, v in disp])
    o = np.argsort(ln)
    for a, b in zip(o, o[1:]):
        if abs(ln[a] - ln[b]) < 1e-10 and (disp[a][0] != disp[b][0] or np.abs(disp[a][2] - disp[b][2]).max() < 1e-9):
            run.expect(False, what + ": atoms %s and %s moved by the same vector" % (disp[a][:2], disp[b][:2]))
    run.validated()


class Own(Source):
    def _arr(self, vec, shape, name):
        self.calls[name] += 1
        size = int(np.prod(shape)) if shape else 1
        at = self.at = getattr(self, "at", {"rand": 0, "randn": 0})
        out = np.array([vec[(at[name] + k) % len(vec)] for k in range(size)], float)
        at[name] += size
        self.n += name == "randn"
        return out.reshape(shape) if shape else float(out[0])


def batch(c, run):
    from matersdk.adalearn.generator.perturbation import BatchPerturbStructure
    from matersdk.io.publicLayer.structure import DStructure
    with Scratch() as d:
        names = ["a", "b", "c"][:c["sys"]]
        ref = {}
        for k, n in enumerate(names):
            os.mkdir(os.path.join(d, n))
            lat = np.array(LL[["cubic", "tri", "hex"][k]], float)
            sp, fr = ALL[["2", "3", "1off"][k]]
            ref[n] = (lat, list(sp), np.array(fr, float))
            dstruct(lat, sp, fr).to(file_path=os.path.join(d, n, "atom.config"), file_format="pwmat")
        if c["exists"]:
            os.mkdir(os.path.join(d, "a", "structures"))
        with Source(c["u"], c["g"], 0) as src:
            BatchPerturbStructure.batch_perturb([os.path.join(d, n) for n in names], pert_num=c["num"], cell_pert_fraction=c["frac"], atom_pert_distance=c["dist"])
        for n in names:
            lat, sp, fr = ref[n]
            fs = sorted(os.listdir(os.path.join(d, n, "structures")))
            run.expect(fs == sorted("%d.config" % k for k in range(c["num"])), "batch: files written for " + n, got=fs)
            for f in fs:
                q = DStructure.from_file(os.path.join(d, n, "structures", f), "pwmat")
                check(run, "batch %s %s %s" % (c, n, f), lat, sp, fr, q, c["frac"] + 1e-6, c["dist"] + 2e-6, 1.0 if src.calls["randn"] else 1e9, False, whole=False)
                run.step(); run.state(("batch", str(c), n, f))
        run.validated()


def dispatch(c, run):
    (batch if "sys" in c else own if "own" in c else case)(c, run)


def explore(ctx):
    us3 = list(itertools.product((0.0, 0.5, ONE), repeat=6))
    few = [u for u in us3 if u[0] == u[1] and u[3] == u[4] and u[2] == u[5]]
    gs = list(itertools.product((-1.0, 0.0, 1.0), repeat=3))
    amps = [(f, x) for f in (0.0, 0.03, 0.2) for x in (0.0, 0.01, 0.5)]
    cases = []
    for lat in LL:
        for mot in ALL:
            full = ctx.thorough or (lat, mot) in (("tri", "3"), ("left", "2"))
            us = us3 if full else few
            for i in range(0, len(us), 27):
                ans = [(u, gs[(7 * k + i) % 27]) for k, u in enumerate(us[i:i + 27])]
                cases.append(dict(lat=lat, mot=mot, answers=ans, amps=amps if not ctx.thorough else amps[1::2] + amps[:1], num=1, shift=0))
            cases.append(dict(lat=lat, mot=mot, answers=[(few[3], g) for g in gs], amps=[(0.0, 0.5), (0.1, 0.25)], num=2, shift=0))
            cases.append(dict(lat=lat, mot=mot, answers=[(us3[5 * k], gs[k]) for k in range(0, 27, 3)], amps=[(0.1, 0.25)], num=3, shift=1))
            cases.append(dict(lat=lat, mot=mot, answers=[(few[0], gs[0])], amps=[(0.1, 0.25)], num=0, shift=0))
    for lat in LL:
        for mot in list(ALL) + ["big"]:
            for num in (1, 2, 3, 12):
                cases.append(dict(own=1, lat=lat, mot=mot, num=num))
    for n in (1, 2, 3):
        for num in (1, 2, 3, 12):
            for ex in (0, 1):
                for frac, dist in ((0.0, 0.0), (0.05, 0.1)):
                    cases.append(dict(sys=n, num=num, exists=ex, frac=frac, dist=dist, u=few[11], g=gs[20]))
    ctx.run_cases(cases, dispatch)
