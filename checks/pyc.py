"""Helpers shared by the Python checks: independent periodic table, lattices, motifs, brute force."""
import itertools
import os
import tempfile
import numpy as np

SYMBOLS = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr "
           "Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu "
           "Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr "
           "Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split()
Z = {s: i + 1 for i, s in enumerate(SYMBOLS)}
assert len(SYMBOLS) == 118

LAT = {
    "cubic": [[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.0]],
    "ortho": [[3.5, 0, 0], [0, 4.25, 0], [0, 0, 5.0]],
    "hex": [[3.19, 0, 0], [-1.595, 2.7626210, 0], [0, 0, 5.5]],
    "tri": [[4.1, 0.3, -0.2], [0.7, 3.8, 0.4], [-0.5, 0.9, 4.6]],
    "shear": [[3.0, 0, 0], [2.6, 3.1, 0], [1.3, 1.7, 3.4]],
    "neg": [[-3.7, 0.2, 0.1], [0.3, -4.4, 0], [0.1, 0.6, 3.9]],
    "fcc": [[0, 2.1, 2.1], [2.1, 0, 2.1], [2.1, 2.1, 0]],
    "slab": [[3.3, 0, 0], [0, 3.6, 0], [0, 0, 19.0]],
}
# (name, species, fractional coordinates) - generic positions, all pair distances distinct enough
MOTIF = {
    "1": (["Li"], [[0, 0, 0]]),
    "1off": (["Si"], [[0.37, 0.11, 0.83]]),
    "2": (["Si", "Li"], [[0.0, 0.0, 0.0], [0.52, 0.47, 0.55]]),
    "2same": (["Mo", "Mo"], [[0.1, 0.2, 0.3], [0.61, 0.66, 0.92]]),
    "3": (["S", "Mo", "S"], [[0.31, 0.67, 0.12], [0.33, 0.31, 0.5], [0.64, 0.68, 0.88]]),
    "4": (["O", "H", "Si", "H"], [[0.05, 0.1, 0.15], [0.25, 0.02, 0.12], [0.55, 0.48, 0.61], [0.9, 0.77, 0.31]]),
}


def motif(lat, mot):
    sp, fr = MOTIF[mot]
    return np.array(LAT[lat], float), list(sp), np.array(fr, float)


def dstruct(lat, sp, frac, **k):
    from matersdk.io.publicLayer.structure import DStructure
    return DStructure(lattice=np.array(lat, float), species=list(sp), coords=np.array(frac, float), **k)


def images(lat, frac, rmax):
    """every (i, j, n, vec, dist) with 0 <= dist <= rmax (excluding the atom itself), by brute force"""
    lat = np.asarray(lat, float)
    h = 1.0 / np.linalg.norm(np.linalg.inv(lat), axis=0)   # plane spacings
    frac = np.asarray(frac, float)
    spread = np.ptp(frac, axis=0) if len(frac) else np.zeros(3)
    N = [int(np.ceil(rmax / h[k] + spread[k])) + 1 for k in range(3)]
    shifts = np.array(list(itertools.product(*[range(-n, n + 1) for n in N])))
    out = []
    for i in range(len(frac)):
        for j in range(len(frac)):
            v = (frac[j] - frac[i] + shifts) @ lat
            d = np.linalg.norm(v, axis=1)
            for k in np.nonzero(d <= rmax)[0]:
                if i == j and not shifts[k].any():
                    continue
                out.append((i, j, tuple(int(x) for x in shifts[k]), v[k], float(d[k])))
    return out


def shell_cutoffs(lat, frac, rmax, gap=1e-3):
    """every cutoff class up to rmax: one radius in each interval between consecutive distinct distances"""
    ds = sorted(x[4] for x in images(lat, frac, rmax))
    cuts, prev = [], 0.0
    for d in ds + [rmax]:
        if d - prev > 2 * gap:
            cuts.append(0.5 * (d + prev))
        prev = max(prev, d)
    return cuts


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mcpy_")
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)
