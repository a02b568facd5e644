import itertools, os
import numpy as np
from .pyc import Scratch
PROPERTY = "C03"
TECHNIQUE = "explicit-state exploration of all write/read/chdir histories over two paths per real reader class; model = current content of each path"
RULE = "every sequence of {write one of 3 contents (two of equal byte length with their sections on different lines; all with the same time stamp) to one of 2 files, read one file by absolute or relative path} up to the depth, for 7 reader classes in one process"
BOUNDS = {"quick": "depth 5, 7 readers", "thorough": "depth 6"}


def pad(t, n):
    return t[:-1] + " " * (n - len(t)) + "\n"


def ac(i):
    # contents 0 and 1 have the same length in bytes but their sections on different lines; 2 is longer
    lat = (4.0, 5.0, 6.0)[i]; z = (14, 26, 42)[i]; x = (0.125, 0.375, 0.625)[i]
    n = (2, 2, 3)[i]
    L = ["  %d atoms,Iteration (fs) =  %.4E, Etot,Ep,Ek (eV) =  %.8E  %.8E  %.8E, SCF = 3" % (n, i, -100.0 - i, -101.0 - i, 1.0), "Lattice vector (Angstrom)"]
    for k in range(3):
        L.append("   " + "  ".join("%.6E" % (lat if j == k else 0.0) for j in range(3)))
    L.append("Position (normalized), move_x, move_y, move_z")
    for a in range(n):
        L.append("  %d   %.6f  %.6f  %.6f   1 1 1" % (z, x, a * 0.25, 0.5))
    L.append("Magnetic")
    for a in range(n):
        L.append("  %d  %.2f" % (z, 1.0 + i))
    if i == 1:
        L.insert(1, "")
        L.insert(6, "Comment")
    return pad("\n".join(L) + "\n", 520 if i < 2 else 0), dict(n=n, lat=lat, z=z, x=x, mag=1.0 + i, e=-100.0 - i)


def r_ac(path):
    from matersdk.io.pwmat.utils.acextractor import ACExtractor
    a = ACExtractor(file_path=path)
    return dict(n=a.num_atoms, lat=float(a.basis_vectors[0]), z=int(a.types[0]), x=float(a.coords[0]), mag=float(a.get_magmoms()[0]),
                n2=len(a.types), lat2=float(a.basis_vectors[8]))


def m_ac(i):
    m = ac(i)[1]
    return dict(n=m["n"], lat=m["lat"], z=m["z"], x=m["x"], mag=m["mag"], n2=m["n"], lat2=m["lat"])


def r_ds(path):
    from matersdk.io.publicLayer.structure import DStructure
    s = DStructure.from_file(path, "pwmat")
    return dict(n=s.num_sites, lat=round(float(s.lattice.matrix[1, 1]), 6), z=s.species[0].Z, x=float(s.frac_coords[0, 0]))


def m_ds(i):
    m = ac(i)[1]
    return dict(n=m["n"], lat=m["lat"], z=m["z"], x=m["x"])


SEP = " " + "-" * 60 + "\n"


def mv(i):
    return ac(i)[0] + SEP + (ac((i + 1) % 2)[0] + SEP if i == 2 else ""), None


def r_mv(path):
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    m = MVExtractor(path)
    f = m.get_frame_info(0)
    return dict(frames=m.get_num_frames(), z=int(f[1][0]), lat=float(f[0][0]), e=float(f[3][0]), n=len(f[1]))


def m_mv(i):
    m = ac(i)[1]
    return dict(frames=2 if i == 2 else 1, z=m["z"], lat=m["lat"], e=m["e"], n=m["n"])


def fermi(i):
    return " *** Fermi Energy in eV  ***   \n"[:0] + "  E_Fermi =   %8.3f eV\n" % (1.25, 2.75, -3.125)[i] + ("# extra\n" if i == 2 else ""), None


def r_fermi(path):
    from matersdk.io.pwmat.output.outfermi import OutFermi
    return float(OutFermi(path).get_efermi())


def m_fermi(i):
    return (1.25, 2.75, -3.125)[i]


def report(i):
    nb, nk = ((2, 2), (3, 1), (6, 2))[i]
    L = [" IN.ATOM = at%d.config" % i, " NUM_BAND =   %d" % nb, " NUM_KPT =   %d" % nk]
    if i:
        L.insert(0, " comment")
    for k in range(nk):
        L.append(" kpoint %d" % (k + 1)); L.append(" eigen energies, in eV")
        v = ["%.4f" % (i + k + 0.25 * b) for b in range(nb)]
        for j in range(0, nb, 5):
            L.append("  " + " ".join(v[j:j + 5]))
    return pad("\n".join(L) + "\n", 180), None


def r_report(path):
    from matersdk.io.pwmat.output.report import Report
    r = Report(path)
    return dict(nb=r.get_num_bands(), nk=r.get_num_kpts(), at=r.get_in_atom(), e=np.asarray(r.get_eigen_energies()["up"]).tolist())


def m_report(i):
    nb, nk = ((2, 2), (3, 1), (6, 2))[i]
    return dict(nb=nb, nk=nk, at="at%d.config" % i, e=[[i + k + 0.25 * b for b in range(nb)] for k in range(nk)])


def inkpt(i):
    n = (2, 2, 3)[i]
    L = ["   %d" % n, "   %d     %d" % ((1, 2, 2)[i], (0, 3, 0)[i])]
    for k in range(n):
        L.append("  %.4f  %.4f  %.4f  %.4f" % (0.125 * k, 0.25 * i, 0.5, 1.0 / n) + ("   %s" % "GXM"[i] if k == 0 else ""))
    return "\n".join(L) + "\n", None


def r_inkpt(path):
    from matersdk.io.pwmat.input.inkpt import Inkpt
    k = Inkpt(path)
    return dict(iflag=k.iflag, a0=k.a0, n=k.get_num_kpts(), c=np.asarray(k.get_kpt_coords_frac()).tolist(), h=k.get_hsp()["hsp"])


def m_inkpt(i):
    n = (2, 2, 3)[i]
    return dict(iflag=(1, 2, 2)[i], a0=(0, 3, 0)[i], n=n, c=[[0.125 * k, 0.25 * i, 0.5] for k in range(n)], h=["GXM"[i]])


def r_acstr(path):
    from matersdk.io.publicLayer.structure import DStructure
    s = DStructure.from_str(open(path).read(), "pwmat")
    return dict(n=s.num_sites, lat=round(float(s.lattice.matrix[1, 1]), 6), z=s.species[0].Z, x=float(s.frac_coords[0, 0]))


READERS = {"ACExtractor": (ac, r_ac, m_ac), "DStructure": (ac, r_ds, m_ds), "MVExtractor": (mv, r_mv, m_mv), "OutFermi": (fermi, r_fermi, m_fermi),
           "Report": (report, r_report, m_report), "Inkpt": (inkpt, r_inkpt, m_inkpt), "from_str": (ac, r_acstr, m_ds)}
OPS = [("w", q, i) for q in (0, 1) for i in (0, 1, 2)] + [("r", 0), ("r", 1), ("rel", 0), ("rel", 1)]


def case(c, run):
    gen, read, want = READERS[c["reader"]]
    cwd = os.getcwd()
    with Scratch() as d:
        try:
            for n, seq in enumerate(seqs(c)):
                # two directories holding a file of the same name
                dirs = [os.path.join(d, "s", "a"), os.path.join(d, "s", "b")]
                for x in dirs:
                    os.makedirs(x, exist_ok=True)
                    if os.path.exists(os.path.join(x, "F")):
                        os.remove(os.path.join(x, "F"))
                cur = {}
                for op in seq:
                    run.step()
                    if op[0] == "w":
                        with open(os.path.join(dirs[op[1]], "F"), "w") as f:
                            f.write(gen(op[2])[0])
                        os.utime(os.path.join(dirs[op[1]], "F"), (1700000000, 1700000000))   # timestamps cannot tell contents apart
                        cur[op[1]] = op[2]
                    elif op[1] in cur:
                        if op[0] == "rel":
                            os.chdir(dirs[op[1]])
                            got = read("F")
                        else:
                            got = read(os.path.join(dirs[op[1]], "F"))
                        run.expect(got == want(cur[op[1]]), "%s does not report the current content of the file" % c["reader"],
                                   history=seq, got=got, want=want(cur[op[1]]))
                    run.state((c["reader"], sorted(cur.items()), op))
                run.validated()
        finally:
            os.chdir(cwd)


def seqs(c):
    for tail in itertools.product(OPS, repeat=c["depth"] - 2):
        seq = [tuple(x) for x in c["head"]] + list(tail)
        if seq[-1][0] == "w":
            continue                                   # nothing is observed after the last write
        if any(o[0] != "w" and not any(p[0] == "w" and p[1] == o[1] for p in seq[:k]) for k, o in enumerate(seq)):
            continue                                   # reads a file that does not exist yet
        yield seq


def explore(ctx):
    depth = 6 if ctx.thorough else 5
    cases = []
    for r in READERS:
        for dep in range(2, depth + 1):
            for head in itertools.product(OPS, repeat=2):
                if head[0][0] == "w":
                    cases.append({"reader": r, "depth": dep, "head": head})
    ctx.run_cases(cases, case)
