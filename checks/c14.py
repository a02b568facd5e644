import itertools, os
import numpy as np
from .pyc import Scratch
PROPERTY = "C14"
TECHNIQUE = "exhaustive enumeration of all eigenvalue tables over a small energy alphabet around the Fermi level, written as band reports and read by the real code, against the definitions"
RULE = "every table of (spins, k-points, bands) over the alphabet; alphabets: far from, within 0.8 meV and 0.3 meV of, exactly at, and degenerate within 1 meV at, the band edges; a state is one table"
BOUNDS = {"quick": "all 4-letter tables of up to 6 entries (1..3 k-points, 1..4 bands, 1..2 spins), all row-sorted 3-letter tables of up to 3x4x2, tables of up to 101 k-points or 130 bands; line wrapping at 1,4,5,6,9,10,11,12 bands",
          "thorough": "all 4-letter tables of up to 8 entries, row-sorted 4-letter tables"}
ALPHA = {
    "far": (0.125, [-1.5, -0.2, 0.3, 1.25]),
    "near": (-2.344, [-2.8, -2.3448, -2.3432, -1.9]),       # 0.8 meV from the Fermi level
    "deg": (1.0, [0.7996, 0.8, 1.2, 1.2004]),                # degenerate within 1 meV
    "zero": (0.0, [-11.0, -0.0051, 0.0051, 7.5]),
    "fine": (1.2344, [0.75, 1.2342, 1.2347, 1.5]),          # a Fermi level with as many digits as the eigenvalues
    "at": (0.125, [-1.5, 0.125, 0.1262, 1.25]),              # eigenvalues exactly at the Fermi level belong to both sides
}
NAMES = ("atom.config", "Final.CONFIG", "MoS2_2x2-relaxed.config")


def text(tab, nk, nb, head, name):
    L = [" IN.ATOM      =    " + name, " ECUT  =  50.0", " NUM_KPT     =       %d" % nk, " NUM_BAND    =   %d" % nb, " NUM_SPIN = %d" % (len(tab) // nk), " *****************"]
    if head:
        L = L[:1] + [" NUM_BAND    =   %d" % nb, " NUM_KPT     =   %d" % nk] + ["  accuracy ="] + L[4:]
    for k, row in enumerate(tab):
        L.append(" kpoint %d" % (k % nk + 1) if head else " k= %2d  spin %d" % (k % nk + 1, k // nk + 1))
        L.append(" eigen energies, in eV")
        v = ["%.4f" % x for x in row]
        for j in range(0, nb, 5):
            L.append("   " + "   ".join(v[j:j + 5]))
        L.append("" if not head else " ----")
    return "\n".join(L) + "\n"


def check(run, d, tab, nk, nb, ef, head=0):
    from matersdk.io.pwmat.output.report import Report
    p, q = os.path.join(d, "REPORT"), os.path.join(d, "OUT.FERMI")
    with open(p, "w") as f:
        f.write(text(tab, nk, nb, head, NAMES[(nk + nb + head) % 3]))
    with open(q, "w") as f:
        f.write("  Fermi energy (eV) =    %s   eV\n" % (("%.3f" if round(ef, 3) == ef else "%.4f") % ef))
    run.step(); run.state((tab, nk, nb, ef))
    r = Report(p)
    what = "table %s (%d k-points, %d bands), Fermi level %g" % (str(tab)[:200], nk, nb, ef)
    run.expect(r.get_num_kpts() == nk and r.get_num_bands() == nb and r.get_in_atom() == NAMES[(nk + nb + head) % 3], what + ": header")
    e = r.get_eigen_energies()
    T = np.array(tab, float)
    run.close(e["up"], T[:nk], 1e-9, what + ": eigenvalues")
    ns = len(tab) // nk
    if ns == 2:
        run.close(e["down"], T[nk:], 1e-9, what + ": eigenvalues of the second spin")
    else:
        run.expect(np.asarray(e["down"]).size == 0, what + ": a second spin that is not there")
    S = [("up", T[:nk])] + ([("down", T[nk:])] if ns == 2 else [])
    metal = any(((A[:, b] < ef).any() and (A[:, b] > ef).any()) for _, A in S for b in range(nb))
    above = T[T >= ef]
    below = T[T <= ef]
    if not metal and (not len(above) or not len(below)):
        return                                       # one of the edges does not exist in the table
    cbm, vbm = r.get_cbm(q), r.get_vbm(q)
    run.expect((cbm is None) == metal and (vbm is None) == metal, what + ": metallicity", got=(cbm is None, vbm is None), want=metal)
    gap = r.get_bandgap(q)
    if metal:
        run.expect(gap == 0, what + ": gap of a metal", got=gap)
        run.validated()
        return
    kk = []
    for name, got, edge in (("CBM", cbm, above.min()), ("VBM", vbm, below.max())):
        run.close(got["energies"], [edge] * len(got["energies"]), 1e-6, what + ": %s energy" % name)
        k = got["kpts"][0]
        run.expect(set(got["kpts"]) == {k} and 1 <= k <= nk, what + ": %s k-points" % name, got=str(got))
        kk.append(k)
        ent = [(str(s), int(b)) for s, b in zip(got["spins"], got["bands"])]
        run.expect(len(ent) == len(got["energies"]) == len(got["kpts"]) and len(got["spins"]) == len(got["bands"]), what + ": %s lists of different length" % name)
        want = {(s, b + 1) for s, A in S for b in range(nb) if abs(A[k - 1, b] - edge) < 0.001 - 1e-7}
        exact = {(s, b + 1) for s, A in S for b in range(nb) if abs(A[k - 1, b] - edge) < 1e-7}
        run.expect(bool(exact) and ent[0] in exact, what + ": the %s is not at the reported k-point, band and spin" % name, got=str(got))
        run.expect(len(set(ent)) == len(ent) and set(ent) == want, what + ": bands sharing the %s" % name, got=str(got), want=sorted(want))
    run.close(gap, above.min() - below.max(), 1e-6, what + ": band gap")
    run.expect(int(r.get_bandgap_type(q)) == (1 if kk[0] == kk[1] else 0), what + ": directness", k_points=kk)
    # when neither edge is degenerate over k-points the answer is unique
    ka = {k for s, A in S for k in range(nk) if (np.abs(A[k] - above.min()) < 1e-7).any()}
    kb = {k for s, A in S for k in range(nk) if (np.abs(A[k] - below.max()) < 1e-7).any()}
    if len(ka) == 1 and len(kb) == 1:
        run.expect(int(r.get_bandgap_type(q)) == int(ka == kb), what + ": directness", want=int(ka == kb))
    run.validated()


def case(c, run):
    with Scratch() as d:
        ef, al = ALPHA[c["al"]]
        nk, nb, ns = c["shape"]
        if c["kind"] == "all":
            n = nk * nb * ns
            fix = c["fix"]
            for rest in itertools.product(al, repeat=n - len(fix)):
                v = tuple(fix) + rest
                check(run, d, tuple(v[i * nb:(i + 1) * nb] for i in range(nk * ns)), nk, nb, ef)
        elif c["kind"] == "sorted":
            rows = list(itertools.combinations_with_replacement(al if c["four"] else al[:1] + al[2:] if c["al"] != "deg" else al[1:], nb))
            first = c["first"]
            for rest in itertools.product(rows, repeat=nk * ns - 1):
                check(run, d, (rows[first % len(rows)],) + rest, nk, nb, ef, 1)
        elif c["kind"] == "large":
            # edges at every kind of place: first, middle and last k-point, both spins; one table with a crossing band
            rows = nk * ns
            for kv, kc in itertools.product(sorted({0, nk // 2, nk - 1, nk % rows, rows - 1, rows - 2}), repeat=2):
                for lo in sorted({1, nb // 2, nb - 1}):
                    tab = [[round(ef + (-2.0 - 0.003 * (lo - 1 - b) - 0.0101 * (1 + (k * 7) % 11) if b < lo else 1.0 + 0.003 * (b - lo) + 0.0101 * (1 + (k * 5) % 13)), 4) for b in range(nb)] for k in range(rows)]
                    tab[kv][lo - 1] = round(ef - 1.5, 4)
                    tab[kc][lo] = round(ef + 0.5, 4)
                    check(run, d, tuple(map(tuple, tab)), nk, nb, ef, (kv + kc) % 2)
                tab[kv][lo - 1] = round(ef + 0.6, 4)
                check(run, d, tuple(map(tuple, tab)), nk, nb, ef)
        else:
            for lo in range(1, nb):
                for sh in (0, 1):
                    tab = tuple(tuple(round(ef + (-2.0 + 0.01 * b + 0.1 * k if b < lo else 1.0 + 0.01 * b - 0.1 * ((k + sh) % (nk * ns))), 4) for b in range(nb)) for k in range(nk * ns))
                    check(run, d, tab, nk, nb, ef, sh)


def explore(ctx):
    cases = []
    lim = 8 if ctx.thorough else 6
    for al in ALPHA:
        for nk in (1, 2, 3):
            for ns in (1, 2):
                for nb in (1, 2, 3, 4):
                    n = nk * nb * ns
                    if n <= lim and (n <= 5 or al in ("far", "deg") or ctx.thorough):
                        a = ALPHA[al][1]
                        for fix in (itertools.product(a, repeat=2) if n > 4 else [()]):
                            cases.append(dict(kind="all", al=al, shape=(nk, nb, ns), fix=list(fix)))
                    elif al in ("far", "near") or ctx.thorough:
                        m = 4 if ctx.thorough and nk * ns <= 3 else 3
                        nrows = len(list(itertools.combinations_with_replacement(range(m), nb)))
                        if nrows ** (nk * ns) > 60000:
                            continue
                        if not ctx.thorough and nrows ** (nk * ns) > 3500:
                            continue
                        for f in range(nrows):
                            cases.append(dict(kind="sorted", al=al, shape=(nk, nb, ns), first=f, four=m == 4))
        for nb in (2, 4, 5, 6, 9, 10, 11, 12):
            for nk in (1, 2, 3):
                for ns in (1, 2):
                    cases.append(dict(kind="wrap", al=al, shape=(nk, nb, ns)))
        for shape in () if al not in ("far", "near") else ((7, 13, 2), (12, 21, 1), (101, 4, 1), (100, 6, 2), (3, 101, 1), (2, 130, 2), (26, 31, 2)):
            cases.append(dict(kind="large", al=al, shape=shape))
    cases.sort(key=lambda c: c["kind"])
    ctx.run_cases(cases, case)
