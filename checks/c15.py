import itertools, os, warnings
import numpy as np
from .pyc import Scratch
PROPERTY = "C15"
TECHNIQUE = "exhaustive enumeration of projected-DOS and fat-band tables (all element subsets with overlapping symbols, orbital sets, sizes) and of reader histories over the real code, against column sums"
RULE = "every subset of an element alphabet with overlapping symbols x orbital set x rows; every value coded by row and column; every element and every orbital requested; all create/read/delete histories of two readers up to the depth"
BOUNDS = {"quick": "all subsets of up to 3 of 11 elements x 5 orbital sets (one of them different per element) x 3 row counts, some of up to 3000 rows, 300 k-points or 101 bands; histories depth 4", "thorough": "subsets of up to 4, histories depth 5"}
ELEM = ["S", "Si", "Sc", "Os", "K", "H", "He", "C", "Co", "O", "As"]
ORB = {"one": ["3S"], "sp": ["3S", "3Pz", "3Px", "3Py"], "spd": ["4S", "4Pz", "4Px", "4Py", "4Dz2", "4Dxz", "4Dyz", "4Dxy", "4Dx2-y2"],
       "pd": ["3Pz", "3Px", "4Dxy"], "var": None}
VAR = [["3S"], ["2Pz", "2Px"], ["4Dz2", "4Dxy", "5S"], ["4Fz3"]]


def columns(c):
    """the (element, orbital) columns: element by element, or interleaved; 'var' gives every element another orbital set"""
    o = {e: ORB[c["orb"]] or VAR[(k + c["n"]) % 4] for k, e in enumerate(c["els"])}
    if c["mix"]:
        return [(e, o[e][j]) for j in range(max(map(len, o.values()))) for e in c["els"] if j < len(o[e])]
    return [(e, x) for e in c["els"] for x in o[e]]


def val(r, c):
    v = round(0.125 * (r + 1) + 2.0 ** (c % 10) + 0.5 * (c // 10), 6)
    return -v if (r + c) % 5 == 4 else v


def dos(c, run):
    from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
    cols = columns(c)
    n = c["n"]
    en = [round(-3.0 + 0.017 * r, 4) for r in range(n)]
    tot = "Total" if c["cap"] else "total"
    with Scratch() as d:
        p = os.path.join(d, "DOS.totalspin_projected")
        L = [("# " if c["hash"] else "  ") + "  ".join(["Energy", tot] + ["%s-%s" % x for x in cols])]
        T = np.array([[val(r, k) for k in range(len(cols))] for r in range(n)]).reshape(n, len(cols))
        TT = np.array([T[r].sum() * (1, 0.97, 1.04)[(r + n) % 3] for r in range(n)])      # the projections need not exhaust the total
        for r in range(n):
            L.append("   %.4f   %.6f   " % (en[r], TT[r]) + "  ".join("%.6f" % x for x in T[r]))
        txt = "\n".join(L) + "\n"
        with open(p, "w") as f:
            f.write(txt)
        what = "projected DOS %s" % c
        run.step(); run.state(what)
        q = Dostotalspin(p)
        t = q.get_tdos()
        run.expect(list(t.columns) == ["Energy", tot] and len(t) == n, what + ": total DOS", got=list(t.columns))
        run.close(t["Energy"], en, 1e-9, what + ": energies"); run.close(t[tot], TT, 1e-6, what + ": total DOS")
        e = q.get_pdos_elements()
        run.expect(list(e.columns)[0] == "Energy" and sorted(list(e.columns)[1:]) == sorted(c["els"]) and len(e) == n, what + ": elements", got=list(e.columns))
        run.close(e["Energy"], en, 1e-9, what + ": energies")
        for x in c["els"]:
            run.close(e[x], T[:, [k for k in range(len(cols)) if cols[k][0] == x]].sum(axis=1), 1e-6, what + ": DOS of " + x)
        o = q.get_pdos_orbitals()
        run.expect(list(o.columns) == ["Energy"] + ["%s-%s" % x for x in cols] and len(o) == n, what + ": orbitals", got=list(o.columns))
        run.close(o.to_numpy(float), np.column_stack([en, T]), 1e-6, what + ": DOS of the orbitals")
        del q
        run.expect(open(p).read() == txt and os.listdir(d) == [os.path.basename(p)], what + ": the directory was left changed", got=sorted(os.listdir(d)))
        run.validated()


def fat(c, run):
    from matersdk.io.pwmat.output.fatabandstructureTxt import FatbandStructure
    cols = columns(c)
    nk, nb = c["n"], c["nb"]
    names = ["%s-%s" % x for x in cols]
    kd = [round(0.05 * k, 4) for k in range(nk)]
    L = ["   KPOINT   ENERGY   weight_tot   " + "  ".join(names)]
    E, W, T = np.zeros((nb, nk)), np.zeros((nb, nk)), np.zeros((nb, nk, len(cols)))
    for b in range(nb):
        L.append("  BAND    %d" % (b + 1))
        for k in range(nk):
            E[b, k] = round(-5 + b + 0.01 * k, 4)
            T[b, k] = [val(b * nk + k, j) for j in range(len(cols))]
            W[b, k] = T[b, k].sum() * (1, 0.96, 1.03)[(b + k + nk) % 3]
            L.append("  %.4f  %.4f  %.6f  " % (kd[k], E[b, k], W[b, k]) + "  ".join("%.6f" % x for x in T[b, k]))
        L.append("")
    with Scratch() as d:
        p = os.path.join(d, "fatbandstructure_1.txt")
        with open(p, "w") as f:
            f.write("\n".join(L) + "\n")
        what = "fat bands %s" % c
        run.step(); run.state(what)
        q = FatbandStructure(p)
        run.expect(q.num_bands == nb and q.num_kpoints == nk and sorted(q.elements_lst) == sorted(c["els"]), what + ": sizes", got=(q.num_bands, q.num_kpoints, q.elements_lst))
        ka = np.array(kd) / 0.529177249

        def heads(dfs, cols_, what2):
            run.expect(len(dfs) == nb, what2 + ": number of bands", got=len(dfs))
            for b, df in enumerate(dfs):
                run.expect(sorted(df.columns) == sorted(["KPOINT", "ENERGY", "weight_tot"] + cols_) and len(df) == nk, what2 + ": columns", got=list(df.columns))
                run.close(df["KPOINT"], ka, 1e-6, what2 + ": k axis of band %d" % b); run.close(df["ENERGY"], E[b], 1e-6, what2 + ": energies of band %d" % b)
                run.close(df["weight_tot"], W[b], 1e-6, what2 + ": total weight of band %d" % b)
        t = q.get_total_dfs_lst()
        heads(t, names, what)
        for b in range(nb):
            run.close(t[b][names].to_numpy(float), T[b], 1e-6, what + ": weights of band %d" % b)
        e = q.get_element_dfs_lst()
        heads(e, list(c["els"]), what + " by element")
        for b in range(nb):
            for x in c["els"]:
                run.close(e[b][x], T[b][:, [k for k in range(len(cols)) if cols[k][0] == x]].sum(axis=1), 1e-6, what + ": weight of %s in band %d" % (x, b))
        for j, nm in enumerate(names):
            for form in (nm, nm.lower(), nm.upper()):
                o = q.get_orbital_dfs_lst(orbital_name=form)
                heads(o, [nm], what + " orbital " + form)
                run.step()
                for b in range(nb):
                    run.close(o[b][nm], T[b][:, j], 1e-6, what + ": weight of %s in band %d" % (form, b))
        run.validated()


def hist(c, run):
    """two slots, two files: create / read / delete in every order"""
    from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
    ops = [("new", s, f) for s in (0, 1) for f in (0, 1)] + [("read", s) for s in (0, 1)] + [("del", s) for s in (0, 1)]
    for seq in itertools.product(ops, repeat=c["depth"] - 2):
        seq = [tuple(x) for x in c["first"]] + list(seq)
        with Scratch() as d:
            ps = [os.path.join(d, "DOS.totalspin"), os.path.join(d, "DOS.spinup")]
            for k, p in enumerate(ps):
                with open(p, "w") as f:
                    f.write("# Energy Total S-3S Si-3S\n 0.0 %d.0 1.0 %d.0\n" % (3 + k, 2 + k))
            slot, cur, ok = [None, None], [None, None], True
            for op in seq:
                if op[0] != "new" and slot[op[1]] is None:
                    ok = False
                    break
                run.step()
                if op[0] == "new":
                    slot[op[1]] = Dostotalspin(ps[op[2]])
                    cur[op[1]] = op[2]
                elif op[0] == "del":
                    slot[op[1]] = None
                else:
                    e = slot[op[1]].get_pdos_elements()
                    run.close([e["S"][0], e["Si"][0], slot[op[1]].get_tdos()["Total"][0]], [1.0, 2.0 + cur[op[1]], 3.0 + cur[op[1]]], 1e-9, "DOS after %s" % seq)
            slot[:] = [None, None]
            if ok:
                run.state(seq)
                run.expect(sorted(os.listdir(d)) == ["DOS.spinup", "DOS.totalspin"], "files left behind after %s" % seq, got=sorted(os.listdir(d)))
                run.validated()


def case(c, run):
    warnings.filterwarnings("ignore")
    {"dos": dos, "fat": fat, "hist": hist}[c["kind"]](c, run)


def explore(ctx):
    cases = []
    k = 0
    for m in range(1, 5 if ctx.thorough else 4):
        for els in itertools.combinations(ELEM, m):
            for rev in (0, 1):
                for orb in ORB:
                    k += 1
                    if not ctx.thorough and m == 3 and orb != list(ORB)[(k // 2) % 5]:
                        continue
                    e = list(els[::-1] if rev else els)
                    mix = rev if m < 3 else (k // 6) % 2
                    cases.append(dict(kind="dos", els=e, orb=orb, n=(1, 2, 7)[k % 3], mix=mix, cap=k % 2, hash=(k // 2) % 2))
                    if not ctx.thorough and m == 3 and orb == "spd":
                        continue
                    cases.append(dict(kind="fat", els=e, orb=orb, n=(1, 2, 5)[k % 3], nb=(2, 3)[k % 2], mix=mix))
    for n, nb in ((101, 12), (300, 2), (64, 101), (10, 10), (11, 100)):
        for els, orb in ((["Si", "S", "O"], "spd"), (["Co", "C"], "var"), (["H"], "one")):
            cases.insert(0, dict(kind="dos", els=els, orb=orb, n=n * 10, mix=n % 2, cap=nb % 2, hash=n % 2))
            cases.insert(0, dict(kind="fat", els=els, orb=orb if nb < 50 else "one", n=n, nb=nb, mix=n % 2))
    for s in (0, 1):
        for f in (0, 1):
            for op in [("new", a, b) for a in (0, 1) for b in (0, 1)] + [("read", s), ("del", s)]:
                cases.insert(0, dict(kind="hist", first=[("new", s, f), op], depth=5 if ctx.thorough else 4))
    ctx.run_cases(cases, case)
