import itertools, os
import numpy as np
from .pyc import Scratch, SYMBOLS
from . import c02, c04
PROPERTY = "C05"
TECHNIQUE = "exhaustive enumeration of (frame count, part size, optional arrays, merges of data sets) through the real exporter; the written directory is decoded independently and compared with the generating model"
RULE = "every frame carries frame-coded values; the concatenation of the parts in name order must be the frame sequence in every array; type indices are decoded through type_map.raw"
BOUNDS = {"quick": "1..7 frames x part sizes {none, 1..8} x 8 optional subsets x 1..3 atoms, some of 23..1003 frames and 35..120 atoms; merges of 2..3 trajectories over 7 compositions (some written with the same characters) x part sizes, next to files of similar names that are no part of the data; trajectories with different optional quantities in every combination of two; quantities that are exactly zero in some frames",
          "thorough": "1..12 frames x part sizes 1..13; merges of up to 4 trajectories"}
COMP = {"LiSi": [3, 14], "SiLi": [14, 3], "Si2": [14, 14], "OLiO": [8, 3, 8], "Fe": [26], "Li2Si": [3, 3, 14], "LiSi2": [3, 14, 14]}


def frames(zs, nf, tag, opt):
    out = []
    for f in range(nf):
        m = c04.frame_model(len(zs), f + 20 * tag)
        m["z"] = list(zs) if f % 2 == 0 else list(zs)[::-1]
        out.append(m)
    return out


def write_mv(path, ms, opt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    q = (["eatom"] if opt & 2 else []) + (["magnetic"] if opt & 4 else [])
    with open(path, "w") as f:
        for m in ms:
            f.write(c02.text(m, ["force"] + q, "asis", "E", opt & 1, 0, "md") + " " + "-" * 49 + "\n")


def rows(m, opt):
    """what one frame must contribute to each array"""
    d = {"box": m["lat"].reshape(-1), "coord": m["pos"].reshape(-1), "etot": [m["e"][0]], "fatom": m["force"].reshape(-1)}
    if opt & 1:
        d["virial"] = m["vir"].reshape(-1)
    if opt & 2:
        d["eatom"] = m["eatom"][:, 0]
    if opt & 4:
        d["magmoms"] = m["magnetic"].reshape(-1)
    return d


def read_set(run, d, part_size):
    """decode one exported composition directory"""
    tm = [l.strip() for l in open(os.path.join(d, "type_map.raw")) if l.strip()]
    run.expect(all(t in SYMBOLS for t in tm) and len(set(tm)) == len(tm), "type_map.raw is not a list of distinct elements", got=tm)
    parts = sorted((x for x in os.listdir(d) if x.startswith("part.")), key=lambda x: (len(x), x))
    run.expect(parts == ["part.%03d" % i for i in range(len(parts))] and len(parts) > 0, "part names", got=parts)
    run.expect(sorted(os.listdir(d)) == sorted(parts + ["type_map.raw"]), "unexpected files", got=sorted(os.listdir(d)))
    data, sizes = {}, []
    names = None
    for p in parts:
        fs = sorted(os.listdir(os.path.join(d, p)))
        run.expect(names is None or fs == names, "parts carry different arrays", got=fs, want=names)
        names = fs
        n = set()
        for f in fs:
            a = np.load(os.path.join(d, p, f))
            data.setdefault(f[:-4], []).append(a)
            n.add(a.shape[0])
        run.expect(len(n) == 1, "arrays of one part have different frame counts", got=sorted(n))
        sizes.append(n.pop())
    if part_size:
        run.expect(all(s == part_size for s in sizes[:-1]) and 0 < sizes[-1] <= part_size, "part sizes", got=sizes, want=part_size)
    return tm, {k: np.concatenate(v, axis=0) for k, v in data.items()}, sizes


def compare(run, tm, data, ms, opt, what):
    """ms: the frames in the expected order"""
    want = [rows(m, opt) for m in ms]
    run.expect(set(data) == set(want[0]) | {"types"}, what + ": arrays stored", got=sorted(data), want=sorted(set(want[0]) | {"types"}))
    for k in want[0]:
        run.close(data[k], np.array([w[k] for w in want]), 1e-9, what + ": " + k)
    got = [[tm[int(t)] if 0 <= int(t) < len(tm) else "?" for t in r] for r in data["types"]]
    run.expect(got == [[SYMBOLS[z - 1] for z in m["z"]] for m in ms], what + ": types do not decode to the elements",
               got=got, want=[m["z"] for m in ms], type_map=tm)


def mem(run, s, ms, opt, what):
    """the in-memory data set"""
    run.expect(s.num_frames == len(ms), what + ": num_frames", got=s.num_frames, want=len(ms))
    zs = ms[0]["z"]
    cnt = {SYMBOLS[z - 1]: zs.count(z) for z in zs}
    run.expect({k: int(v) for k, v in s.formula_dict.items() if v} == cnt, what + ": formula_dict", got={k: int(v) for k, v in s.formula_dict.items()}, want=cnt)
    data = {"box": s.box, "coord": s.coord, "etot": s.etot, "fatom": s.fatom, "types": s.types}
    run.expect(bool(s.virial_mark) == bool(opt & 1) and bool(s.eatom_mark) == bool(opt & 2) and bool(s.magmom_mark) == bool(opt & 4), what + ": marks")
    if opt & 1:
        data["virial"] = s.virial
    if opt & 2:
        data["eatom"] = s.eatom
    if opt & 4:
        data["magmoms"] = s.magmom
    compare(run, list(s.formula_dict.keys()), data, ms, opt, what)


def case(c, run):
    from matersdk.data.infoset import InfoSet
    from matersdk.data.infosets import InfoSets
    with Scratch() as d:
        if c["k"] == "one":
            zs = (c02.ZS * 20)[:c["n"]] if c["n"] != 2 else [14, 14]
            ms = c04.zeroed(frames(zs, c["nf"], 0, c["opt"]), c.get("zero"))
            p = os.path.join(d, "in", "MOVEMENT")
            write_mv(p, ms, c["opt"])
            for order in c["orders"]:
                s = InfoSet.from_file(p, "pwmat/movement") if order is None else InfoSet.from_file(p, "PWMAT/MOVEMENT", infosets_atomic_numbers=list(order))
                mem(run, s, ms, c["opt"], "data set")
                for i, ps in enumerate(c["parts"]):
                    run.step(); run.state((c["n"], c["nf"], c["opt"], order, ps))
                    o = os.path.join(d, "o%d_%s" % (i, "d" if order is None else "x" + "_".join(map(str, order))))
                    os.makedirs(o)
                    s.to_dir(o, ps) if ps else s.to_dir(o)
                    run.expect(os.listdir(o) == [s.formula], "directory name", got=os.listdir(o), want=s.formula)
                    tm, data, sizes = read_set(run, os.path.join(o, s.formula), ps)
                    run.expect(ps or len(sizes) == 1, "without a part size there is one part", got=sizes)
                    compare(run, tm, data, ms, c["opt"], "export (%d frames, part size %s)" % (c["nf"], ps))
                    mem(run, s, ms, c["opt"], "data set after export")
                    run.validated()
        else:
            # merge of several trajectories; the order of files is the file system's, so any order of whole files is accepted
            src = os.path.join(d, "src")
            sets = []
            opts = c.get("opts") or [c["opt"]] * len(c["sets"])
            for i, (comp, nf) in enumerate(c["sets"]):
                ms = c04.zeroed(frames(COMP[comp], nf, i, opts[i]), c.get("zero") if i == 0 else None)
                write_mv(os.path.join(src, "r%d" % i, ("MOVEMENT", "sub/movement", "Movement")[i % 3]), ms, opts[i])
                sets.append((comp, ms))
            with open(os.path.join(src, "README"), "w") as f:
                f.write("x")
            for k, name in enumerate(("r0/MOVEMENT.bak", "r0/old_MOVEMENT", "MOVEMENT2", "r1/xMOVEMENT.1")):
                write_mv(os.path.join(src, name), frames(COMP[c["sets"][0][0]], 2, 9 + k, c["opt"]), c["opt"])
            S = InfoSets.from_dir(src, "MOVEMENT", "pwmat/movement")
            total = sum(len(m) for _, m in sets)
            groups, gopt = {}, {}
            for (comp, ms), o in zip(sets, opts):
                k = tuple(sorted(COMP[comp]))
                groups.setdefault(k, []).append(ms)
                gopt[k] = gopt.get(k, 7) & o         # a merged set has the arrays that all of its trajectories carry
            run.expect(S.get_num_frames() == total, "total number of frames", got=S.get_num_frames(), want=total)
            run.expect(len(S.infoset_lst) == len(groups), "one set per composition", got=[x.formula for x in S.infoset_lst])
            for i, ps in enumerate(c["parts"]):
                run.step(); run.state((c["sets"], opts, ps))
                o = os.path.join(d, "o%d" % i)
                os.makedirs(o)
                S.to_dir(o, ps) if ps else S.to_dir(o)
                run.expect(len(os.listdir(o)) == len(groups), "one directory per composition", got=os.listdir(o))
                seen = set()
                for sub in os.listdir(o):
                    tm, data, sizes = read_set(run, os.path.join(o, sub), ps)
                    zs = tuple(sorted(SYMBOLS.index(tm[int(t)]) + 1 for t in data["types"][0]))
                    run.expect(zs in groups and zs not in seen, "composition of an exported directory", got=zs, dir=sub)
                    seen.add(zs)
                    run.expect(ps or len(sizes) == 1, "without a part size there is one part", got=sizes)
                    ok, err = False, None
                    for perm in itertools.permutations(groups[zs]):
                        try:
                            compare(run, tm, data, [m for ms in perm for m in ms], gopt[zs], "merged export")
                            ok = True
                            break
                        except Exception as e:
                            err = err or e
                    if not ok:
                        raise err
                for x in S.infoset_lst:
                    zs = tuple(sorted(z for el, k in x.formula_dict.items() for z in [SYMBOLS.index(el) + 1] * int(k)))
                    run.expect(zs in groups, "formula_dict of a merged set names a composition that was not read", got={k: int(v) for k, v in x.formula_dict.items()})
                    run.expect(x.num_frames == sum(len(m) for m in groups[zs]), "frames of a merged set", got=x.num_frames)
                run.validated()


def explore(ctx):
    cases = []
    nfs = range(1, 13) if ctx.thorough else range(1, 8)
    parts = [0] + list(range(1, 14 if ctx.thorough else 9))
    for nf in nfs:
        for n in (1, 2, 3):
            for opt in range(8):
                orders = [None, (3, 8, 14), (14, 8, 3), (92, 14, 3, 8)] if nf <= 3 and n != 2 else [None]
                cases.append(dict(k="one", nf=nf, n=n, opt=opt, parts=parts, orders=orders))
    for nf, n, opt, ps in ((130, 1, 7, [0, 1, 7, 64, 100, 129, 130, 1000]), (101, 2, 0, [10, 100, 50]), (23, 3, 3, [1, 2, 10, 22, 23]), (3, 120, 7, [0, 2]), (2, 35, 7, [1, 5])):
        cases.insert(0, dict(k="one", nf=nf, n=n, opt=opt, parts=ps, orders=[None]))
    cases.insert(0, dict(k="one", nf=1003, n=1, opt=0, parts=[1, 2], orders=[None]))
    for os_ in itertools.product(range(8), repeat=2):        # trajectories that carry different optional quantities
        for cs in (("LiSi", "SiLi"), ("LiSi", "Fe"), ("Si2", "Si2")):
            cases.append(dict(k="merge", sets=list(zip(cs, (2, 1))), opt=os_[0], opts=list(os_), parts=[0, 1]))
    for os_ in ((7, 0, 7), (7, 7, 1), (2, 7, 6), (4, 4, 5), (0, 7, 3), (6, 3, 5)):
        cases.append(dict(k="merge", sets=[("LiSi", 1), ("SiLi", 2), ("LiSi", 3)], opt=os_[0], opts=list(os_), parts=[0, 2]))
    for zero in ("first", "all", "rest"):
        for nf in (1, 2, 3):
            for opt in range(8):
                cases.append(dict(k="one", nf=nf, n=3, opt=opt, parts=[0, 1, 2], orders=[None], zero=zero))
        for opt in (1, 2, 4, 7):
            cases.append(dict(k="merge", sets=[("LiSi", 2), ("SiLi", 1), ("Fe", 2)], opt=opt, parts=[0, 2], zero=zero))
    for opt in (0, 7):
        for cs in itertools.product(("Li2Si", "LiSi2"), repeat=3):
            cases.append(dict(k="merge", sets=list(zip(cs, (1, 2, 3))), opt=opt, parts=[0, 2]))
    comps = list(COMP)[:5]
    sizes = [1, 2, 3]
    for k in ((2, 3, 4) if ctx.thorough else (2, 3)):
        for cs in itertools.product(comps, repeat=k):
            for fs in ([tuple((i * 2 + j) % 3 + 1 for i in range(k)) for j in range(3)]):
                for opt in ((0, 7) if k < 4 else (7,)):
                    cases.append(dict(k="merge", sets=list(zip(cs, fs)), opt=opt, parts=[0, 1, 2, 4]))
    for opt in range(8):
        cases.append(dict(k="merge", sets=[("LiSi", 2), ("Fe", 3), ("SiLi", 1)], opt=opt, parts=parts))
    ctx.run_cases(cases, case)
