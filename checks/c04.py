import itertools, os
import numpy as np
from .pyc import Scratch
from . import c02
PROPERTY = "C04"
TECHNIQUE = "exhaustive enumeration of trajectories (frames x atoms x optional sections x per-frame layout) and of all access sequences on the real extractor, against the generating model"
RULE = "every value of every frame is coded by frame, atom and component; all access sequences of {frame i, frame string i, all frames, labels} up to the depth"
BOUNDS = {"quick": "1..4 frames (and 11) x 1..3 atoms x all 8 optional-quantity subsets x 4 per-frame layouts x 2 separators x 4 letter cases, 4 kinds of header line; quantities that are exactly zero in the first / the other / all frames; some of 100+ frames and of 130 atoms; access depth 3; 4 and 5 frames with velocities / without forces in every subset of the frames; 1024 and 10000 atoms",
          "thorough": "1..6 frames (and 11) and access depth 4"}


def frame_model(n, f):
    m = c02.model(n)
    for k in ("pos", "force", "velocity", "magnetic", "eatom"):
        m[k] = m[k] + (0.001 if k == "pos" else 100.0) * f
    m["lat"] = m["lat"] + 0.125 * f
    m["vir"] = m["vir"] - 7.0 * f
    m["e"] = tuple(x - 3.5 * f for x in m["e"])
    if f % 2:
        m["z"] = m["z"][::-1]
    return m


def zeroed(ms, which, keys=("vir", "eatom", "magnetic", "force")):
    """the same frames with the optional quantities exactly zero in the frames selected"""
    for f, m in enumerate(ms):
        if which == "all" or (which == "first" and f == 0) or (which == "rest" and f):
            for k in keys:
                m[k] = m[k] * 0.0
    return ms


def layouts(c, nf):
    """per-frame section orders; every frame carries the same quantities, velocity may come and go"""
    q = [s for s, b in (("eatom", c["opt"] & 2), ("magnetic", c["opt"] & 4)) if b]
    out = []
    for f in range(nf):
        if c["lay"] == "first_short":      # as in real MOVEMENTs: the first frame has no velocity
            o = ["force"] + (["velocity"] if f else []) + q
        elif c["lay"] == "alt":
            o = (q[::-1] + ["force"]) if f % 2 else (["force"] + q)
        elif isinstance(c["lay"], int):    # bit f: frame f has velocities; bit f+8: it has no forces
            o = ([] if c["lay"] >> (f + 8) & 1 else ["force"]) + (["velocity"] if c["lay"] >> f & 1 else []) + q
        elif c["lay"] == "noforce_last":
            o = q + (["force"] if f + 1 < nf else [])
        else:
            o = ["velocity"] + q[::-1] + ["force"]
        out.append(o)
    return out


def want_list(c, m, o, n):
    w = [m["lat"].reshape(-1), np.array(m["z"]), m["pos"].reshape(-1), np.array([m["e"][0]]),
         (m["force"] if "force" in o else np.zeros((n, 3))).reshape(-1)]
    l = ["box", "types", "coords", "etot", "fatoms"]
    if c["opt"] & 1:
        w.append(m["vir"].reshape(-1)); l.append("virial")
    if c["opt"] & 2:
        w.append(m["eatom"][:, 0]); l.append("eatoms")
    if c["opt"] & 4:
        w.append(m["magnetic"].reshape(-1)); l.append("magmoms")
    return w, l


def build(c):
    n, nf = c["n"], c["nf"]
    ms = zeroed([frame_model(n, f) for f in range(nf)], c.get("zero"))
    lo = layouts(c, nf)
    sep = {"plain": " " + "-" * 49, "lead": "-" * 38, "tail": "   " + "-" * 60 + "   "}[c["sep"]]
    chunks = [c02.text(ms[f], lo[f], c["cs"], "E", c["opt"] & 1, 0, c.get("hd", "md")) + sep + "\n" for f in range(nf)]
    return ms, lo, chunks


def check_op(run, mv, op, c, ms, lo, chunks):
    n, nf = c["n"], c["nf"]
    w = [want_list(c, ms[f], lo[f], n) for f in range(nf)]
    run.step()
    if op[0] == "frame":
        got = mv.get_frame_info(op[1])
        run.expect(len(got) == len(w[op[1]][0]), "frame %d: %d quantities, expected %d" % (op[1], len(got), len(w[op[1]][0])), case=c)
        for g, x, l in zip(got, *w[op[1]]):
            run.close(np.asarray(g).reshape(-1), x, 1e-9, "frame %d: %s" % (op[1], l), case=c)
    elif op[0] == "str":
        s = mv.get_frame_str(op[1])
        run.expect(s == chunks[op[1]], "frame %d: text is not that of the frame" % op[1], got=s[:300], want=chunks[op[1]][:300])
    elif op[0] == "all":
        got = mv.get_frames_info()
        run.expect(len(got) == len(w[0][0]), "all frames: %d quantities, expected %d" % (len(got), len(w[0][0])), case=c)
        for k, l in enumerate(w[0][1]):
            g = np.asarray(got[k])
            run.expect(g.shape[0] == nf, "all frames: %s has %d frames, trajectory has %d" % (l, g.shape[0], nf), case=c)
            run.close(g.reshape(nf, -1), np.array([w[f][0][k] for f in range(nf)]).reshape(nf, -1), 1e-9, "all frames: " + l, case=c)
    elif op[0] == "labels":
        run.expect(list(mv.get_info_labels()) == w[0][1], "labels", got=list(mv.get_info_labels()), want=w[0][1])
    elif op[0] == "num":
        run.expect(mv.get_num_frames() == nf, "number of frames", got=mv.get_num_frames(), want=nf)
        run.expect(list(mv.get_chunksizes()) == [x.count("\n") for x in chunks], "chunk sizes", got=list(mv.get_chunksizes()))
        run.expect(list(mv.get_chunkslices()) == list(np.cumsum([0] + [x.count("\n") for x in chunks])), "chunk slices", got=list(mv.get_chunkslices()))


def movement(run, c, p, ms, lo, chunks):
    """the structure-level trajectory reader must describe the same frames"""
    from matersdk.io.pwmat.output.movement import Movement
    mv = Movement(p)
    n, nf = c["n"], c["nf"]

    def same(s, f, what):
        m = ms[f]
        run.expect([x.Z for x in s.species] == m["z"], what + ": species of frame %d" % f, case=c)
        run.close(s.lattice.matrix, m["lat"], 1e-9, what + ": lattice of frame %d" % f)
        run.close(s.frac_coords, m["pos"], 1e-9, what + ": coordinates of frame %d" % f)
        run.close(s.get_atomic_force(), m["force"] if "force" in lo[f] else np.zeros((n, 3)), 1e-9, what + ": forces of frame %d" % f)
        run.close(s.get_atomic_energy(), m["eatom"][:, 0] if c["opt"] & 2 else np.zeros(n), 1e-9, what + ": atomic energies of frame %d" % f)
    a = mv.get_all_frame_structures()
    st, et, ep, ek, vi = mv.get_all_frame_structures_info()
    run.expect(len(a) == nf and len(st) == nf, "Movement: number of frames", got=(len(a), len(st)), want=nf)
    for k, got in enumerate((et, ep, ek)):
        run.close(got, [m["e"][k] for m in ms], 1e-9, "Movement: energies")
    if c["opt"] & 1:
        run.close(vi, np.array([m["vir"] for m in ms]), 1e-9, "Movement: virials")
    else:
        run.expect(np.asarray(vi).size == 0, "Movement: virial although there is none")
    for f in reversed(range(nf)):
        same(a[f], f, "Movement all"); same(st[f], f, "Movement info")
        same(mv.get_frame_structure(f), f, "Movement frame")
        run.close(list(mv.get_frame_energy(f)), ms[f]["e"], 1e-9, "Movement: energy of frame %d" % f)
        run.close(mv.get_frame_virial(f), ms[f]["vir"] if c["opt"] & 1 else np.zeros((3, 3)), 1e-9, "Movement: virial of frame %d" % f)
        run.close(mv.get_frame_volume(f), abs(np.linalg.det(ms[f]["lat"])), 1e-9, "Movement: volume of frame %d" % f)
    run.step(3 + 4 * nf); run.validated()


def case(c, run):
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    ms, lo, chunks = build(c)
    with Scratch() as d:
        p = os.path.join(d, "MOVEMENT")
        with open(p, "w") as f:
            f.write("".join(chunks))
        if "depth" in c:
            ops = [("frame", i) for i in range(c["nf"])] + [("str", c["nf"] - 1), ("all",), ("labels",), ("num",)]
            for seq in itertools.product(ops, repeat=c["depth"]):
                mv = MVExtractor(p)
                for op in seq:
                    check_op(run, mv, op, c, ms, lo, chunks)
                    run.state((c["nf"], c["n"], c["opt"], op))
                run.validated()
        else:
            mv = MVExtractor(p)
            for op in [("num",), ("labels",), ("all",)] + [("frame", i) for i in reversed(range(c["nf"]))] + [("str", i) for i in range(c["nf"])] + [("all",)]:
                check_op(run, mv, op, c, ms, lo, chunks)
                run.state(sorted(c.items()) + [op])
            if c["sep"] != "lead":
                movement(run, c, p, ms, lo, chunks)
            run.validated()
        run.expect(open(p).read() == "".join(chunks), "the trajectory file was modified")


def explore(ctx):
    cases = []
    for nf in ((1, 2, 3, 4, 5, 6, 11) if ctx.thorough else (1, 2, 3, 4, 11)):
        for n in (1, 2, 3):
            for opt in range(8):
                for lay in ("first_short", "alt", "noforce_last", "vel"):
                    for sep in ("plain", "lead", "tail"):
                        for cs in c02.CASE:
                            cases.append(dict(nf=nf, n=n, opt=opt, lay=lay, sep=sep, cs=cs))
    for hd in ("mdn", "relax", "old"):
        for nf in (1, 2, 3):
            for opt in range(8):
                for cs in c02.CASE:
                    cases.append(dict(nf=nf, n=2, opt=opt, lay="first_short", sep="plain", cs=cs, hd=hd))
    for zero in ("first", "all", "rest"):
        for nf in (1, 2, 3):
            for opt in range(8):
                for n in (1, 3):
                    cases.append(dict(nf=nf, n=n, opt=opt, lay="alt", sep="plain", cs="asis", zero=zero))
    for nf, n in ((130, 1), (101, 2), (2, 130), (3, 64), (12, 33)):
        for opt in (0, 7, 2):
            cases.insert(0, dict(nf=nf, n=n, opt=opt, lay="first_short", sep="plain", cs="asis"))
    for opt in range(8):                     # frames of different lengths in every pattern
        for nf in ((4, 5, 6) if ctx.thorough else (4, 5)):
            for v in range(2 ** nf):
                cases.append(dict(nf=nf, n=2, opt=opt, lay=v, sep="plain", cs="asis"))
                if v:
                    cases.append(dict(nf=nf, n=2, opt=opt, lay=v << 8, sep="plain", cs="asis"))
    for nf, n, opt in ((2, 1024, 7), (1, 10000, 0)):
        cases.insert(0, dict(nf=nf, n=n, opt=opt, lay="first_short", sep="plain", cs="asis"))
    for opt in range(8):
        for nf in (1, 2, 3):
            cases.append(dict(nf=nf, n=2, opt=opt, lay="first_short", sep="plain", cs="asis", depth=4 if ctx.thorough else 3))
    ctx.run_cases(cases, case)
