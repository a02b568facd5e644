import itertools, os
import numpy as np
from .pyc import Scratch, SYMBOLS
from . import c02, c04, schedpool
PROPERTY = "C06"
TECHNIQUE = "explicit-state exploration of all selection/export histories of the real collection class over a list model"
RULE = "every sequence of {integer index, slice, index list} selections up to the depth, followed by both exports, on collections read from real trajectories; the model is the list of frame numbers"
BOUNDS = {"quick": "1..4 frames x 2 atoms counts x virial/atomic-energy present or not; selections depth 2; set sizes 1..5; some collections of 11..120 frames and 30 atoms; cpu counts 1..3; parallel exports of 2..3 frames under all schedules of 2..3 worker processes with up to 2 preemptions at file-system operations and all delivery orders; quantities zero in some or all frames or for single atoms",
          "thorough": "1..5 frames, selections depth 3"}


def write(path, nf, n, opt, zero=None):
    ms = []
    for f in range(nf):
        m = c04.frame_model(n, f)
        m["z"] = ([14, 3, 14] * 10)[:n]
        m["lat"] = np.diag([3.0 + 0.25 * f, 3.5, 4.0]) + 0.1 * f
        ms.append(m)
    if zero == "atom":           # single atoms and components that are exactly zero
        for f, m in enumerate(ms):
            m["eatom"][f % n] = 0.0
            m["force"][f % n] = 0.0
            m["vir"][f % 3] = 0.0
    else:
        c04.zeroed(ms, zero)
    with open(path, "w") as fh:
        for m in ms:
            fh.write(c02.text(m, ["force"] + (["eatom"] if opt & 2 else []), "asis", "E", opt & 1, 0, "md") + " " + "-" * 49 + "\n")
    return ms


def same(run, s, m, n, opt, what):
    run.expect([x.Z for x in s.species] == m["z"], what + ": species")
    run.close(s.lattice.matrix, m["lat"], 1e-9, what + ": lattice")
    run.close(s.frac_coords, m["pos"], 1e-9, what + ": coordinates")
    run.close(s.get_atomic_force(), m["force"], 1e-9, what + ": forces")


def check_coll(run, c, ms, sel, opt, what):
    n = len(ms[0]["z"])
    run.expect(len(c) == len(sel) and c.num_structures == len(sel) and len(c.structures_lst) == len(sel), what + ": size", got=len(c), want=len(sel))
    for s, i in zip(c.structures_lst, sel):
        same(run, s, ms[i], n, opt, what + ": frame %d" % i)
    for k, a in enumerate((c.total_energys_array, c.potential_energys_array, c.kinetic_energys_array)):
        run.close(np.asarray(a).reshape(-1), [ms[i]["e"][k] for i in sel], 1e-9, what + ": energies")
    if opt & 1:
        run.close(np.asarray(c.virial_tensors_array).reshape(len(sel), 9), np.array([ms[i]["vir"].reshape(-1) for i in sel]), 1e-9, what + ": virials")
    it = [[float(e) for e in np.asarray(x.total_energys_array).reshape(-1)] for x in itertools.islice(iter(c), len(sel) + 2)]
    run.expect(len(it) == len(sel), what + ": iterating does not end after the last frame", got=len(it), want=len(sel))
    run.close(np.array(it).reshape(-1), [ms[i]["e"][0] for i in sel], 1e-9, what + ": frames met when iterating")
    for i in (len(sel), -len(sel) - 1):
        try:
            c[i]
        except IndexError:
            continue
        run.expect(False, what + ": index %d of %d frames is accepted" % (i, len(sel)))
    run.expect(c.num_atoms == n and dict(c.an2na) == {z: ms[0]["z"].count(z) for z in ms[0]["z"]} and sorted(c.atomic_numbers_lst) == sorted(set(ms[0]["z"])), what + ": composition")


def check_to(run, d, ms, sel, size, opt):
    n = len(ms[0]["z"])
    tm = [l.strip() for l in open(os.path.join(d, "type_map.raw")) if l.strip()]
    ty = [int(l) for l in open(os.path.join(d, "type.raw")) if l.strip()]
    run.expect(all(0 <= t < len(tm) for t in ty) and [tm[t] for t in ty] == [SYMBOLS[z - 1] for z in ms[0]["z"]], "type.raw/type_map.raw do not decode to the elements", tm=tm, ty=ty)
    sets = sorted(x for x in os.listdir(d) if x.startswith("set."))
    nset = -(-len(sel) // size)
    run.expect(sets == ["set.%03d" % i for i in range(nset)] and sorted(os.listdir(d)) == sets + ["type.raw", "type_map.raw"], "set directories", got=sorted(os.listdir(d)))
    want = {"cell": [ms[i]["lat"].reshape(-1) for i in sel], "atom_coord": [(ms[i]["pos"] @ ms[i]["lat"]).reshape(-1) for i in sel],
            "tot_energy": [[ms[i]["e"][0]] for i in sel], "atom_force": [ms[i]["force"].reshape(-1) for i in sel]}
    if opt & 1:
        want["virial"] = [ms[i]["vir"].reshape(-1) for i in sel]
    if opt & 2:
        want["atom_energy"] = [ms[i]["eatom"][:, 0] for i in sel]
    for k in ("virial", "atom_energy"):     # a quantity that is zero in every frame may be left out, but only as a whole
        if k in want and not np.any(want[k]) and not any(os.path.exists(os.path.join(d, s, k + ".npy")) for s in sets):
            del want[k]
    for q, s in enumerate(sets):
        run.expect(sorted(os.listdir(os.path.join(d, s))) == sorted(k + ".npy" for k in want), "arrays in a set", got=sorted(os.listdir(os.path.join(d, s))))
    for k in want:
        ps = [np.load(os.path.join(d, s, k + ".npy")) for s in sets]
        run.expect(all(p.shape[0] == size for p in ps[:-1]), "set size", got=[p.shape for p in ps])
        run.close(np.concatenate(ps, axis=0), np.array(want[k]), 1e-9, "exported " + k)


def check_save(run, d, ms, sel, opt, sc, cur):
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    dirs = sorted(os.listdir(d))
    w = len(str(len(sel)))
    run.expect(dirs == ["%0*d" % (w, i) for i in range(len(sel))], "one directory per frame", got=dirs)
    for x, i in zip(dirs, sel):
        p = os.path.join(d, x)
        L = lambda f: np.load(os.path.join(p, f + ".npy"))
        s = DStructure.from_file(os.path.join(p, "atom.config"), "pwmat")
        run.expect([a.Z for a in s.species] == ms[i]["z"], "saved atom.config: species")
        run.close(s.lattice.matrix, ms[i]["lat"], 1e-5, "saved atom.config: lattice"); run.close(s.frac_coords, ms[i]["pos"], 1e-5, "saved atom.config: coordinates")
        run.close(L("box"), ms[i]["lat"], 1e-9, "saved box"); run.close(L("coord"), ms[i]["pos"] @ ms[i]["lat"], 1e-9, "saved coord")
        run.close(L("energy"), ms[i]["e"], 1e-9, "saved energy"); run.close(L("atomic_force"), ms[i]["force"], 1e-9, "saved force")
        if opt & 2:
            run.close(L("atomic_energy"), ms[i]["eatom"][:, 0], 1e-9, "saved atomic energy")
        run.expect(os.path.exists(os.path.join(p, "virial.npy")) == bool(opt & 1), "virial file present exactly when there are virials")
        if opt & 1:
            run.close(L("virial"), ms[i]["vir"], 1e-9, "saved virial")
        run.expect([int(z) for z in L("atomic_number")] == list(dict.fromkeys(ms[i]["z"])), "saved atomic numbers", got=L("atomic_number").tolist())
        nb = StructureNeighborsDescriptor.create("v1", structure=cur.structures_lst[dirs.index(x)], scaling_matrix=sc)
        for f, t in (("nbrs_atomic_numbers", nb.key_nbr_atomic_numbers), ("nbrs_distances", nb.key_nbr_distances), ("nbrs_coords", nb.key_nbr_coords)):
            run.expect(L(f).shape == np.asarray(t).shape, "saved %s: shape" % f, got=L(f).shape, want=np.asarray(t).shape)
            run.close(L(f), t, 1e-9, "saved %s is not the table of the frame" % f)
        d1 = L("nbrs_distances")[:, 1:]
        run.expect(d1.shape[0] == len(ms[i]["z"]), "neighbour table rows")
        # nearest neighbour distance of each centre (rows ordered by atomic number) by brute force
        from .pyc import images
        order = sorted(range(len(ms[i]["z"])), key=lambda a: ms[i]["z"][a])
        im = images(ms[i]["lat"], ms[i]["pos"], 6.0)
        run.close(d1[:, 0], [min(t[4] for t in im if t[0] == a) for a in order], 1e-6, "saved neighbour table is not that of the frame")


def select(c, sel, op):
    from matersdk.data.struct_collection import StructCollection
    if op[0] == "i":
        return c[op[1]], [sel[op[1]]]
    if op[0] == "s":
        s = slice(*op[1:])
        return c[s], sel[s]
    return StructCollection.from_indices(c, list(op[1])), [sel[i] for i in op[1]]


def ops_for(n):
    o = [("i", i) for i in range(n)] + [("i", -1)]
    o += [("s", a, b, None) for a in range(n) for b in range(a + 1, n + 1)] + [("s", None, None, 2), ("s", None, None, -1), ("s", -1, None, None)]
    for k in (1, 2, min(3, n)):
        o += [("l", (-1,)), ("l", (-1, 0)), ("l", (0, -n))] if k == 1 else []
        o += [("l", t) for t in itertools.product(range(n), repeat=k)] if n <= 3 or k < 3 else [("l", t) for t in itertools.permutations(range(n), k)]
    return list(dict.fromkeys(o))


def case(c, run):
    from matersdk.data.struct_collection import StructCollection
    from matersdk.io.pwmat.output.movement import Movement
    with Scratch() as d:
        p = os.path.join(d, "MOVEMENT")
        ms = write(p, c["nf"], c["n"], c["opt"], c.get("zero"))
        real = os.cpu_count
        os.cpu_count = lambda: c.get("cpu", 3)
        try:
            base = StructCollection.from_trajectory_s(Movement(p))
            sel0 = list(range(c["nf"]))
            check_coll(run, base, ms, sel0, c["opt"], "collection")
            if c["k"] == "sched":
                sched(run, c, d, base, ms, sel0)
                return
            if c["k"] == "save":
                o = os.path.join(d, "save")
                cur, sel = (base, sel0) if c["op"] is None else select(base, sel0, c["op"])
                for _ in range(2):   # saving twice into the same place must not change the outcome
                    sc = c.get("sc", [3, 3, 3])
                    cur.save_all_info(o, sc)
                    check_save(run, o, ms, sel, c["opt"], sc, cur)
                    run.step(); run.validated()
                run.state(("save", c["nf"], c["n"], c["opt"], c["op"]))
                from .pyc import images
                for rcut in (3.21, 4.13):
                    got = cur.get_max_num_nbrs_real(rcut, [5, 5, 5])
                    per = []
                    el = {"Si": 0, "Li": 0, "O": 0}
                    for i in sel:
                        im = images(ms[i]["lat"], ms[i]["pos"], rcut)
                        for a in range(c["n"]):
                            per.append(sum(t[0] == a for t in im))
                            for e, z in (("Si", 14), ("Li", 3), ("O", 8)):
                                el[e] = max(el[e], sum(t[0] == a and ms[i]["z"][t[1]] == z for t in im))
                    run.expect(int(got) == max(per), "largest neighbour count over the collection", got=int(got), want=max(per))
                    if c["op"] is None:
                        g3 = Movement(p).get_max_num_nbrs_real(rcut, [5, 5, 5])
                        run.expect(int(g3) == max(per), "largest neighbour count over the trajectory", got=int(g3), want=max(per))
                    g2 = cur.get_max_num_nbrs_real_element(rcut, ["Si", "Li", "O"], [5, 5, 5])
                    run.expect({k: int(v) for k, v in g2.items()} == el, "largest neighbour count per element over the collection", got={k: int(v) for k, v in g2.items()}, want=el)
                return
            for seq in seqs(c):
                cur, sel = base, sel0
                for op in seq:
                    cur, sel = select(cur, sel, op)
                    run.step()
                    check_coll(run, cur, ms, sel, c["opt"], "after %r" % (seq,))
                run.state((c["nf"], c["n"], c["opt"], tuple(sel)))
                check_coll(run, base, ms, sel0, c["opt"], "source collection after a selection")
                for size in c["sizes"]:
                    o = os.path.join(d, "out")      # the same directory again and again: an export replaces the previous one
                    cur.to(o, size)
                    check_to(run, o, ms, sel, size, c["opt"])
                    run.step()
                run.validated()
        finally:
            os.cpu_count = real


def sched(run, c, d, base, ms, sel0):
    """every schedule of the worker processes"""
    from .pyc import images
    cur, sel = (base, sel0) if c["op"] is None else select(base, sel0, c["op"])
    rcut, count, el = 3.21, [], {"Si": 0, "Li": 0}
    for i in sel:
        im = images(ms[i]["lat"], ms[i]["pos"], rcut)
        for a in range(c["n"]):
            count.append(sum(t[0] == a for t in im))
            for e, z in (("Si", 14), ("Li", 3)):
                el[e] = max(el[e], sum(t[0] == a and ms[i]["z"][t[1]] == z for t in im))
    k = [0]

    def save():
        k[0] += 1
        o = os.path.join(d, "s%d" % k[0])
        cur.save_all_info(o, [3, 3, 3])
        check_save(run, o, ms, sel, c["opt"], [3, 3, 3], cur)
        run.validated()

    def largest():
        got = cur.get_max_num_nbrs_real(rcut, [5, 5, 5])
        run.expect(int(got) == max(count), "largest neighbour count over the collection", got=int(got), want=max(count))
        run.validated()

    def element():
        g2 = cur.get_max_num_nbrs_real_element(rcut, ["Si", "Li"], [5, 5, 5])
        run.expect({k: int(v) for k, v in g2.items()} == el, "largest neighbour count per element over the collection", got={k: int(v) for k, v in g2.items()}, want=el)
        run.validated()
    for body, bound in ((save, c["bound"]), (largest, 0), (element, 0)):
        n, steps = schedpool.explore(body, d, c["w"], bound)
        run.step(steps)
        for q in range(n):
            run.state(("sched", body.__name__, c["nf"], c["n"], c["w"], str(c["op"]), q))


def seqs(c):
    op = c["head"]
    if op is None:
        yield []
        return
    yield [op]
    k = {"i": lambda: 1, "s": lambda: len(range(c["nf"])[slice(*op[1:])]), "l": lambda: len(op[1])}[op[0]]()
    if c["depth"] >= 2 and k > 0:
        for op2 in ops_for(k):
            yield [op, op2]


def explore(ctx):
    cases = []
    for nf in range(1, 6 if ctx.thorough else 5):
        for n, opt in ((1, 0), (2, 3), (3, 1), (3, 2), (2, 0)):
            small = nf <= 2 or opt == 3 or ctx.thorough
            sizes = [1, 2, 3, 5] if small else [2, 3]
            cases.append(dict(k="sel", nf=nf, n=n, opt=opt, head=None, sizes=[1, 2, 3, 4, 5], depth=0))
            for op in ops_for(nf):
                cases.append(dict(k="sel", nf=nf, n=n, opt=opt, head=op, sizes=sizes if nf <= 3 else [2], depth=2 if (nf <= 3 or ctx.thorough) else 1))
    for nf, n, opt, ops in ((120, 1, 3, [None, ("s", 90, 120, None), ("l", (105, 3, 100, 3)), ("i", 119), ("s", None, None, -7)]), (11, 3, 1, [None, ("l", tuple(range(10, -1, -1)))]), (2, 30, 3, [None, ("i", 1)])):
        for op in ops:
            cases.insert(0, dict(k="sel", nf=nf, n=n, opt=opt, head=op, sizes=[1, 7, 100, 119, 120, 121] if op is None else [4, 100], depth=1))
    for nf in (1, 2, 3):
        for n, opt in ((1, 0), (2, 3), (3, 1), (3, 2)):
            for op in [None, ("i", nf - 1), ("l", (0,)), ("l", tuple(reversed(range(nf))))]:
                cases.append(dict(k="save", nf=nf, n=n, opt=opt, op=op))
    for zero in ("first", "all", "rest", "atom"):
        for nf in (1, 2, 3):
            for n, opt in ((1, 3), (3, 1), (3, 2), (2, 3)):
                for op in [None] + [("i", k) for k in range(nf)]:
                    cases.append(dict(k="sel", nf=nf, n=n, opt=opt, head=op, sizes=[1, 2, 3], depth=1, zero=zero))
        cases.append(dict(k="save", nf=2, n=3, opt=3, op=None, zero=zero))
    for sc in ([3, 5, 3], [5, 3, 5], [5, 5, 5]):
        cases.append(dict(k="save", nf=2, n=2, opt=3, op=None, sc=sc))
    for nf in (9, 10):
        cases.append(dict(k="save", nf=nf, n=1, opt=1, op=None))
    for nf, w, bound, op in ((2, 2, 2, None), (3, 2, 1, None), (3, 3, 0, ("l", (2, 0, 1))), (2, 2, 1, ("l", (1, 1)))):
        cases.insert(0, dict(k="sched", nf=nf, n=2, opt=3, op=op, w=w, bound=bound + 1 if ctx.thorough and nf < 3 else bound))
    for cpu in (1, 2):
        cases.append(dict(k="save", nf=2, n=2, opt=3, op=None, cpu=cpu))
    cases.append(dict(k="save", nf=11, n=1, opt=3, op=None))
    ctx.run_cases(cases, case)
