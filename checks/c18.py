import itertools, os
from .pyc import Scratch
PROPERTY = "C18"
TECHNIQUE = "exhaustive enumeration of all option combinations and of write histories over the real generators; every generated file is parsed by an independent model of the consuming program and compared with the settings asked for"
RULE = "every combination of the option alphabets of Job, GenVext and DosInput; every order of two or three writes over shared or distinct files; a state is one written file"
BOUNDS = {"quick": "Job: 2 alternatives + unset per option (3^7) x 5 commands and file locations; GenVext: 3 types x 5 centres x 4^k details x T/F; DosInput: 2x2x6x4x6; all pairs of writes to the same file", "thorough": "the same with one more value per alphabet and all triples of writes"}
OPT = ["partition", "job-name", "nodes", "ntasks-per-node", "threads-per-core", "gres", "gpus-per-task"]
ARG = ["partition", "name", "num_nodes", "num_tasks_per_node", "threads_per_core", "num_gpus", "num_gpus_per_task"]


def slurm(text, notes=False):
    """what sbatch takes from a script: the directives before the first command, and the commands"""
    lines = text.splitlines()
    opts, cmds = [], []
    if not lines or not lines[0].startswith("#!"):
        return None
    for l in lines[1:]:
        if l.startswith("#SBATCH"):
            if cmds:
                opts.append(("after a command", l))
                continue
            for w in l[len("#SBATCH"):].split():
                if not w.startswith("--") or "=" not in w:
                    opts.append(("garbled", w))
                else:
                    opts.append(tuple(w[2:].split("=", 1)))
        elif l.strip() and not l.startswith("#"):
            cmds.append(l)
    # sbatch reads no directives after the first command; such a line there is a note
    opts = [o for o in opts if o[0] != "after a command" or not notes]
    return opts, cmds


def want_job(v, cmd):
    out = []
    for k, x in zip(OPT, v):
        if x is not None:
            out.append((k, "gpu:%s" % x if k == "gres" else str(x)))
    return sorted(out), [l for l in (cmd or "").splitlines() if l.strip() and not l.startswith("#")]


def job(c, run):
    from matersdk.hpc.slurm.job import Job
    cmd = c["cmd"]

    class Cmd(Job):
        def attach_command(self):
            return cmd
    with Scratch() as d:
        old = os.getcwd()
        try:
            os.chdir(d)
            os.mkdir("sub")
            for v in c["vals"]:
                j = (Cmd if cmd is not None else Job)(**dict(zip(ARG, v)))
                j.to(c["file"] if c["file"] != "abs" else os.path.join(d, "x.sh"))
                f = os.path.join(d, c["file"] if c["file"] != "abs" else "x.sh")
                r = slurm(open(f, encoding="utf-8").read(), "#SBATCH in a note" in (cmd or ""))
                run.step(); run.state(("job", tuple(v), cmd))
                run.expect(r is not None, "job script does not start with an interpreter line")
                o, k = want_job(v, cmd)
                run.expect(sorted(r[0]) == o, "settings of the job script for %s" % (v,), got=sorted(r[0]), want=o)
                run.expect(r[1] == k, "commands of the job script", got=r[1], want=k)
                there = sorted(os.path.relpath(os.path.join(b, x), d) for b, _, fs in os.walk(d) for x in fs)
                run.expect(there == [os.path.relpath(f, d)], "other files were written", got=there)
                run.validated()
        finally:
            os.chdir(old)


def vext_parse(text):
    out = []
    for l in text.splitlines():
        if l.strip():
            if "=" not in l:
                return None
            a, b = l.split("=", 1)
            out.append((a.strip().upper(), b.split("#")[0].split()))
    return out


def vext(c, run):
    from matersdk.io.pwmat.input.gen_vext import GenVext
    with Scratch() as d:
        f = os.path.join(d, "gen.vext")
        for cen, det, add in c["vals"]:
            GenVext(list(cen), c["type"], add, *det).to(f)
            r = vext_parse(open(f).read())
            what = "gen.vext type %d centre %s detail %s add %s" % (c["type"], cen, det, add)
            run.step(); run.state(("vext", c["type"], cen, det, add))
            run.expect(r is not None and sorted(k for k, _ in r) == ["ADD_VR", "VR_CENTER", "VR_DETAIL", "VR_TYPE"], what + ": keys", got=r)
            r = dict(r)
            run.expect([float(x) for x in r["VR_CENTER"]] == list(cen), what + ": centre", got=r["VR_CENTER"])
            run.expect(r["VR_TYPE"] == [str(c["type"])], what + ": type", got=r["VR_TYPE"])
            run.expect([float(x) for x in r["VR_DETAIL"]] == list(det), what + ": detail", got=r["VR_DETAIL"])
            run.expect(r["ADD_VR"] == ["T" if add else "F"], what + ": add", got=r["ADD_VR"])
            run.validated()
        for bad in (0, 4, -1):
            try:
                GenVext([0.5] * 3, bad, True, 1.0)
            except (AssertionError, ValueError):
                continue
            run.expect(False, "a potential of unknown type %d was accepted" % bad)


def dos_parse(text):
    return [l.split("#")[0].replace(",", " ").split() for l in text.splitlines() if l.strip() and not l.startswith("#")]


def dos_check(run, text, v, what):
    a, m, s, n, g = v
    r = dos_parse(text)
    run.expect(len(r) in (4, 5), what + ": number of lines", got=len(r))
    run.expect(r[0] == [str(a)], what + ": atom selection", got=r[0])
    run.expect(r[1] == [str(m)], what + ": method", got=r[1])
    run.expect(len(r[2]) == 2 and abs(float(r[2][0]) - s) <= 5.000001e-6 and r[2][1] == str(n), what + ": smearing and number of energies", got=r[2], want=[s, n])
    run.expect([float(x) for x in r[3]] == [float(x) for x in g], what + ": interpolation grid", got=r[3], want=g)
    if len(r) == 5:
        run.expect(r[4] == ["0"], what + ": last line", got=r[4])


def dos(c, run):
    from matersdk.io.pwmat.input.dos_input import DosInput
    with Scratch() as d:
        f = os.path.join(d, "DOS.input")
        for v in c["vals"]:
            DosInput(mark_atoms=v[0], mark_method=v[1], ismear=v[2], num_energies=v[3], grid_interp=list(v[4])).to(f)
            run.step(); run.state(("dos", v))
            dos_check(run, open(f).read(), v, "DOS.input %s" % (v,))
            run.validated()
        DosInput().to(f)
        dos_check(run, open(f).read(), (0, 0, 0.04, 4000, [6, 6, 6]), "DOS.input with default settings")


def hist(c, run):
    """objects created first, written afterwards in every order to the same or to different files"""
    from matersdk.hpc.slurm.job import Job
    from matersdk.io.pwmat.input.gen_vext import GenVext
    from matersdk.io.pwmat.input.dos_input import DosInput
    J = [("p1", "a-long-name-of-a-job", 12, 34, 56, 78, 90), ("q", "b", 1, 2, 3, 4, 5)]
    V = [((0.5, 0.25, 0.125), 2, True, (1.5, 2.5, 3.5, 4.5, 5.5, 6.5)), ((0, 0, 0), 3, False, (7.0, 8.0))]
    D = [(1, 1, 0.12345, 123456, [10, 11, 12]), (0, 0, 0.1, 5, [1, 2, 3])]
    with Scratch() as d:
        old = os.getcwd()
        try:
            os.chdir(d)
            objs = [Job(*x) for x in J] + [GenVext(list(x[0]), x[1], x[2], *x[3]) for x in V] + [DosInput(*x) for x in D]
            state = {}
            for o, fi in c["seq"]:
                f = "f%d" % fi
                objs[o].to(f)
                state[f] = o
                run.step()
                for g, k in state.items():
                    text = open(os.path.join(d, g)).read()
                    what = "history %s, file %s" % (c["seq"], g)
                    if k < 2:
                        r = slurm(text)
                        run.expect(r is not None and (sorted(r[0]), r[1]) == want_job(J[k], None), what, got=r)
                    elif k < 4:
                        r = dict(vext_parse(text) or [])
                        x = V[k - 2]
                        run.expect([float(y) for y in r["VR_CENTER"]] == list(x[0]) and [float(y) for y in r["VR_DETAIL"]] == list(x[3])
                                   and r["VR_TYPE"] == [str(x[1])] and r["ADD_VR"] == ["FT"[x[2]]], what, got=r)
                    else:
                        dos_check(run, text, D[k - 4], what)
            run.state(("hist", tuple(sorted(state.items())))); run.validated()
        finally:
            os.chdir(old)


def dispatch(c, run):
    dict(job=job, vext=vext, dos=dos, hist=hist)[c["kind"]](c, run)


def chunk(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(ctx):
    T = ctx.thorough
    alph = [["gpu", "3080ti_q", None], ["job1", "a-b.c_2", None], [1, 12, None], [1, 32, None], [1, 2, None], [0, 1, 8, None], [0, 1, 4, None]]
    if not T:
        alph[5], alph[6] = [0, 8, None], [0, 4, None]
    cases = []
    for cmd, f in ((None, "job.slurm"), ("mpirun -np 4 PWmat\n", "job.slurm"), ("module load a b\n# note\nmpirun PWmat | tee out", "abs"),
                   ("\nexport A='{0} %s {b}'\n\n\n  echo \"$A\" \\\n\t\u4f60 | cat\n#SBATCH in a note\nsrun x --nodes=7\n\n", "sub/job.slurm"), ("a", "./.job")):
        cases += [dict(kind="job", cmd=cmd, file=f, vals=v) for v in chunk(list(itertools.product(*alph)), 300)]
    cen = [(0.5, 0.5, 0.5), (0, 0, 0), (0.25, -0.125, 1.0), (1e-7, 0.333333333333, 12345.678901), (1, 0.1, 1e16)]
    dv = [0.0, -0.0512345678, 1e-9, 3] + ([123456.789] if T else [])
    for t, n in ((1, 3), (2, 6), (3, 2)):
        dets = list(itertools.product(dv, repeat=n))
        vals = [(c, d, a) for k, d in enumerate(dets) for c in (cen if n < 6 or T else [cen[k % 5]]) for a in (True, False)]
        cases += [dict(kind="vext", type=t, vals=v) for v in chunk(vals, 500)]
    cases += [dict(kind="job", cmd="x", file="job.slurm", vals=list(itertools.product(*[["p", None]] * 2 + [[0, 1000000, None]] * 5)))]
    sm = [0.0, 0.05, 0.04, 1.5, 0.00001, 12.34567] + ([123.4] if T else [])
    gr = [[6, 6, 6], [1, 2, 3], [10, 200, 3], [8, 1, 1], [1, 1, 8], [12, 12, 4]]
    vals = [(a, m, s, n, tuple(g)) for a in (0, 1) for m in (0, 1) for s in sm for n in (1, 4000, 10000, 12345678901) for g in gr]
    cases += [dict(kind="dos", vals=v) for v in chunk(vals, 50)]
    acts = [(o, f) for o in range(6) for f in range(2)]
    seqs = list(itertools.product(acts, repeat=2)) + (list(itertools.product(acts, repeat=3)) if T else [])
    cases += [dict(kind="hist", seq=s) for s in seqs]
    ctx.run_cases(cases, dispatch)
