"""Shared machinery: bounded exhaustive exploration of the real code.

A check module (checks/cNN.py) provides

    PROPERTY, TECHNIQUE, RULE, BOUNDS    descriptive strings
    explore(ctx)                         performs the exploration

and uses one of the two engines below:

  * ctx.run_cases(cases, fn): every element of `cases` (a finite, fully enumerated
    list) is executed by fn(case, run).  The cases are dealt to forked workers; a
    worker that dies (signal) or hangs is itself a violation, pinned to the case it was on.
  * ctx.run_cxx(exe, ...): a C++ harness compiled from /repo's working tree that
    enumerates its own space, sharded over the cores.

Nothing is sampled; VERIF_SEED is recorded but has no effect on what is explored.
"""
import array, hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MATERSDK_REPO", "/repo")
NPROC = int(os.environ.get("MC_NPROC", 0)) or max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.detail = detail


def h64(obj):
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "little")


def jsonable(o):
    try:
        json.dumps(o)
        return o
    except TypeError:
        if isinstance(o, dict):
            return {str(k): jsonable(v) for k, v in o.items()}
        if isinstance(o, (list, tuple, set)):
            return [jsonable(v) for v in o]
        if hasattr(o, "tolist"):
            return o.tolist()
        return repr(o)


class Run:
    """Handed to a case function: counters and the assertion primitives."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.trace_log = []

    def state(self, key):
        """record a (hashable) abstract state; returns True if new in this worker"""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        self.transitions += n

    def validated(self, n=1):
        self.traces += n

    def expect(self, cond, msg, key=None, **detail):
        if not cond:
            raise Violation(msg, key, detail)

    def close(self, got, want, tol, msg, key=None, **detail):
        import numpy as np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, g.shape, w.shape), key, detail)
        if g.size == 0:
            return
        if not np.all(np.isfinite(g) == np.isfinite(w)):
            raise Violation("%s: non-finite values" % msg, key, dict(detail, got=g.tolist(), want=w.tolist()))
        d = np.abs(g - w)
        bad = d > tol * (1.0 + np.abs(w))
        if bad.any():
            i = int(np.argmax(np.where(bad, d, -1)))
            raise Violation("%s: got %r, expected %r" % (msg, g.flat[i].item(), w.flat[i].item()), key,
                            dict(detail, got=g.tolist() if g.size < 200 else "...", want=w.tolist() if w.size < 200 else "..."))


class Ctx:
    def __init__(self, module, tier, only=None):
        self.m = module
        self.pid = module.PROPERTY
        self.tier = tier
        self.thorough = tier == "thorough"
        self.only = only
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.viol = []          # dicts
        self.notes = {}
        self.exhaustive = True
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="mc_%s_" % self.pid)
        self.known_hit = {}
        self.known = load_known(self.pid)

    # ---- findings --------------------------------------------------------
    def add_violation(self, msg, case=None, key=None, detail=None, kind="violation"):
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit.setdefault(k["key"], 0)
                self.known_hit[k["key"]] += 1
                return
        self.viol.append({"property": self.pid, "kind": kind, "message": msg, "key": key,
                          "case": jsonable(case), "detail": jsonable(detail)})

    # ---- engine 1: Python cases ------------------------------------------
    def run_cases(self, cases, fn, timeout=700, nproc=None, label="", case_timeout=120):
        cases = list(cases)
        if self.only is not None:
            cases = [self.only]
        nproc = min(nproc or NPROC, max(1, len(cases)))
        self.evaluations += len(cases)
        if cases:
            for i in sorted({0, len(cases) // 2, len(cases) - 1}):
                if len(self.samples) < 12:
                    self.samples.append({"engine": label or "cases", "case": jsonable(cases[i])})
        cur = mp.Array("l", [-1] * nproc, lock=False)
        nviol = mp.Value("i", 0)
        nxt = mp.Value("l", 0)
        q = mp.get_context("fork").SimpleQueue()
        procs = []
        outdir = tempfile.mkdtemp(prefix="w_", dir=self.tmp)
        sys.stdout.flush(); sys.stderr.flush()
        for w in range(nproc):
            p = mp.get_context("fork").Process(target=_worker, args=(w, nxt, cases, fn, cur, nviol, outdir, case_timeout))
            p.start()
            procs.append(p)
        deadline = time.time() + timeout
        for w, p in enumerate(procs):
            p.join(max(0.1, deadline - time.time()))
            if p.is_alive():
                p.kill(); p.join()
                self.add_violation("hang: exploration did not finish within %ds" % timeout,
                                   cases[cur[w]] if cur[w] >= 0 else None, kind="hang")
                self.exhaustive = False
                continue
            f = os.path.join(outdir, "w%d.json" % w)
            if p.exitcode != 0 or not os.path.exists(f):
                self.add_violation("the code under test ended the process (exit code %s)" % p.exitcode,
                                   cases[cur[w]] if cur[w] >= 0 else None, kind="crash")
                self.exhaustive = False
                continue
            r = json.load(open(f))
            self.states.update(r["states"])
            self.transitions += r["transitions"]
            self.traces += r["traces"]
            if r.get("stopped"):
                self.exhaustive = False
            for v in r["violations"]:
                self.add_violation(v["message"], v["case"], v["key"], v["detail"], v["kind"])
        shutil.rmtree(outdir, ignore_errors=True)

    # ---- engine 2: C++ harness -------------------------------------------
    def compile(self, name, sources, flags=(), libs=(), asan=True, opt="-O1", std="-std=c++17", incdirs=()):
        exe = os.path.join(self.tmp, name)
        cmd = ["/usr/bin/g++", std, opt, "-g1", "-w", "-fno-unreachable-traps"]
        if asan:
            cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        cmd += ["-I" + os.path.join(VERIF, "cxx"), "-I" + os.path.join(REPO, "source")]
        cmd += ["-I" + d for d in incdirs]
        cmd += list(flags) + ["-o", exe] + list(sources) + list(libs)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            self.add_violation("the harness does not compile against /repo's sources", {"cmd": cmd},
                               detail=p.stdout[-4000:], kind="build")
            return None
        return exe

    def run_cxx(self, exe, args=(), nshard=None, timeout=700, env=None, label=""):
        if exe is None:
            return
        nshard = nshard or NPROC
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:handle_abort=1:allocator_may_return_null=0:abort_on_error=0:exitcode=77:malloc_context_size=4:quarantine_size_mb=32"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
        curf = os.path.join(self.tmp, "cur_" + os.path.basename(exe))
        e["MC_CUR"] = curf
        with open(curf + ".next", "wb") as f:
            f.write(bytes(4096))
        e.update(env or {})
        procs = []
        seen = set()
        for s in range(nshard):
            a = [exe, str(s), str(nshard), self.tier] + list(args)
            if self.only is not None:
                a += ["--only", str(self.only)]
            out = open(os.path.join(self.tmp, "%s.%d.out" % (os.path.basename(exe), s)), "w+")
            err = open(os.path.join(self.tmp, "%s.%d.err" % (os.path.basename(exe), s)), "w+")
            procs.append((subprocess.Popen(a, stdout=out, stderr=err, env=e, cwd=self.tmp), out, err))
        deadline = time.time() + timeout
        for s, (p, out, err) in enumerate(procs):
            hung = False
            try:
                rc = p.wait(max(0.1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                rc, hung = None, True
            out.seek(0); err.seek(0)
            done = False
            for line in out:
                f = line.rstrip("\n").split("\t")
                if f[0] == "VIOL":
                    self.add_violation(f[2], f[3] if len(f) > 3 else None, f[1] or None)
                elif f[0] == "STAT":
                    n = int(f[1])
                    try:    # the same state may have been reached in several shards: count it once
                        a = array.array("Q", open("%s.%d.states" % (curf, s), "rb").read())
                        old = len(seen); seen.update(a); n = len(seen) - old
                    except OSError:
                        pass
                    self.nstates += n; self.transitions += int(f[2]); self.traces += int(f[3]); self.evaluations += int(f[4])
                    done = True
                elif f[0] == "SAMPLE" and len(self.samples) < 12:
                    self.samples.append({"engine": label or os.path.basename(exe), "case": f[1]})
            et = err.read()
            if hung or rc != 0 or not done:
                case = None
                try:
                    case = open("%s.%d" % (curf, s), "rb").read().split(b"\0")[0].decode() or None
                except OSError:
                    pass
                what = "hang" if hung else "crash"
                head = [l for l in et.splitlines() if "ERROR" in l or "runtime error" in l or "Assertion" in l][:3]
                self.add_violation("%s of the code under test (exit %s): %s" % (what, rc, " | ".join(head) or et[-300:]),
                                   case, kind=what, detail=et[-6000:])
                self.exhaustive = False
            out.close(); err.close()

    # ---- finish ----------------------------------------------------------
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        level = getattr(self.m, "LEVEL", "model_checking")
        nstates = len(self.states) + self.nstates
        cov = {
            "states": nstates,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "cases": self.evaluations,
            "samples": self.samples[:12],
            "exhaustive": bool(self.exhaustive and not self.viol),
            "bounds": getattr(self.m, "BOUNDS", {}).get(self.tier, getattr(self.m, "BOUNDS", {})) if isinstance(getattr(self.m, "BOUNDS", {}), dict) else self.m.BOUNDS,
            "rule": getattr(self.m, "RULE", ""),
        }
        cov.update(self.notes)
        ev = {
            "property": self.pid, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level, "coverage": cov,
            "assumptions": getattr(self.m, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
            "known_findings_seen": sum(self.known_hit.values()),
        }
        path = os.path.join(VERIF, "evidence", "%s.json" % self.pid)
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, path)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in self.known:
            if self.known_hit.get(k["key"]):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rdir = os.path.join(VERIF, "evidence", "replay")
        if os.path.isdir(rdir) and self.only is None:
            for f in os.listdir(rdir):
                if f.startswith(self.pid + "-"):
                    os.remove(os.path.join(rdir, f))
        if not self.viol:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs"
                  % (self.pid, nstates, self.transitions, self.traces, time.time() - self.t0))
            return 0
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(self.viol[:5]):
            rp = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print("# %s" % v["message"].replace("\n", " ")[:300])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        print("# %d violation(s) in total" % len(self.viol))
        return 1


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


class _Alarm(Exception):
    pass


def _on_alarm(*a):
    raise _Alarm()


def _worker(w, nxt, cases, fn, cur, nviol, outdir, case_timeout):
    run = Run()
    viols = []
    stopped = False
    devnull = open(os.devnull, "w")
    so = sys.stdout
    signal.signal(signal.SIGALRM, _on_alarm)
    while True:
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(cases):
            break
        if nviol.value >= 20:
            stopped = True
            break
        cur[w] = i
        sys.stdout = devnull
        v = None
        try:
            signal.alarm(case_timeout)
            fn(cases[i], run)
        except Violation as e:
            v = {"message": e.msg, "key": e.key, "detail": e.detail, "kind": "violation"}
        except _Alarm:
            v = {"message": "hang: one case did not finish within %ds" % case_timeout, "key": None, "detail": None, "kind": "hang"}
        except Exception as e:  # the code under test (or its absence) raised
            v = {"message": "unexpected %s: %s" % (type(e).__name__, e), "key": None,
                 "detail": traceback.format_exc()[-4000:], "kind": "exception"}
        finally:
            signal.alarm(0)
            sys.stdout = so
        if v is not None:
            v["case"] = cases[i]
            viols.append(jsonable(v))
            nviol.value += 1
    with open(os.path.join(outdir, "w%d.json.tmp" % w), "w") as f:
        json.dump({"states": list(run.states), "transitions": run.transitions, "traces": run.traces,
                   "violations": viols, "stopped": stopped}, f)
    os.replace(os.path.join(outdir, "w%d.json.tmp" % w), os.path.join(outdir, "w%d.json" % w))
    sys.stdout.flush()
    os._exit(0)
