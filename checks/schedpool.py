"""A stand-in for multiprocessing.Pool whose workers run under a controlled scheduler.

Every worker is a real forked process.  It stops before taking a chunk of tasks, before every file-system
operation (audit events) on the scratch directory and before delivering its results, and goes on only when the scheduler says so.  explore() enumerates
all schedules with at most `bound` preemptions (delivering results in another order costs none) and calls the body once for each of them."""
import multiprocessing
import os
import pickle
import sys
import traceback

REAL = multiprocessing.Pool
EVENTS = ("open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.listdir", "os.scandir", "os.link", "os.symlink", "os.truncate", "os.chdir", "shutil.rmtree", "shutil.move", "shutil.copyfile")


class Schedule:
    """one run: follows `prefix`, then keeps running the current worker; records the alternatives it passed by"""
    def __init__(self, prefix=(), bound=1):
        self.prefix, self.bound = list(prefix), bound
        self.taken, self.alts, self.used = [], [], 0

    def choose(self, cur, enabled, preempt):
        """cur: the running worker; enabled: workers that can go on; preempt: leaving cur counts as a preemption"""
        order = ([cur] if cur in enabled else []) + [w for w in enabled if w != cur]
        k = len(self.taken)
        if k < len(self.prefix):
            w = self.prefix[k]
            if w not in enabled:             # cannot happen for a deterministic body
                w = order[0]
        else:
            w = order[0]
        cost = lambda x: 1 if (preempt and x != cur) else 0
        if k >= len(self.prefix):
            self.alts.append((k, [x for x in order if x != w and self.used + cost(x) <= self.bound]))
        self.used += cost(w)
        self.taken.append(w)
        return w


class State:
    schedule = None
    root = None
    workers = None
    log = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = len(b).to_bytes(8, "little") + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        o = b""
        while len(o) < n:
            x = os.read(fd, n - len(o))
            if not x:
                raise EOFError
            o += x
        return o
    return pickle.loads(take(int.from_bytes(take(8), "little")))


def _child(rd, wr, func, init, initargs):
    quiet = [0]

    def hook(ev, args):
        if ev in EVENTS and not quiet[0] and args and isinstance(args[0], (str, bytes, os.PathLike)) and os.fspath(args[0]) is not None:
            p = os.fsdecode(os.fspath(args[0]))
            if os.path.isabs(p) and not p.startswith(State.root) or p.endswith((".py", ".pyc", ".so")):
                return
            quiet[0] = 1
            try:
                _send(wr, ("point", ev))
                _recv(rd)
            finally:
                quiet[0] = 0
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if init:
            init(*initargs)
        first = True
        while True:
            _send(wr, ("want",))
            m = _recv(rd)
            if m is None:
                break
            if first:
                sys.addaudithook(hook)
                first = False
            out = []
            for star, args, kw in m:
                try:
                    out.append((True, func[star](*args, **kw)))
                except Exception as e:
                    out.append((False, e))
            quiet[0] = 1
            _send(wr, ("end",))              # the result is on its way: others may deliver theirs first
            _recv(rd)
            _send(wr, ("done", out))
            quiet[0] = 0
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(0)


class Result:
    def __init__(self, pool, idx, one, cb=None, ecb=None):
        self.pool, self.idx, self.one, self.cb, self.ecb = pool, idx, one, cb, ecb

    def wait(self, timeout=None):
        self.pool._flush()

    def ready(self):
        self.wait()
        return True

    def successful(self):
        self.wait()
        return all(self.pool.results[i][0] for i in self.idx)

    def get(self, timeout=None):
        self.wait()
        r = [self.pool.results[i] for i in self.idx]
        for ok, v in r:
            if not ok:
                raise v
        return r[0][1] if self.one else [v for _, v in r]

    def _fire(self):
        r = [self.pool.results[i] for i in self.idx]
        bad = [v for ok, v in r if not ok]
        if bad:
            if self.ecb:
                self.ecb(bad[0])
        elif self.cb:
            self.cb(r[0][1] if self.one else [v for _, v in r])


class SchedPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or State.workers
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.init = (initializer, initargs)
        self.tasks, self.results, self.pending, self.chunks, self.finished = [], {}, [], [], []

    # submission
    def _submit(self, func, items, star, chunksize, one=False, cb=None, ecb=None, kw=None):
        items = list(items)
        if chunksize is None:
            c, extra = divmod(len(items), self.n * 4)
            chunksize = c + 1 if extra else max(c, 1)
        idx = []
        for it in items:
            pickle.dumps(it)                      # arguments really travel between processes
            self.tasks.append((func, tuple(it) if star else (it,), kw or {}))
            idx.append(len(self.tasks) - 1)
        for i in range(0, len(idx), chunksize):
            self.chunks.append(idx[i:i + chunksize])
        r = Result(self, idx, one, cb, ecb)
        self.pending.append(r)
        return r

    def _flush(self):
        if self.chunks:
            self._execute()
        for r in sorted((r for r in self.pending if all(i in self.results for i in r.idx)), key=lambda r: max([self.finished.index(i) for i in r.idx] or [-1])):
            self.pending.remove(r)
            r._fire()

    def _execute(self):
        chunks, self.chunks = self.chunks, []
        S = State.schedule
        nw = min(self.n, State.workers, len(chunks))
        funcs = list({id(t[0]): t[0] for t in self.tasks}.values())
        fi = {id(f): k for k, f in enumerate(funcs)}
        W = []
        sys.stdout.flush(); sys.stderr.flush()
        for k in range(nw):
            a, b = os.pipe(), os.pipe()
            pid = os.fork()
            if pid == 0:
                for w in W:
                    os.close(w["wr"]); os.close(w["rd"])
                os.close(a[1]); os.close(b[0])
                _child(a[0], b[1], funcs, *self.init)
            os.close(a[0]); os.close(b[1])
            W.append({"pid": pid, "wr": a[1], "rd": b[0], "st": None, "chunk": None})
        try:
            for w in W:
                w["st"] = _recv(w["rd"])[0]
            cur, nxt, left = 0, 0, len(chunks)
            while left:
                en = [k for k, w in enumerate(W) if w["st"] in ("point", "end") or (w["st"] == "want" and nxt < len(chunks))]
                idle = [k for k in en if W[k]["st"] == "want" and W[k]["chunk"] is None]
                en = [k for k in en if k not in idle[1:]]          # workers that never ran are interchangeable
                mid = W[cur]["st"] == "point"
                cur = S.choose(cur, en, mid) if len(en) > 1 else en[0]
                w = W[cur]
                if w["st"] == "want":
                    w["chunk"] = chunks[nxt]
                    nxt += 1
                    _send(w["wr"], [(fi[id(self.tasks[i][0])], self.tasks[i][1], self.tasks[i][2]) for i in w["chunk"]])
                else:
                    _send(w["wr"], 1)
                m = _recv(w["rd"])
                if m[0] == "done":
                    for i, r in zip(w["chunk"], m[1]):
                        self.results[i] = r
                        self.finished.append(i)
                    left -= 1
                    w["st"] = _recv(w["rd"])[0]
                else:
                    w["st"] = m[0]
                State.log.append((cur, m[0]))
        finally:
            for w in W:
                try:
                    _send(w["wr"], None)
                except OSError:
                    pass
                os.close(w["wr"]); os.close(w["rd"])
                os.waitpid(w["pid"], 0)

    # the interface of multiprocessing.Pool
    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, [args], True, 1, True, callback, error_callback, dict(kwds))

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, iterable, False, chunksize, False, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, iterable, True, chunksize, False, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self._submit(func, iterable, False, chunksize)
        r.wait()
        for i in self.finished:
            if i in r.idx:
                ok, v = self.results[i]
                if not ok:
                    raise v
                yield v

    def close(self):
        pass

    def terminate(self):
        self.chunks, self.pending = [], []

    def join(self):
        self._flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def explore(body, root, workers=2, bound=1, limit=None):
    """run body() under every schedule; returns (schedules, steps)"""
    State.root, State.workers = os.path.realpath(root), workers
    stack, n, steps = [()], 0, 0
    held = [(m, k) for m in list(sys.modules.values()) if getattr(m, "__name__", "").split(".")[0] in ("matersdk", "multiprocessing")
            for k, v in list(vars(m).items()) if k == "Pool" and v == REAL]
    cpu = os.cpu_count
    try:
        for m, k in held:
            setattr(m, k, SchedPool)
        os.cpu_count = lambda: workers + 2
        while stack:
            pre = stack.pop()
            S = State.schedule = Schedule(pre, bound)
            State.log = []
            body()
            n += 1
            steps += len(State.log)
            for k, alts in S.alts:
                for a in alts:
                    stack.append(tuple(S.taken[:k]) + (a,))
            if limit and n >= limit:
                raise RuntimeError("more than %d schedules: the bounds of this check are wrong" % limit)
        return n, steps
    finally:
        os.cpu_count = cpu
        for m, k in held:
            setattr(m, k, REAL)
