#!/usr/bin/env python3
"""Systematic mutation of the files a property is anchored in, to find what its check does not see.
   tools/mutate.py OUT.jsonl N C01 C02 ...     N: mutants per property (spread evenly over all sites; 0 = all)
Works on private copies of /verif and /repo under /tmp; never touches either."""
import ast, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MATERSDK_REPO", "/repo")
LANES = int(os.environ.get("LANES", 4))


def py_sites(src):
    """(start offset, end offset, replacement, description)"""
    t = ast.parse(src)
    lines = src.split("\n")
    b = [l.encode() for l in lines]
    off = [0]
    for l in b:
        off.append(off[-1] + len(l) + 1)
    def pos(ln, col):
        return off[ln - 1] + col
    S = src.encode()
    out = []
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(n.value)
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            for m in ast.walk(n):
                doc.add(m)
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("__str__", "__repr__"):
            for m in ast.walk(n):
                doc.add(m)
    CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.In: ("in", "not in"), ast.NotIn: ("not in", "in")}
    BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Mod: ("%", "//"), ast.Pow: ("**", "*"), ast.FloorDiv: ("//", "%")}
    ann = set()
    for n in ast.walk(t):
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if isinstance(x, ast.AST):
                for m in ast.walk(x):
                    ann.add(m)
    for n in ast.walk(t):
        if n in doc or n in ann:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            a, z = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            o, r = CMP[type(n.ops[0])]
            seg = S[a:z].decode()
            if o in seg:
                out.append((a, z, seg.replace(o, r, 1), "cmp"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, z = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            o, r = BIN[type(n.op)]
            seg = S[a:z].decode()
            if o in seg and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((a, z, seg.replace(o, r, 1), "bin"))
        elif isinstance(n, ast.Constant) and n not in doc:
            a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            if isinstance(n.value, bool):
                out.append((a, z, str(not n.value), "const"))
            elif isinstance(n.value, int):
                out.append((a, z, str(n.value + 1), "const"))
                if n.value > 0:
                    out.append((a, z, str(n.value - 1), "const"))
            elif isinstance(n.value, float):
                out.append((a, z, repr(n.value * 1.01 + (0.5 if n.value == 0 else 0)), "const"))
        elif isinstance(n, ast.BoolOp):
            a, z = pos(n.values[0].end_lineno, n.values[0].end_col_offset), pos(n.values[1].lineno, n.values[1].col_offset)
            seg = S[a:z].decode()
            o, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            out.append((a, z, seg.replace(o, r, 1), "bool"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a = pos(n.lineno, n.col_offset)
            z = pos(n.operand.lineno, n.operand.col_offset)
            out.append((a, z, "", "unary"))
        elif isinstance(n, ast.If) and n not in doc:
            a, z = pos(n.test.lineno, n.test.col_offset), pos(n.test.end_lineno, n.test.end_col_offset)
            out.append((a, z, "True", "if")); out.append((a, z, "False", "if"))
        elif (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or isinstance(n, ast.AugAssign) or isinstance(n, (ast.Break, ast.Continue)):
            a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            if not S[a:z].startswith((b"print", b"super()")):
                out.append((a, z, "pass", "del"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "sort", "strip", "upper", "lower", "reshape", "transpose", "flatten", "reverse") and isinstance(n.func.value, ast.AST) and n.func.attr in ("copy", "strip", "upper", "lower"):
            a, z = pos(n.func.value.end_lineno, n.func.value.end_col_offset), pos(n.end_lineno, n.end_col_offset)
            out.append((a, z, "", "call"))
        elif isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("abs", "sorted", "list", "set", "reversed", "int", "round"):
            a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            i, j = pos(n.args[0].lineno, n.args[0].col_offset), pos(n.args[0].end_lineno, n.args[0].end_col_offset)
            out.append((a, z, "(" + S[i:j].decode() + ")", "call"))
    return [(a, z, r, k) for a, z, r, k in out]


def cxx_sites(src):
    S = src.encode()
    blank = bytearray(S)
    for m in re.finditer(rb'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|^\s*#[^\n]*', S, re.S | re.M):
        for i in range(m.start(), m.end()):
            if blank[i] != 10:
                blank[i] = 32
    T = bytes(blank)
    # drop functions that only print
    for m in re.finditer(rb"\bshow\w*\s*\([^;{)]*\)[^;{]*\{", T):
        d, i = 1, m.end()
        while d and i < len(T):
            d += {123: 1, 125: -1}.get(T[i], 0)
            i += 1
        for k in range(m.start(), i):
            if blank[k] != 10:
                blank[k] = 32
    T = bytes(blank)
    out = []
    def sub(rx, rep, kind):
        for m in re.finditer(rx, T):
            r = rep(m) if callable(rep) else rep
            if r is not None:
                out.append((m.start(), m.end(), r, kind))
    sub(rb"(?<![<=>\-!+*/])<(?![<=])(?=[^<>;]*;)", "<=", "cmp")
    sub(rb"<=", "<", "cmp"); sub(rb">=", ">", "cmp"); sub(rb"==", "!=", "cmp"); sub(rb"!=", "==", "cmp")
    sub(rb"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])(?!\+)", " - ", "bin"); sub(rb"(?<=[\w\)\]]) ?- ?(?=[\w\(])(?![->])", " + ", "bin")
    sub(rb"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", lambda m: " / ", "bin"); sub(rb"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", " * ", "bin")
    sub(rb"\+=", "-=", "bin"); sub(rb"-=", "+=", "bin")
    sub(rb"&&", "||", "bool"); sub(rb"\|\|", "&&", "bool")
    sub(rb"(?<![\w.])\d+(?![\w.])", lambda m: str(int(m.group()) + 1), "const")
    sub(rb"(?<![\w.])\d+\.\d*(?![\w])", lambda m: repr(float(m.group()) * 1.01 + (0.5 if float(m.group()) == 0 else 0)), "const")
    sub(rb"\btrue\b", "false", "const"); sub(rb"\bfalse\b", "true", "const")
    sub(rb"\b(floor|ceil)\b", lambda m: {b"floor": "ceil", b"ceil": "floor"}[m.group()], "call")
    sub(rb"(?m)^[ \t]*(this->\w[^;{}]*=[^;{}=]*|free\([^;]*\)|[\w\[\]\.>\-]+\s*[+\-]?=[^;{}=]*|[\w:\.>\-]+\([^;{}]*\));(?=[ \t]*\n)", lambda m: ";", "del")
    return out


def limit(sites, n):
    if not n or len(sites) <= n:
        return sites
    return [sites[int(i * len(sites) / n)] for i in range(n)]


def main():
    outf, N, props = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    P = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l)
        P[d["id"]] = d["anchors"]["files"]
    jobs = []
    for p in props:
        allsites = []
        for f in P[p]:
            s = open(os.path.join(R, f)).read()
            if not f.endswith((".py", ".cc", ".h", ".cpp")):
                continue
            for x in (py_sites(s) if f.endswith(".py") else cxx_sites(s)):
                allsites.append((f,) + x)
        ch = limit(sorted(allsites), N)
        print(p, len(allsites), "sites,", len(ch), "mutants", flush=True)
        jobs += [(p,) + x for x in ch]
    base = "/tmp/mut_%d" % os.getpid()
    lanes = queue.Queue()
    for k in range(LANES):
        d = "%s_%d" % (base, k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", V, d + "/verif"])
        subprocess.check_call(["git", "clone", "-q", R, d + "/repo"])
        lanes.put(d)
    out = open(outf, "a")

    def one(j):
        p, f, a, z, rep, kind = j
        d = lanes.get()
        try:
            path = os.path.join(d, "repo", f)
            orig = open(path, "rb").read()
            open(path, "wb").write(orig[:a] + rep.encode() + orig[z:])
            t0 = time.time()
            pr = subprocess.Popen(["python3", "run.py", p], cwd=d + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                                  env=dict(os.environ, MATERSDK_REPO=d + "/repo", MC_NPROC=str(max(1, 8 // LANES))))
            try:
                o = pr.communicate(timeout=400)[0]
                res = {0: "SURVIVED", 1: "killed"}.get(pr.returncode, "rc%d" % pr.returncode)
                if "compile" in o or "does not link" in o:
                    res = "invalid"
            except subprocess.TimeoutExpired:
                for q in subprocess.run(["pgrep", "-f", d + "/"], stdout=subprocess.PIPE, text=True).stdout.split():
                    try:
                        os.kill(int(q), signal.SIGKILL)
                    except OSError:
                        pass
                os.killpg(pr.pid, signal.SIGKILL)
                pr.communicate()
                o, res = "", "timeout"
            open(path, "wb").write(orig)
            ln = orig[:a].count(b"\n") + 1
            ls = orig.rfind(b"\n", 0, a) + 1
            le = orig.find(b"\n", z)
            r = dict(p=p, f=f, line=ln, kind=kind, res=res, t=round(time.time() - t0, 1), old=orig[ls:le].decode(errors="replace").strip(), new=(orig[ls:a] + rep.encode() + orig[z:le]).decode(errors="replace").strip(),
                     msg=next((l for l in o.splitlines() if l.startswith("# ")), "")[:160])
            out.write(json.dumps(r, ensure_ascii=False) + "\n")
            out.flush()
        finally:
            lanes.put(d)

    with ThreadPoolExecutor(LANES) as ex:
        list(ex.map(one, jobs))
    for k in range(LANES):
        shutil.rmtree("%s_%d" % (base, k), ignore_errors=True)


if __name__ == "__main__":
    main()
