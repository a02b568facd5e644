#!/usr/bin/env python3
"""run.py CNN [--tier quick|thorough] [--replay FILE]

Parent: starts the check in a child under the repository's interpreter and turns every way the
child can end into exit 0 (held) or exit 1 + VIOLATION line."""
import importlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def child(pid, tier, replay):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.environ.get("MATERSDK_REPO", "/repo"))
    import warnings
    warnings.simplefilter("ignore")
    from mc.core import Ctx
    m = importlib.import_module("checks." + pid.lower())
    only = None
    if replay:
        only = json.load(open(replay))["case"]
    ctx = Ctx(m, tier, only)
    import traceback
    try:
        m.explore(ctx)
    except Exception as e:
        ctx.add_violation("unexpected %s outside a case: %s" % (type(e).__name__, e),
                          detail=traceback.format_exc()[-4000:], kind="exception")
    return ctx.finish()


def main():
    a = sys.argv[1:]
    pid = a[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        replay = a[a.index("--replay") + 1]
    if "--child" in a:
        rc = child(pid, tier, replay)
        sys.stdout.flush()
        os._exit(rc)
    env = dict(os.environ)
    env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_TIER=tier, TQDM_DISABLE="1",
               PATH="/opt/venv/bin:/opt/cuda/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               CUDA_HOME="/opt/cuda")
    env.pop("PYTHONPATH", None)
    limit = 840 if tier == "quick" else 6 * 3600
    t0 = time.time()
    cmd = [PY, os.path.abspath(__file__), pid, "--tier", tier, "--child"] + (["--replay", os.path.abspath(replay)] if replay else [])
    p = subprocess.Popen(cmd, cwd=VERIF, env=env, start_new_session=True)
    try:
        rc = p.wait(limit)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        rc = "timeout"
    if rc in (0, 1):
        return rc
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", "replay", pid + "-crash.json")
    json.dump({"property": pid, "kind": "crash", "message": "check process ended with %s" % rc, "case": None}, open(rp, "w"))
    json.dump({"property": pid, "tier": tier, "seed": int(env.get("VERIF_SEED", "1") or 1), "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False},
               "wall_s": round(time.time() - t0, 2), "violations": 1},
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"))
    print("# check process ended with %s" % rc)
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main())
