"""Compiles sources that need libtorch, each in its own process, and links them into one shared object or program."""
import os, subprocess
from mc.core import REPO, VERIF


def tflags():
    import importlib.util
    t = importlib.util.find_spec("torch").submodule_search_locations[0]
    import sysconfig
    inc = ["-I" + os.path.join(t, "include"), "-I" + os.path.join(t, "include", "torch", "csrc", "api", "include"), "-I" + sysconfig.get_paths()["include"]]
    lib = os.path.join(t, "lib")
    abi = "1"
    try:
        import re
        for f in ("TorchConfig.cmake",):
            s = open(os.path.join(t, "share", "cmake", "Torch", f)).read()
            m = re.search(r"_GLIBCXX_USE_CXX11_ABI=(\d)", s)
            abi = m.group(1) if m else "1"
    except OSError:
        pass
    return inc, lib, abi


def build(ctx, name, sources, shared=True, opt="-O1", extra=()):
    """sources: absolute paths. Returns the path of the product, or None after recording a violation."""
    inc, lib, abi = tflags()
    base = ["/usr/bin/g++", "-std=c++20", opt, "-w", "-fPIC", "-fno-unreachable-traps", "-D_GLIBCXX_USE_CXX11_ABI=" + abi, "-I" + os.path.join(VERIF, "cxx"), "-I" + os.path.join(REPO, "source")] + inc + list(extra)
    jobs = []
    for i, s in enumerate(sources):
        o = os.path.join(ctx.tmp, "%s_%d.o" % (name, i))
        jobs.append((o, s, subprocess.Popen(base + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = None
    for o, s, p in jobs:
        out = p.communicate()[0]
        if p.returncode and not bad:
            bad = (s, out)
    if bad:
        ctx.add_violation("%s does not compile" % bad[0], detail=bad[1][-4000:], kind="build")
        return None
    exe = os.path.join(ctx.tmp, name + (".so" if shared else ""))
    p = subprocess.run(["/usr/bin/g++"] + (["-shared"] if shared else []) + ["-o", exe] + [o for o, _, _ in jobs] +
                       ["-L" + lib, "-Wl,-rpath," + lib, "-Wl,--no-as-needed", "-ltorch", "-ltorch_cpu", "-lc10"] + (["-ltorch_python"] if shared else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        ctx.add_violation("%s does not link" % name, detail=p.stdout[-4000:], kind="build")
        return None
    return exe
