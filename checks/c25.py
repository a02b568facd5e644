import os
from mc.core import VERIF
PROPERTY = "C25"
TECHNIQUE = "exhaustive enumeration of sizes x cutoff pairs x radii and of all build/copy/move/assign histories on the real classes (ASan/UBSan) against the closed-form Chebyshev polynomials times the switch"
RULE = "every value and slope of every basis function at every grid radius, both ends and their floating-point neighbours; every operation sequence over the stated alphabet, all slots compared afterwards; allocated bytes return to the starting level"
BOUNDS = {"quick": "4 value classes + RadialBasisChebyshev + 4 switch functions, float and double, sizes 1..8, 16, 20, 33, 64, 5 cutoff pairs, 61 radii + 34 special ones (both ends, steps of 1e-2 down to 1e-6 between two evaluations); histories of depth 4 over 2 objects and depth 3 over 3 objects",
          "thorough": "sizes 1..12, 401 radii, depth 5 over 2 objects"}
ASSUMPTIONS = ["a moved-from object is only assigned to, copied, dropped or rebuilt", "mtpr bases are evaluated inside [rmin, rmax] only, as they assert"]


def explore(ctx):
    ctx.run_cxx(ctx.compile("c25", [os.path.join(VERIF, "cxx", "c25.cpp")], flags=["-include", "cstdlib", "-include", "cstdio"]))
