import os
from mc.core import VERIF
PROPERTY = "C20"
TECHNIQUE = "exhaustive enumeration of crystals x scalings x cutoffs x bin sizes x periodicity, and of all copy/assign histories, on the real classes (ASan/UBSan) against brute force"
RULE = "every combination of the stated alphabet; each built object is compared with the brute-force image/neighbour set"
BOUNDS = {"quick": "10 lattices x 6 motifs x scalings {1..4}^3; x 3 cutoffs x 9 bin sizes x 8 periodicity patterns; crystals of 27..40 atoms; 4 extreme cells (short axes, heavy elements) with bins down to a ninth of the cutoff and scalings up to 15; float and double; histories depth 3 over 2 slots",
          "thorough": "scalings {1..5}^3, 6 cutoffs up to 7, histories depth 4"}
ASSUMPTIONS = ["fractional coordinates in [0,1)", "no neighbour within 2e-3 of the cutoff"]


def explore(ctx):
    exe = ctx.compile("c20", [os.path.join(VERIF, "cxx", "c20.cpp")])
    ctx.run_cxx(exe)
