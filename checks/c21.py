import os
from mc.core import VERIF
PROPERTY = "C21"
TECHNIQUE = "exhaustive enumeration of crystals x cutoffs x bin sizes x periodicity x sort flag, and of all copy/assign histories, on the real class (ASan/UBSan) against brute force"
RULE = "every combination of the stated alphabet; list, counts and flattened arrays of each built object compared with the brute-force neighbour set"
BOUNDS = {"quick": "10 lattices x 6 motifs x 4 cutoffs (<=5.6) x 5 bin choices x 8 periodicity patterns; crystals of 27..40 atoms x sort; 4 extreme cells (up to 298 neighbours, short axes, heavy elements) with bins down to a ninth of the cutoff; cutoffs 1e-9 below and above a shell; exact-shell cutoffs; 64-position grid; float and double; histories depth 3 over 2 slots",
          "thorough": "8 cutoffs (<=7.5), histories depth 4"}
ASSUMPTIONS = ["fractional coordinates in [0,1)", "apart from the exact-shell cases no neighbour lies within 2e-3 of the cutoff"]


def explore(ctx):
    exe = ctx.compile("c21", [os.path.join(VERIF, "cxx", "c21.cpp")])
    ctx.run_cxx(exe)
