import os
from mc.core import VERIF
PROPERTY = "C23"
TECHNIQUE = "exhaustive enumeration of crystals x cutoffs x smoothing radii x species pairs/lists x all construction and calling routes, and of all copy/assign histories, on the real classes (ASan/UBSan) against the closed-form definition and gradient"
RULE = "every combination of the stated alphabet; every value and derivative entry, including padding, compared with the definition; switching function on a fine grid plus the end points and their floating-point neighbours"
BOUNDS = {"quick": "10 lattices x 6 motifs x 3 cutoffs (<=4.6) x 3 smoothing radii x 3 periodicity patterns x sort x all species pairs incl. an absent one x 8 routes; crystals of 27..40 atoms, and 6 extreme ones (up to 160 neighbours of one species, a needle, a sheet, Z up to 118, pairs at 0.1 A, nine species); stacked (half of them, without the largest cutoff): 5 centre x 5 neighbour species lists x 6 routes; histories depth 3 over 2 slots; float and double",
          "thorough": "5 cutoffs (<=5.6), histories depth 4"}
ASSUMPTIONS = ["padding width at least the number of neighbours", "fractional coordinates in [0,1)"]


def explore(ctx):
    exe = ctx.compile("c23", [os.path.join(VERIF, "cxx", "c23.cpp")])
    ctx.run_cxx(exe)
