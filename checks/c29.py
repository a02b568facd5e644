import os
from mc.core import VERIF
PROPERTY = "C29"
TECHNIQUE = "exhaustive enumeration of extents, of vector components over an alphabet, and of all construct/resize/fill/copy/assign histories of the real classes under ASan/UBSan with an allocation balance, against definitions and a value model"
RULE = "every extent tuple, every cell written and read back; every pair of vectors over the alphabet; every history of aligned arrays, contents compared after every step; a state is one extent tuple, vector or assignment of contents"
BOUNDS = {"quick": "3d extents 0..4, 4d 0..3, 5d 0..2, and 6 large shapes of each rank, with and without initialisation, double/float/int; 216 x 216 vectors; outer powers 1..5; histories of depth 3 over 2 arrays of 6 sizes", "thorough": "3d 0..5, 4d 0..4, 5d 0..3; outer powers 1..6; histories of depth 4"}
ASSUMPTIONS = ["elements of an aligned array are unspecified after a resize that changes its size (documented)", "normalising the zero vector is outside the domain"]


def explore(ctx):
    ctx.run_cxx(ctx.compile("c29", [os.path.join(VERIF, "cxx", f) for f in ("c29.cpp", "c29b.cpp")]))
