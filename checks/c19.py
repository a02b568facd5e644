import os
from mc.core import VERIF
PROPERTY = "C19"
TECHNIQUE = "stateless exhaustive exploration of all operation sequences on the real class (ASan/UBSan, allocation balance) against a value model"
RULE = "every sequence of {construct, construct sized, copy, assign incl. self, supercell, drop} over 2 and 3 slots up to the depth; every lattice x motif x constructor route x scaling"
BOUNDS = {"quick": "2 slots depth 4 (double) / 3 (float), 3 slots depth 3; 8 lattices x 6 motifs x 4 routes x {1..4}^3; crystals of 27..40 and 400 atoms, atoms outside the cell, heavy elements, factors up to 12",
          "thorough": "2 slots depth 5 / 4, 3 slots depth 4; scaling z up to 5"}


def explore(ctx):
    exe = ctx.compile("c19", [os.path.join(VERIF, "cxx", "c19.cpp")])
    ctx.run_cxx(exe)
