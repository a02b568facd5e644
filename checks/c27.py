import os
from mc.core import REPO, VERIF
from . import tcomp
PROPERTY = "C27"
TECHNIQUE = "exhaustive enumeration of neighbour tables (positions inside, beyond and below the support x species x padding x tensor layout) over the real operators and modules; values and automatic gradients compared with the definitions evaluated with dual numbers"
RULE = "every (operator, sizes, neighbour multiset, species, padding, layout, precision); for each every moment mu, nu, every component and every gradient with respect to positions and coefficients; a state is one table"
BOUNDS = {"quick": "radial: sizes 1..5, 12 x 4 cutoff pairs x 40 positions x 3 layouts; angular: nu 0..4 x 0..3, 12, 70 neighbours, nu 0..7 with 1 or 2; moments: all multisets of 0..3 neighbours over 4 positions x 2 species, mu 0..2, nu 0..3, padding 0..2, 3 cutoff pairs, and tables of 8, 17, 40 neighbours; all tables of 1..4 slots over padding, padding with left-over coordinates and every species, 1..3 species, any centre; up to 3 evaluations alive with gradients in every order; basis functions: levels 2..10, 1..2 frames x 1..2 centres x 0..3 neighbours and tables of 12..65 neighbours x up to 5 centres x 5 frames, shared or per-frame species", "thorough": "sizes 1..7, nu 0..5 (0..8 with 1 or 2 neighbours), all ordered neighbour triples, tables of 5 slots, levels 2..14"}
ASSUMPTIONS = ["padding entries carry index -1", "the module has been converted to the precision of the coordinates"]


def explore(ctx):
    d = os.path.join(REPO, "source/descriptor/mtp/src")
    exe = tcomp.build(ctx, "c27", [os.path.join(VERIF, "cxx", "c27.cpp")] + [os.path.join(d, f) for f in ("mtpMModule.cc", "mtpMAngularOp.cc", "mtpMRadialOp.cc", "mtpBModule.cc", "mtpLevel.cc")], shared=False)
    ctx.run_cxx(exe, timeout=700 if ctx.tier == "quick" else 5 * 3600)
