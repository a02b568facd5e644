import glob, os
from mc.core import REPO, VERIF
PROPERTY = "C26"
TECHNIQUE = "explicit enumeration of every multiset of moment pairs up to the level bound, compared one by one with what the real classes list (ASan/UBSan); all copy/assign histories"
RULE = "for every maximum level: the listed schemes equal, without repetition, all multisets of (mu,nu) of total level sum(2+4mu+nu) <= maximum that contract to a scalar (single rank 0; largest rank = sum of the others; or every non-zero rank an even number of times)"
BOUNDS = {"quick": "maximum levels 0..34; schemes of one level 0..20 from 30 starting pairs; filter up to level 24; older enumeration: all tuples within levels 0..14, pairs within levels up to 34, reductions, all arrangements of up to 4 combinations; histories of depth 3 over 2 objects", "thorough": "maximum levels 0..44; one level up to 28; filter up to 30; older enumeration up to level 17; histories of depth 4"}
ASSUMPTIONS = ["get_all_schemes4lev itself may list a scheme more than once (an existing unit test fixes its counts); it is compared as a set"]


def explore(ctx):
    ctx.run_cxx(ctx.compile("c26", [os.path.join(VERIF, "cxx", "c26.cpp"), os.path.join(REPO, "source/descriptor/mtp/src/mtpLevel.cc")], flags=["-include", "cstdio"]))
