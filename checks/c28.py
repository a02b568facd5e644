import os
from mc.core import REPO, VERIF
PROPERTY = "C28"
TECHNIQUE = "exhaustive enumeration of potential files (all shipped ones, all small table sizes, every truncation point, every damaged line) and of all load/copy/move/assign histories of the real class, against an independent reader (ASan/UBSan, allocation balance)"
RULE = "every file of the family loaded by both routes and compared field by field; every prefix of 48 files (refused, or complete); every history over 2 and 3 objects; a state is one (file, prefix) or one assignment of contents to objects"
BOUNDS = {"quick": "14 shipped files; table sizes 0..4 cubed x 4 value codings x 3 endings, and up to 300 rows; every byte prefix of 48 files; histories of depth 4 over 2 objects and 3 over 3 objects", "thorough": "table sizes 0..6; histories of depth 5 over 2 objects and 4 over 3 objects"}
ASSUMPTIONS = ["the content of a moved-from object, and of an object whose reload was refused, is left open; it must still be destroyable and assignable"]


def explore(ctx):
    d = os.path.join(REPO, "source/descriptor/mtpr")
    ctx.run_cxx(ctx.compile("c28", [os.path.join(VERIF, "cxx", "c28.cpp"), os.path.join(d, "src/mtpParam.cc")], flags=['-DMTP_DIR="%s"' % os.path.join(d, "MTP_templates")]))
