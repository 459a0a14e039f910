"""Random elements."""
import gen_ext as ge
import gen_fields as gf


def fields(k, n):
    return gf.make(gf.groups(gf.FIELDS + gf.BIG[:2], n)[k], "tower.hpp") + "using namespace nil::crypto3::algebra::fields;\n#include \"rnd.inc\"\n"


def extensions(bases):
    return ge.make(bases, "rnd.inc")
