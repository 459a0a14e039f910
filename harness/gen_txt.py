"""C28: the textual form."""


def fields(k, n):
    import gen_fields as gf
    return "#include <iostream>\n" + gf.make(gf.groups(gf.FIELDS + gf.BIG[:3], n)[k], "tower.hpp") + "using namespace nil::crypto3::algebra::fields;\n#include \"txt_fld.inc\"\n"


def extensions(bases):
    import gen_ext as ge
    return "#include <iostream>\n" + ge.make(bases, "txt_fld.inc")
