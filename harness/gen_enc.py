"""The wire format of BLS12-381."""
import gen_curves


def make(which):
    return ("#define ENC%d\n#define BOOST_ENABLE_ASSERT_HANDLER\n" % which
            + gen_curves.make(["bls381_g1", "bls381_g2"], "real.hpp", only_default=True)
            + "#include <nil/crypto3/algebra/marshalling.hpp>\n#include \"enc.inc\"\n")


def fields(k, n):
    """field elements: part k of n of the prime fields"""
    import gen_fields as gf
    head = "#define BOOST_ENABLE_ASSERT_HANDLER\n#include <cmath>\n#include <nil/crypto3/algebra/marshalling.hpp>\n"
    return head + gf.make(gf.groups(gf.FIELDS + gf.BIG[:3], n)[k], "tower.hpp") + "using namespace nil::crypto3::algebra::fields;\n#include \"enc_fld.inc\"\n"


def extensions(bases, curve=False):
    import gen_ext as ge
    head = "#define BOOST_ENABLE_ASSERT_HANDLER\n#include <cmath>\n#include <nil/crypto3/algebra/marshalling.hpp>\n"
    return head + ("#define WITH_CURVE\n" if curve else "") + ge.make(bases, "enc_fld.inc")
