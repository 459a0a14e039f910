"""Mapping to the curve."""
import gen_curves


def make():
    return gen_curves.make(["bls381_g1", "bls381_g2"], "m2c.inc", only_default=True)
