"""texts of MANIFEST.json"""
TECH = {
    "C01": "property-based testing: generated vectors of seven element types against the documented component formulas, under ASan/UBSan",
    "C02": "property-based testing: generated matrices of eight element types and many shapes against index formulas, under ASan/UBSan",
    "C03": "property-based testing: generated matrices of known rank against exact rational elimination and Leibniz determinants",
    "C04": "property-based testing: generated arguments over the whole double range against long double results, with a CPU limit for termination",
    "C12": "property-based testing: explicit formulas and operation histories over generated toy curves against a textbook affine group law",
    "C13": "property-based testing: generated points of every published curve and coordinate system against an affine reference group over GMP integers, and histories of operations",
    "C14": "property-based testing: published parameters against their defining relations with generated witnesses (points of the curve, Miller-Rabin bases), and a table of the standard curves",
    "C15": "property-based testing: conversions between generated representations, over toy and published curves, against the point they denote",
    "C16": "property-based testing: generated scalars and points, over toy and published curves, against a reference double-and-add; additivity without a reference",
    "C17": "property-based testing: generated bases, scalars, windows and declared lengths against a reference multiple, on the published curves and in a plain additive group with generated window tables",
    "C18": "property-based testing: generated lists of bases and scalars, every method and chunk count, against one reference multiple of the known sum, on the published curves and in a plain additive group; inner products against GMP sums",
    "C19": "property-based testing: pairings of generated multiples of generated subgroup points (identity included, any representative) against powers in a reference tower",
    "C20": "property-based testing: generated target-field elements against a reference power, and generated points through the stages of the pairing (differential between the stages)",
    "C21": "property-based testing: generated points in every representation, encoded and decoded, against a reference encoder of the published format",
    "C22": "fuzzing with structured generators: mutated encodings, foreign flags, payloads, unreduced coordinates, other lengths, against a reference decoder of the published format",
    "C23": "property-based testing: generated and exceptional field elements through the map against a reference map, and generated points of the isogenous curve, kernel included, through the isogeny (differential, and the homomorphism relation)",
    "C24": "property-based testing: scripted and seeded random streams; counts over small fields, extensions and groups of every residue and of pairs of draws; extremal distributions; canonical form and membership on the published fields and curves",
    "C27": "property-based testing: generated elements of every field through the octet form and back against a reference encoding, in buffers with foreign contents, and octets of unreduced values",
    "C28": "property-based testing: generated values written to a stream, the text read back by a strict reader and compared with the coordinates",
    "C29": "stateful property-based testing: generated histories of calls, and calls on several threads under ThreadSanitizer, against the same call made first in a fresh process",
    "C30": "property-based testing over generated programs: every header alone and random sets of headers in random orders, files, compilers and optimisation levels; differential between the programs",
    "C25": "property-based testing: generated types with chosen member sets against a set-inclusion model of every trait, and the library's own types",
    "C05": "property-based testing: generated operations on literal operands, evaluated by the compiler and again at run time on hidden operands (differential)",
    "C06": "property-based testing: generated operations in about 75 prime fields against GMP integer arithmetic",
    "C07": "property-based testing: published constants against their defining equations with generated witnesses (Miller-Rabin bases, small divisors, exponent relations) and a table of the standard moduli",
    "C08": "property-based testing: generated extension-field elements against a reference tower of polynomials over GMP integers",
    "C09": "property-based testing: Frobenius maps and cyclotomic shortcuts against the generic power in a reference tower",
    "C10": "property-based testing: generated elements of prime, quadratic and cubic fields against the Euler criterion and squaring back",
    "C11": "property-based testing: specialised products of generated elements against the general product in a reference tower",
    "C26": "property-based testing: generated arguments against arithmetic definitions, under ASan/UBSan",
}
NOTE = {
    "C06": "the fields the library publishes, over a Montgomery stand-in for the absent crypto3-multiprecision; field code of the library is exercised, the modular backend is not",
    "C07": "about 95 prime fields and 15 extensions; generators are judged by the factors of p-1 that trial division and the elliptic curve method found; the moduli of two Botan DSA groups are only tested for size and primality",
    "C08": "seven bases and every extension degree built on them; sampled elements with many zero, one and subfield coefficients",
    "C09": "every Frobenius power up to twice the degree; cyclotomic shortcuts where the library offers them",
    "C10": "fields for which the library publishes the constants its squareness test needs; sqrt of fp4, fp6 and fp12 is an empty function in the library and is not claimed",
    "C11": "every specialised product that compiles; routines whose bodies are unfinished in the library are listed in DESIGN.md",

    "C01": "sampled inputs; lengths 1-12, seven element types (integers, floats, complex, a modular ring, non-commuting matrices)",
    "C02": "sampled inputs; shapes up to about 6x6, eight element types",
    "C03": "sampled inputs; up to 6x6 exact rationals, up to 5x5 floats on well conditioned matrices of small entries times powers of two",
    "C04": "sampled arguments of the double and float range",
    "C12": "sampled curves over primes below 2^31 with random points, small orders and random representatives",
    "C13": "every curve group and coordinate system that compiles (44 combinations); sampled points of the whole curve, not only of the subgroup, with equal, opposite and identity operands; forms that cannot be instantiated are listed in DESIGN.md",
    "C14": "the generator of the second group of bls12-377 is only required to have the stated order, since several are published",
    "C15": "sampled points of the published curves in every representation that compiles, and sampled toy curves",
    "C16": "sampled points and scalars up to 900 bits on the published curves and on toy curves; negative integers are excluded",
    "C17": "the recoding find_wnaf comes from the absent dependency and is stood in for; the table methods are only asked about scalars within the declared length",
    "C18": "lists up to 70 elements on curves, up to 700 (quick) or 4000 (thorough) in the plain group; the USE_MIXED_ADDITION build and batch_to_special do not compile in the library and are not claimed",
    "C19": "bls12-381, mnt4-298, mnt6-298 and edwards-183; the pairing of alt_bn128 does not compile and bls12-377 has no pairing policy",
    "C20": "as C19, with the final exponentiation of alt_bn128 as a known finding; the affine ate and Tate variants do not compile in the library",
    "C21": "the serializer of BLS12-381, the only curve that has one; two headers it includes but does not use come from the absent dependencies and are stood in for",
    "C22": "as C21; the library refuses by BOOST_ASSERT, which the check turns into an exception: a build that compiles assertions out refuses nothing. Membership in the subgroup is not part of decoding, in the library as in the published format",
    "C23": "the two headers the map needs and the tree does not have (constants of the suite, sgn0) are stood in for from the standard; inputs of the isogeny are finite points in affine form, as the map hands them over",
    "C24": "unevenness is found beyond a limit no sound source reaches, so that a bias below about a percent of a small field is not seen; the coordinates of the second Edwards group cannot be drawn (no scaling by a field element)",
    "C27": "two headers it includes but does not use come from the absent dependencies and are stood in for; refusal of other lengths is by assertion",
    "C28": "default stream flags; the second Edwards group and the Edwards precomputations have no stream operator",
    "C29": "histories of up to 14 calls on a stock of 10 arguments per type, 3 threads; interleavings are those the scheduler produces, races are found by happens-before whichever occur",
    "C30": "174 headers in the quick tier (the light ones and every public one), 260 in the thorough one; 4 and 60 generated programs; what the headers include of other libraries is parsed beforehand in the quick tier for the heavy ones under clang, which hides a missing include of Boost there; headers that do not compile at the pinned commit are listed in DESIGN.md",
    "C25": "all member subsets of the small categories, all one-missing subsets of the large ones, random sets with unrelated and wrong-kind members; needs the shim for the library types",
    "C05": "about 4800 operations per quick run over all linear-algebra and scalar functions and six element types, by clang, half of them at -O2",
    "C26": "array builder, equal values, fixed-width integers, shifts and masks, state adder, exclusive or, prime search and coprime lists; factorisation and the totient of composite numbers need a part of the absent dependency that could not be stood in for faithfully",
}
