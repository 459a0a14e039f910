// stand-in for a header that the map-to-curve headers include and the pinned tree does not have:
// the constants of the suites BLS12381G1_*_SSWU_* and BLS12381G2_*_SSWU_* (RFC 9380, 8.8)
#ifndef VERIF_SHIM_H2C_SUITES_HPP
#define VERIF_SHIM_H2C_SUITES_HPP
#include <vector>
#include <nil/crypto3/algebra/curves/bls12.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
template<typename GroupType> struct h2c_suite;
template<> struct h2c_suite<typename bls12_381::g1_type<>> {
    typedef typename bls12_381::g1_type<> group_type;
    typedef typename group_type::value_type group_value_type;
    typedef typename group_value_type::field_type::value_type field_value_type;
    typedef typename group_value_type::field_type::integral_type integral_type;
    static inline const field_value_type Z = field_value_type(11u);
    static inline const field_value_type Ai = field_value_type(integral_type("0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"));
    static inline const field_value_type Bi = field_value_type(integral_type("0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"));
};
template<> struct h2c_suite<typename bls12_381::g2_type<>> {
    typedef typename bls12_381::g2_type<> group_type;
    typedef typename group_type::value_type group_value_type;
    typedef typename group_value_type::field_type::value_type field_value_type;
    typedef typename group_value_type::field_type::integral_type integral_type;
    static inline const field_value_type Z = -field_value_type(2u, 1u);
    static inline const field_value_type Ai = field_value_type(0u, 240u);
    static inline const field_value_type Bi = field_value_type(1012u, 1012u);
};
} } } } }
#endif
