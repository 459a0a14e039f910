// stand-in for a header that the map-to-curve headers include and the pinned tree does not have: RFC 9380, 4.1
#ifndef VERIF_SHIM_H2C_SGN0_HPP
#define VERIF_SHIM_H2C_SGN0_HPP
#include <nil/crypto3/algebra/curves/bls12.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
inline bool sgn0(const typename h2c_suite<typename bls12_381::g1_type<>>::field_value_type &e) {
    typedef typename h2c_suite<typename bls12_381::g1_type<>>::integral_type integral_type;
    return (integral_type(e.data) & 1u) != 0;
}
inline bool sgn0(const typename h2c_suite<typename bls12_381::g2_type<>>::field_value_type &e) {
    return sgn0(e.data[0]) || (e.data[0].is_zero() && sgn0(e.data[1]));
}
} } } } }
#endif
