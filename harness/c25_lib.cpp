// classification of ordinary types and of the library's own types
#include <array>
#include <complex>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include "c25.hpp"
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#include <nil/crypto3/algebra/curves/babyjubjub.hpp>
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
namespace alg = nil::crypto3::algebra;
namespace det = nil::crypto3::detail;
namespace cv = nil::crypto3::algebra::curves;
static std::vector<Row> rows;
static std::vector<std::string> names;
static const char *keep(const std::string &s) { static std::list<std::string> l; l.push_back(s); return l.back().c_str(); }
static void row(const std::string &d, std::vector<Verdict> v) { rows.push_back(Row {keep(d), v}); }
#define V(T, W) {#T, T::value, W}

// fields: degree 1 is a plain field, higher degrees are extended fields
template<class F> static void field(const char *n, bool ext) {
    using E = typename F::value_type;
    row(std::string("field ") + n, {V(alg::is_field<F>, true), V(alg::is_extended_field<F>, ext), V(alg::is_curve<F>, false),
                                    V(alg::is_curve_group<F>, false), V(alg::is_group_element<F>, false), V(alg::is_field_element<F>, false),
                                    V(alg::is_extended_field_element<F>, false), V(alg::is_complex<F>, false)});
    row(std::string("element of field ") + n, {V(alg::is_field_element<E>, true), V(alg::is_extended_field_element<E>, ext), V(alg::is_curve<E>, false),
                                    V(alg::is_curve_group<E>, false), V(alg::is_group_element<E>, false), V(alg::is_field<E>, false),
                                    V(alg::is_extended_field<E>, false), V(alg::has_mixed_add<E>, false), V(alg::is_complex<E>, false)});
}
template<class G, class C, bool first> static void group(const std::string &n) {
    using E = typename G::value_type;
    row("group " + n, {V(alg::is_curve_group<G>, true), V(alg::is_field<G>, false), V(alg::is_extended_field<G>, false), V(alg::is_curve<G>, false),
                       V(alg::is_group_element<G>, false), V(alg::is_field_element<G>, false)});
    row("element of group " + n, {{"alg::is_group_element", alg::is_group_element<E>::value, true, std::is_same<E, cv::edwards<183>::g2_type<>::value_type>::value ? "C25_edwards_g2_element" : nullptr}, V(alg::is_field_element<E>, false),
                                  V(alg::is_extended_field_element<E>, false), V(alg::is_field<E>, false), V(alg::is_curve_group<E>, false), V(alg::is_curve<E>, false)});
}
template<class G> static void source1(const std::string &n, bool w) {
    using E = typename G::value_type;
    row("element of group " + n, {V(alg::is_g1_group_element<E>, w)});
}
template<class G> static void second(const std::string &n, bool w) {
    using E = typename G::value_type;
    row("element of group " + n, {V(alg::is_g2_group_element<E>, w)});
}
template<class C> static void curve1(const char *n) {
    row(std::string("curve ") + n, {V(alg::is_field<C>, false), V(alg::is_curve_group<C>, false), V(alg::is_group_element<C>, false), V(alg::is_field_element<C>, false)});
    field<typename C::base_field_type>((std::string("base of ") + n).c_str(), false);
    field<typename C::scalar_field_type>((std::string("scalars of ") + n).c_str(), false);
    group<typename C::template g1_type<>, C, true>(std::string("G1 of ") + n);
    source1<typename C::template g1_type<>>(std::string("G1 of ") + n, true);
}
template<class C> static void curve2(const char *n) {
    curve1<C>(n);
    row(std::string("curve ") + n, {V(alg::is_curve<C>, true)});
    group<typename C::template g2_type<>, C, false>(std::string("G2 of ") + n);
    second<typename C::template g1_type<>>(std::string("G1 of ") + n, false);
    if constexpr (!std::is_same<C, cv::edwards<183>>::value) {    // its second group names no coordinates
        second<typename C::template g2_type<>>(std::string("G2 of ") + n, true);
        source1<typename C::template g2_type<>>(std::string("G2 of ") + n, false);
    }
    field<typename C::gt_type>((std::string("GT of ") + n).c_str(), true);
    field<typename C::template g2_type<>::field_type>((std::string("G2 field of ") + n).c_str(), true);
}
template<class T> static void container(const char *n) {
    row(n, {V(det::is_container<T>, true), V(det::is_range<T>, true), V(det::is_iterator<T>, false), V(det::is_iterator<typename T::iterator>, true),
            V(det::is_iterator<typename T::const_iterator>, true), V(det::is_codec<T>, false), V(det::is_hash<T>, false), V(alg::is_complex<T>, false),
            V(alg::is_field<T>, false), V(alg::is_curve_group<T>, false), V(alg::is_group_element<T>, false)});
}
template<class T> static void scalar(const char *n, bool iter) {
    row(n, {V(det::is_container<T>, false), V(det::is_range<T>, false), V(det::is_iterator<T>, iter), V(det::is_codec<T>, false), V(det::is_hash<T>, false),
            V(det::is_mac<T>, false), V(det::is_kdf<T>, false), V(det::is_passhash<T>, false), V(det::is_block_cipher<T>, false), V(alg::is_complex<T>, false),
            V(alg::is_field<T>, false), V(alg::is_curve<T>, false), V(alg::is_curve_group<T>, false), V(alg::is_field_element<T>, false), V(alg::is_extended_field_element<T>, false),
            {"remove_complex is the type itself", std::is_same<alg::remove_complex_t<T>, T>::value, true}, {"is_complex_v", alg::is_complex_v<T>, false}});
}
template<class T> static void cplx(const char *n) {
    row(n, {V(alg::is_complex<std::complex<T>>, true), {"is_complex_v", alg::is_complex_v<std::complex<T>>, true}, V(alg::is_complex<T>, false),
            {"remove_complex gives the real type", std::is_same<alg::remove_complex_t<std::complex<T>>, T>::value, true}, V(det::is_container<std::complex<T>>, false),
            V(alg::is_field<std::complex<T>>, false)});
}
// no type that is not a class has any member
template<class T> static void memberless(const char *n) {
    row(n, {V(det::has_encoded_value_type<T>, false), V(det::has_encoded_block_type<T>, false), V(det::has_decoded_value_type<T>, false), V(det::has_decoded_block_type<T>, false), V(det::has_block_type<T>, false), V(det::has_digest_type<T>, false), V(det::has_key_type<T>, false), V(det::has_key_schedule_type<T>, false), V(det::has_word_type<T>, false), V(det::has_encoded_value_bits<T>, false), V(det::has_encoded_block_bits<T>, false), V(det::has_decoded_value_bits<T>, false), V(det::has_decoded_block_bits<T>, false), V(det::has_block_bits<T>, false), V(det::has_digest_bits<T>, false), V(det::has_key_bits<T>, false), V(det::has_min_key_bits<T>, false), V(det::has_max_key_bits<T>, false), V(det::has_key_schedule_bits<T>, false), V(det::has_word_bits<T>, false), V(det::has_rounds<T>, false), V(det::has_iterator<T>, false), V(det::has_const_iterator<T>, false), V(det::has_begin<T>, false), V(det::has_end<T>, false), V(det::has_encode<T>, false), V(det::has_decode<T>, false), V(det::has_encrypt<T>, false), V(det::has_decrypt<T>, false), V(det::has_generate<T>, false), V(det::has_check<T>, false)});
}
enum class En { a };
struct Empty { };
// first and second source groups of one curve, in several coordinates
struct Co1 { }; struct Co2 { }; struct Fo1 { }; struct Fo2 { };
struct TC {
    template<class C, class F> struct g1_type { typedef TC curve_type; typedef C coordinates; typedef F form; };
    template<class C, class F> struct g2_type { typedef TC curve_type; typedef C coordinates; typedef F form; };
};
template<class G, class C, class F> struct TE { typedef G group_type; typedef C coordinates; typedef F form; };
template<template<class, class> class G, bool first, class C, class F, class C2, class F2> static void g12(const char *n) {
    // an element belongs to the source group its own coordinates and form select
    using E = TE<G<C2, F2>, C, F>;
    bool same = std::is_same<C, C2>::value && std::is_same<F, F2>::value;
    row(n, {V(alg::is_g1_group_element<E>, first && same), V(alg::is_g2_group_element<E>, !first && same)});
}
template<class C, class F, class C2, class F2> static void g12s() {
    g12<TC::g1_type, true, C, F, C2, F2>("element of a first group");
    g12<TC::g2_type, false, C, F, C2, F2>("element of a second group");
}
static int init = [] {
    memberless<int>("int"); memberless<double>("double"); memberless<bool>("bool"); memberless<void *>("void *"); memberless<const char *>("const char *");
    memberless<En>("enum"); memberless<std::nullptr_t>("nullptr_t"); memberless<int[3]>("int[3]"); memberless<Empty>("empty struct");
    memberless<int Empty::*>("pointer to member"); memberless<unsigned long long>("unsigned long long"); memberless<Empty *>("pointer to struct");
    scalar<int>("int", false); scalar<double>("double", false); scalar<bool>("bool", false); scalar<En>("enum", false); scalar<Empty>("empty struct", false);
    scalar<int *>("int *", true); scalar<const char *>("const char *", true);
    scalar<std::pair<int, int>>("pair", false); scalar<std::vector<int>::iterator>("vector iterator", true); scalar<std::map<int, int>::const_iterator>("map iterator", true);
    scalar<std::istream_iterator<int>>("istream_iterator", true); scalar<std::back_insert_iterator<std::vector<int>>>("back_insert_iterator", true);
    scalar<alg::vector<int, 3>>("algebra vector", false); scalar<alg::matrix<int, 3, 2>>("algebra matrix", false);
    scalar<alg::vector<std::complex<double>, 3>>("algebra vector of complex", false);
    scalar<unsigned char>("unsigned char", false); scalar<long double>("long double", false); scalar<std::nullptr_t>("nullptr_t", false);
    container<std::vector<int>>("vector"); container<std::string>("string"); container<std::list<int>>("list"); container<std::map<int, int>>("map");
    container<std::deque<char>>("deque"); container<std::set<int>>("set"); container<std::array<int, 4>>("array"); container<std::forward_list<int>>("forward_list");
    container<std::unordered_map<int, int>>("unordered_map"); container<std::vector<bool>>("vector<bool>"); container<std::vector<std::vector<int>>>("vector of vectors");
    cplx<float>("complex<float>"); cplx<double>("complex<double>"); cplx<long double>("complex<long double>"); cplx<int>("complex<int>"); 
    curve2<cv::bls12<381>>("bls12-381"); curve2<cv::bls12<377>>("bls12-377"); curve2<cv::alt_bn128<254>>("alt_bn128"); curve2<cv::mnt4<298>>("mnt4"); curve2<cv::mnt6<298>>("mnt6");
    curve2<cv::edwards<183>>("edwards");
    curve1<cv::jubjub>("jubjub"); curve1<cv::babyjubjub>("babyjubjub"); curve1<cv::pallas>("pallas"); curve1<cv::vesta>("vesta"); curve1<cv::secp_k1<256>>("secp256k1");
    curve1<cv::secp_r1<256>>("secp256r1"); curve1<cv::ed25519>("ed25519");
    g12s<Co1, Fo1, Co1, Fo1>(); g12s<Co1, Fo2, Co1, Fo2>(); g12s<Co2, Fo1, Co2, Fo1>(); g12s<Co1, Fo1, Co2, Fo1>(); g12s<Co1, Fo1, Co1, Fo2>();
    for (auto &r : rows) RegisterRows::all().push_back(&r);
    return 0;
}();
#include "c25_main.inc"
