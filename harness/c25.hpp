#ifndef C25_HPP
#define C25_HPP
#include <cstddef>
#include <iterator>
#include <string>
#include <utility>
#include <vector>
#include <nil/crypto3/detail/type_traits.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include "verif.hpp"
struct Verdict { const char *trait; bool got, want; const char *finding = nullptr; };
struct Row { const char *desc; std::vector<Verdict> v; };
struct RegisterRows {
    static std::vector<const Row *> &all() { static std::vector<const Row *> a; return a; }
    RegisterRows(const Row *r, std::size_t n) { for (std::size_t i = 0; i < n; ++i) all().push_back(r + i); }
};
#endif
