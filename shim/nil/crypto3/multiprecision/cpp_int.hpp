#pragma once
#include <nil/crypto3/multiprecision/detail_shim.hpp>
