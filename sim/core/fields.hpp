// Fields of a multi-field vector by number, for any number of fields: the identifiers are template arguments.
#pragma once
#include <initializer_list>
#include <utility>
#include "sim_ds/MultipleVector.hpp"
namespace sim {
constexpr size_t kFields = 40;
template <class F, size_t... I> inline void with_field(size_t k, F&& f, std::index_sequence<I...>) { (void)((k == I ? (f(std::integral_constant<int, (int)I>()), true) : false) || ...); }
template <class F> inline void with_field(size_t k, F&& f) { with_field(k, f, std::make_index_sequence<kFields>()); }
// the first values by a list, the others one by one
template <class V> inline void push_row(sim_ds::MultipleVector& x, const V& v, size_t n) {
    switch (n) { case 0: x.push_back({}); break; case 1: x.push_back({v[0]}); break; case 2: x.push_back({v[0], v[1]}); break; case 3: x.push_back({v[0], v[1], v[2]}); break; case 4: x.push_back({v[0], v[1], v[2], v[3]}); break;
    case 5: x.push_back({v[0], v[1], v[2], v[3], v[4]}); break; case 9: x.push_back({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}); break;
    default: x.push_back({v[0], v[1], v[2], v[3], v[4], v[5]}); auto b = x.block(x.size() - 1); for (size_t k = 6; k < n; k++) b.set_at(k, v[k]); }
}
} // namespace sim
