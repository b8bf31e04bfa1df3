// Making types of the library's building blocks
#pragma once
#include "access.hpp"

namespace obj {
namespace {
using namespace eth;
template <std::size_t N>
Type by() {
    return acc::type_of<eth::Bytes<N>>(bytes(N), 3);
}
template <unsigned N>
Type bv() {
    return acc::type_of<Bitvector<N>>(bitvector(N), 4);
}
Type bl(u64 limit) { return acc::limited_type<Bitlist>(bitlist(limit), 5); }
template <class T, std::size_t N>
Type vec(const S &e) {
    return acc::type_of<VectorFixedSizedParts<T, N>>(vector(e, N), 4);
}
template <class T>
Type lf(const S &e, u64 limit) {
    return acc::limited_type<ListFixedSizedParts<T>>(list(e, limit), 5);
}
template <class T>
Type lv(const S &e, u64 limit) {
    return acc::limited_type<ListVariableSizedParts<T>>(list(e, limit), 8);
}
}  // namespace
using Types = std::vector<Type>;
Types bytes_types();
Types bit_types();
Types vector_types();
Types list_types();
Types nested_types();
}  // namespace obj
