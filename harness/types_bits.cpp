// Bitvectors
#include "building.hpp"

namespace obj {
Types bit_types() {
    return {
        bv<1>(), bv<2>(), bv<3>(), bv<4>(), bv<5>(), bv<6>(), bv<7>(), bv<8>(), bv<9>(), bv<15>(), bv<16>(), bv<17>(), bv<31>(), bv<32>(), bv<64>(),
        bv<255>(), bv<256>(), bv<257>(), bv<512>(), bv<513>(), bv<1024>(), bv<2048>(), bv<2049>(), bv<4097>(),
    };
}
}  // namespace obj
