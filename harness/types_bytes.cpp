// Basic values, byte strings and bitlists
#include "building.hpp"

namespace obj {
Types bytes_types() {
    return {
        acc::type_of<Slot>(uint64(), 5), acc::type_of<Boolean>(boolean(), 5),
        by<1>(), by<4>(), by<8>(), by<20>(), by<31>(), by<32>(), by<33>(), by<48>(), by<64>(), by<65>(), by<96>(), by<121>(), by<256>(), by<300>(), by<1000>(),
        bl(1), bl(2), bl(3), bl(7), bl(8), bl(9), bl(16), bl(31), bl(255), bl(256), bl(257), bl(513), bl(2048), bl(u64(1) << 40), bl(u64(1) << 56), bl(u64(1) << 63), bl(~u64(0) - 254), bl(~u64(0)), bl(0),
    };
}
Types list_types() {
    return {
        lf<Slot>(uint64(), 1), lf<Slot>(uint64(), 3), lf<Slot>(uint64(), 4), lf<Slot>(uint64(), 5), lf<Slot>(uint64(), 100),
        lf<Slot>(uint64(), 1000003), lf<Slot>(uint64(), u64(1) << 40), lf<Slot>(uint64(), u64(3) << 55), lf<Slot>(uint64(), u64(1) << 61), lf<Slot>(uint64(), (u64(5) << 60) + 1), lf<Slot>(uint64(), ~u64(0)), lf<Slot>(uint64(), 0),
        lf<Boolean>(boolean(), 1), lf<Boolean>(boolean(), 40), lf<Boolean>(boolean(), 1000), lf<Boolean>(boolean(), u64(1) << 63), lf<Boolean>(boolean(), ~u64(0) - 7), lf<Boolean>(boolean(), 0), lf<Bytes32>(bytes(32), 0), lf<Bytes32>(bytes(32), u64(1) << 60), lf<Bytes32>(bytes(32), ~u64(0)),
        lf<Bytes32>(bytes(32), 1), lf<Bytes32>(bytes(32), 2), lf<Bytes32>(bytes(32), 7), lf<Bytes32>(bytes(32), 100), lf<Bytes32>(bytes(32), 16777216),
        lf<eth::Bytes<33>>(bytes(33), 9), lf<eth::Bytes<1>>(bytes(1), 50),
    };
}
}  // namespace obj
