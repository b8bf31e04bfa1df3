// Vectors
#include "building.hpp"

namespace obj {
Types vector_types() {
    return {
        vec<Slot, 1>(uint64()), vec<Slot, 3>(uint64()), vec<Slot, 4>(uint64()), vec<Slot, 5>(uint64()), vec<Slot, 17>(uint64()), vec<Slot, 64>(uint64()),
        vec<Boolean, 1>(boolean()), vec<Boolean, 31>(boolean()), vec<Boolean, 33>(boolean()),
        vec<Bytes32, 1>(bytes(32)), vec<Bytes32, 2>(bytes(32)), vec<Bytes32, 5>(bytes(32)), vec<Bytes32, 33>(bytes(32)),
        vec<Bytes4, 3>(bytes(4)), vec<Bytes48, 2>(bytes(48)), vec<Bitvector<9>, 3>(bitvector(9)),
        vec<Slot, 257>(uint64()), vec<Bytes32, 129>(bytes(32)), vec<Boolean, 300>(boolean()), vec<Validator, 40>(spec::Validator()),
        vec<Checkpoint, 3>(spec::Checkpoint()), vec<VectorFixedSizedParts<Slot, 3>, 2>(vector(uint64(), 3)),
    };
}
}  // namespace obj
