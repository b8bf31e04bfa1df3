// The library's building blocks, alone and composed
#include "building.hpp"

namespace obj {
Types nested_types() {
    return {
        lf<Bitvector<4>>(bitvector(4), 10), lf<Validator>(spec::Validator(), u64(1) << 40),
        lf<Checkpoint>(spec::Checkpoint(), 6), lf<VectorFixedSizedParts<Bytes32, 2>>(vector(bytes(32), 2), 12),
        lv<Attestation>(spec::Attestation(), 1), lv<Attestation>(spec::Attestation(), 6), lv<IndexedAttestation>(spec::IndexedAttestation(), 33),
        lv<AttesterSlashing>(spec::AttesterSlashing(), 2),
        lv<Bitlist>(bitlist(0), 9),  // the elements of such lists have no limit of their own
        lv<ListFixedSizedParts<Slot>>(list(uint64(), 0), 7), lv<ListFixedSizedParts<Slot>>(list(uint64(), 0), u64(1) << 40),
        lv<Bitlist>(bitlist(0), 5000), lv<ListFixedSizedParts<Boolean>>(list(boolean(), 0), 0),
        lv<ListVariableSizedParts<Bitlist>>(list(bitlist(0), 0), 5),
    };
}
const std::vector<Type> &building_types() {
    static const std::vector<Type> t = [] {
        std::vector<Type> r;
        for (auto &part : {bytes_types(), bit_types(), vector_types(), list_types(), nested_types()}) r.insert(r.end(), part.begin(), part.end());
        return r;
    }();
    return t;
}
}  // namespace obj
