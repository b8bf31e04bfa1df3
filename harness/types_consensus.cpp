#include "access.hpp"


namespace obj {
const std::vector<Type> &consensus_types() {
    using acc::type_of;
    static const std::vector<Type> t = {
        type_of<eth::Checkpoint>(spec::Checkpoint(), 6),
        type_of<eth::Fork>(spec::Fork(), 6),
        type_of<eth::ForkData>(spec::ForkData(), 6),
        type_of<eth::SigningData>(spec::SigningData(), 6),
        type_of<eth::Eth1Data>(spec::Eth1Data(), 6),
        type_of<eth::DepositMessage>(spec::DepositMessage(), 6),
        type_of<eth::DepositData>(spec::DepositData(), 6),
        type_of<eth::Deposit>(spec::Deposit(), 6),
        type_of<eth::BeaconBlockHeader>(spec::BeaconBlockHeader(), 6),
        type_of<eth::SignedBeaconBlockHeader>(spec::SignedBeaconBlockHeader(), 6),
        type_of<eth::VoluntaryExit>(spec::VoluntaryExit(), 6),
        type_of<eth::SignedVoluntaryExit>(spec::SignedVoluntaryExit(), 6),
        type_of<eth::ProposerSlashing>(spec::ProposerSlashing(), 6),
        type_of<eth::Validator>(spec::Validator(), 8, true),
        type_of<eth::AttestationData>(spec::AttestationData(), 8),
        type_of<eth::IndexedAttestation>(spec::IndexedAttestation(), 10),
        type_of<eth::PendingAttestation>(spec::PendingAttestation(), 10),
        type_of<eth::Attestation>(spec::Attestation(), 10),
        type_of<eth::AttesterSlashing>(spec::AttesterSlashing(), 10),
        type_of<eth::BeaconBlockBody>(spec::BeaconBlockBody(), 10, true),
        type_of<eth::BeaconBlock>(spec::BeaconBlock(), 8, true),
        type_of<eth::SignedBeaconBlock>(spec::SignedBeaconBlock(), 6, true),
#if PRESET_MINIMAL
        type_of<eth::BeaconState>(spec::BeaconState(), 4, true),
#endif
    };
    return t;
}
// The state is checked apart in the mainnet preset, where it is large
const std::vector<Type> &state_type() {
    static const std::vector<Type> t = {acc::type_of<eth::BeaconState>(spec::BeaconState(), 1, true)};
    return t;
}
}  // namespace obj
