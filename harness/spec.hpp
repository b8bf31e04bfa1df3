// The phase-0 consensus objects of the preset being checked, from the consensus specification
#pragma once
#include "model.hpp"

namespace spec {
using namespace model;
#if PRESET_MINIMAL
constexpr bool MINIMAL = true;
#elif PRESET_MAINNET
constexpr bool MINIMAL = false;
#else
#error "no preset"
#endif
constexpr u64 SLOTS_PER_EPOCH = MINIMAL ? 8 : 32;
constexpr u64 SLOTS_PER_HISTORICAL_ROOT = MINIMAL ? 64 : 8192;
constexpr u64 EPOCHS_PER_ETH1_VOTING_PERIOD = MINIMAL ? 4 : 64;
constexpr u64 EPOCHS_PER_HISTORICAL_VECTOR = MINIMAL ? 64 : 65536;
constexpr u64 EPOCHS_PER_SLASHINGS_VECTOR = MINIMAL ? 64 : 8192;
constexpr u64 HISTORICAL_ROOTS_LIMIT = 16777216;
constexpr u64 VALIDATOR_REGISTRY_LIMIT = 1099511627776;
constexpr u64 MAX_VALIDATORS_PER_COMMITTEE = 2048;
constexpr u64 MAX_PROPOSER_SLASHINGS = 16, MAX_ATTESTER_SLASHINGS = 2, MAX_ATTESTATIONS = 128, MAX_DEPOSITS = 16, MAX_VOLUNTARY_EXITS = 16;
constexpr u64 DEPOSIT_CONTRACT_TREE_DEPTH = 32, JUSTIFICATION_BITS_LENGTH = 4;
constexpr u64 FAR_FUTURE_EPOCH = ~u64(0), MAX_EFFECTIVE_BALANCE = 32000000000;

inline S root_t() { return bytes(32); }
inline S Fork() { return container("Fork", {{"previous_version", bytes(4)}, {"current_version", bytes(4)}, {"epoch", uint64()}}); }
inline S ForkData() { return container("ForkData", {{"current_version", bytes(4)}, {"genesis_validators_root", root_t()}}); }
inline S Checkpoint() { return container("Checkpoint", {{"epoch", uint64()}, {"root", root_t()}}); }
inline S SigningData() { return container("SigningData", {{"object_root", root_t()}, {"domain", bytes(32)}}); }
inline S Validator() {
    return container("Validator", {{"pubkey", bytes(48)},
                                   {"withdrawal_credentials", bytes(32)},
                                   {"effective_balance", uint64()},
                                   {"slashed", boolean()},
                                   {"activation_eligibility_epoch", uint64()},
                                   {"activation_epoch", uint64()},
                                   {"exit_epoch", uint64()},
                                   {"withdrawable_epoch", uint64()}});
}
inline S AttestationData() {
    return container("AttestationData",
                     {{"slot", uint64()}, {"index", uint64()}, {"beacon_block_root", root_t()}, {"source", Checkpoint()}, {"target", Checkpoint()}});
}
inline S IndexedAttestation() {
    return container("IndexedAttestation", {{"attesting_indices", list(uint64(), MAX_VALIDATORS_PER_COMMITTEE)},
                                            {"data", AttestationData()},
                                            {"signature", bytes(96)}});
}
inline S PendingAttestation() {
    return container("PendingAttestation", {{"aggregation_bits", bitlist(MAX_VALIDATORS_PER_COMMITTEE)},
                                            {"data", AttestationData()},
                                            {"inclusion_delay", uint64()},
                                            {"proposer_index", uint64()}});
}
inline S Attestation() {
    return container("Attestation", {{"aggregation_bits", bitlist(MAX_VALIDATORS_PER_COMMITTEE)}, {"data", AttestationData()}, {"signature", bytes(96)}});
}
inline S Eth1Data() { return container("Eth1Data", {{"deposit_root", root_t()}, {"deposit_count", uint64()}, {"block_hash", bytes(32)}}); }
inline S DepositMessage() {
    return container("DepositMessage", {{"pubkey", bytes(48)}, {"withdrawal_credentials", bytes(32)}, {"amount", uint64()}});
}
inline S DepositData() {
    return container("DepositData", {{"pubkey", bytes(48)}, {"withdrawal_credentials", bytes(32)}, {"amount", uint64()}, {"signature", bytes(96)}});
}
inline S Deposit() { return container("Deposit", {{"proof", vector(bytes(32), DEPOSIT_CONTRACT_TREE_DEPTH + 1)}, {"data", DepositData()}}); }
inline S BeaconBlockHeader() {
    return container("BeaconBlockHeader", {{"slot", uint64()}, {"proposer_index", uint64()}, {"parent_root", root_t()}, {"state_root", root_t()}, {"body_root", root_t()}});
}
inline S SignedBeaconBlockHeader() { return container("SignedBeaconBlockHeader", {{"message", BeaconBlockHeader()}, {"signature", bytes(96)}}); }
inline S VoluntaryExit() { return container("VoluntaryExit", {{"epoch", uint64()}, {"validator_index", uint64()}}); }
inline S SignedVoluntaryExit() { return container("SignedVoluntaryExit", {{"message", VoluntaryExit()}, {"signature", bytes(96)}}); }
inline S ProposerSlashing() {
    return container("ProposerSlashing", {{"signed_header_1", SignedBeaconBlockHeader()}, {"signed_header_2", SignedBeaconBlockHeader()}});
}
inline S AttesterSlashing() {
    return container("AttesterSlashing", {{"attestation_1", IndexedAttestation()}, {"attestation_2", IndexedAttestation()}});
}
inline S BeaconBlockBody() {
    return container("BeaconBlockBody", {{"randao_reveal", bytes(96)},
                                         {"eth1_data", Eth1Data()},
                                         {"graffiti", bytes(32)},
                                         {"proposer_slashings", list(ProposerSlashing(), MAX_PROPOSER_SLASHINGS)},
                                         {"attester_slashings", list(AttesterSlashing(), MAX_ATTESTER_SLASHINGS)},
                                         {"attestations", list(Attestation(), MAX_ATTESTATIONS)},
                                         {"deposits", list(Deposit(), MAX_DEPOSITS)},
                                         {"voluntary_exits", list(SignedVoluntaryExit(), MAX_VOLUNTARY_EXITS)}});
}
inline S BeaconBlock() {
    return container("BeaconBlock", {{"slot", uint64()}, {"proposer_index", uint64()}, {"parent_root", root_t()}, {"state_root", root_t()}, {"body", BeaconBlockBody()}});
}
inline S SignedBeaconBlock() { return container("SignedBeaconBlock", {{"message", BeaconBlock()}, {"signature", bytes(96)}}); }
inline S BeaconState() {
    return container("BeaconState", {{"genesis_time", uint64()},
                                     {"genesis_validators_root", root_t()},
                                     {"slot", uint64()},
                                     {"fork", Fork()},
                                     {"latest_block_header", BeaconBlockHeader()},
                                     {"block_roots", vector(root_t(), SLOTS_PER_HISTORICAL_ROOT)},
                                     {"state_roots", vector(root_t(), SLOTS_PER_HISTORICAL_ROOT)},
                                     {"historical_roots", list(root_t(), HISTORICAL_ROOTS_LIMIT)},
                                     {"eth1_data", Eth1Data()},
                                     {"eth1_data_votes", list(Eth1Data(), EPOCHS_PER_ETH1_VOTING_PERIOD * SLOTS_PER_EPOCH)},
                                     {"eth1_deposit_index", uint64()},
                                     {"validators", list(Validator(), VALIDATOR_REGISTRY_LIMIT)},
                                     {"balances", list(uint64(), VALIDATOR_REGISTRY_LIMIT)},
                                     {"randao_mixes", vector(bytes(32), EPOCHS_PER_HISTORICAL_VECTOR)},
                                     {"slashings", vector(uint64(), EPOCHS_PER_SLASHINGS_VECTOR)},
                                     {"previous_epoch_attestations", list(PendingAttestation(), MAX_ATTESTATIONS * SLOTS_PER_EPOCH)},
                                     {"current_epoch_attestations", list(PendingAttestation(), MAX_ATTESTATIONS * SLOTS_PER_EPOCH)},
                                     {"justification_bits", bitvector(JUSTIFICATION_BITS_LENGTH)},
                                     {"previous_justified_checkpoint", Checkpoint()},
                                     {"current_justified_checkpoint", Checkpoint()},
                                     {"finalized_checkpoint", Checkpoint()}});
}
}  // namespace spec
