//! Generators of protocol values.
use pbt::Gen;
use protocol::types::*;

pub fn h256(g: &mut Gen) -> H256 {
    H256(g.arr())
}
pub fn h160(g: &mut Gen) -> H160 {
    H160(g.arr())
}
pub fn u256(g: &mut Gen) -> U256 {
    match g.below(4) {
        0 => U256::from(g.u64()),
        1 => U256::MAX - U256::from(g.below(3)),
        2 => U256::one() << g.below(256) as usize,
        _ => U256::from_big_endian(&g.arr::<32>()),
    }
}
pub fn u64w(g: &mut Gen) -> U64 {
    U64::from(g.u64())
}
pub fn bytes(g: &mut Gen, max: usize) -> Bytes {
    Bytes::from(g.bytes(max))
}

/// Byte strings whose length sits around the RLP length-form boundaries now and then.
pub fn data(g: &mut Gen) -> Bytes {
    let n = match g.below(8) {
        0 => 0,
        1 => 1,
        2 => g.usize(54, 58),
        3 => g.usize(253, 258),
        4 if g.chance(1, 6) => g.usize(65530, 65540),
        _ => g.usize(0, 80),
    };
    Bytes::from(g.bytes_n(n))
}

pub fn action(g: &mut Gen) -> TransactionAction {
    if g.below(3) == 0 {
        TransactionAction::Create
    } else {
        TransactionAction::Call(h160(g))
    }
}

pub fn access_list(g: &mut Gen) -> AccessList {
    g.many(4, |g| AccessListItem { address: h160(g), storage_keys: g.many(4, h256) })
}

pub fn unsigned(g: &mut Gen) -> UnsignedTransaction {
    match g.below(3) {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce: u64w(g), gas_price: u64w(g), gas_limit: u64w(g), action: action(g), value: u256(g), data: data(g) }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce: u64w(g), gas_price: u64w(g), gas_limit: u64w(g), action: action(g), value: u256(g), data: data(g), access_list: access_list(g) }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce: u64w(g),
            max_priority_fee_per_gas: u64w(g),
            gas_price: u64w(g),
            gas_limit: u64w(g),
            action: action(g),
            value: u256(g),
            data: data(g),
            access_list: access_list(g),
        }),
    }
}

/// Chain id; for legacy transactions absent now and then, and small enough for v = 2 * id + 36.
pub fn chain_id(g: &mut Gen, legacy: bool) -> Option<u64> {
    if legacy && g.below(4) == 0 {
        return None;
    }
    let id = g.u64();
    Some(if legacy { id.min((u64::MAX - 36) / 2) } else { id })
}

pub fn eth_sig(g: &mut Gen) -> SignatureComponents {
    SignatureComponents { r: Bytes::from(g.bytes_n(32)), s: Bytes::from(g.bytes_n(32)), standard_v: g.below(2) as u8 }
}

pub fn cell_dep(g: &mut Gen) -> CellDep {
    CellDep { tx_hash: h256(g), index: g.u32(), dep_type: g.byte() }
}

/// A signature field of an interoperation transaction: r names the verifier cell and public key,
/// s carries the witnesses; together longer than an Ethereum signature.
pub fn interop_sig(g: &mut Gen) -> (SignatureComponents, Bytes) {
    let pk = bytes(g, 80);
    let r = CellDepWithPubKey { cell_dep: cell_dep(g), pub_key: pk.clone() };
    let mut rb = vec![0u8];
    rb.extend_from_slice(&rlp::encode(&r));
    let s = SignatureS::new(g.many(4, |g| Witness { lock: opt(g, |g| bytes(g, 40)), input_type: opt(g, |g| bytes(g, 8)), output_type: opt(g, |g| bytes(g, 8)) }));
    let mut sb = rlp::encode(&s).to_vec();
    while rb.len() + sb.len() <= 64 {
        sb.push(7);
    }
    (SignatureComponents { r: Bytes::from(rb), s: Bytes::from(sb), standard_v: g.below(2) as u8 }, pk)
}

pub fn opt<T>(g: &mut Gen, f: impl FnOnce(&mut Gen) -> T) -> Option<T> {
    if g.bool() {
        Some(f(g))
    } else {
        None
    }
}

pub fn log(g: &mut Gen) -> Log {
    Log { address: h160(g), topics: g.many(4, h256), data: g.bytes(70) }
}

pub fn exit_reason(g: &mut Gen) -> ExitReason {
    use protocol::types::{ExitError as E, ExitRevert, ExitSucceed as S};
    match g.below(12) {
        0 => ExitReason::Succeed(S::Stopped),
        1 => ExitReason::Succeed(S::Returned),
        2 => ExitReason::Succeed(S::Suicided),
        3 => ExitReason::Revert(ExitRevert::Reverted),
        4 => ExitReason::Error(E::OutOfGas),
        5 => ExitReason::Error(E::Other(g.text(20).into())),
        6 => ExitReason::Error(E::StackUnderflow),
        7 => ExitReason::Error(E::CreateCollision),
        8 => ExitReason::Error(E::OutOfFund),
        9 => ExitReason::Error(E::InvalidJump),
        10 => ExitReason::Error(E::DesignatedInvalid),
        _ => ExitReason::Error(E::CallTooDeep),
    }
}

pub fn proof(g: &mut Gen) -> Proof {
    Proof { number: g.u64(), round: g.u64(), block_hash: h256(g), signature: bytes(g, 100), bitmap: bytes(g, 10) }
}

pub fn extra(g: &mut Gen) -> Vec<ExtraData> {
    g.many(4, |g| ExtraData { inner: bytes(g, 60) })
}

pub fn proposal(g: &mut Gen) -> Proposal {
    Proposal {
        version: BlockVersion::V0,
        prev_hash: h256(g),
        proposer: h160(g),
        prev_state_root: h256(g),
        transactions_root: h256(g),
        signed_txs_hash: h256(g),
        timestamp: g.u64(),
        number: g.u64(),
        gas_limit: u64w(g),
        extra_data: extra(g),
        base_fee_per_gas: protocol::constants::BASE_FEE_PER_GAS.into(),
        proof: proof(g),
        chain_id: **protocol::lazy::CHAIN_ID.load(),
        call_system_script_count: g.u32(),
        tx_hashes: g.many(12, h256),
    }
}

pub fn header(g: &mut Gen) -> Header {
    Header {
        version: BlockVersion::V0,
        prev_hash: h256(g),
        proposer: h160(g),
        state_root: h256(g),
        transactions_root: h256(g),
        signed_txs_hash: h256(g),
        receipts_root: h256(g),
        log_bloom: Bloom(g.arr()),
        timestamp: g.u64(),
        number: g.u64(),
        gas_used: u64w(g),
        gas_limit: u64w(g),
        extra_data: extra(g),
        base_fee_per_gas: u64w(g),
        proof: proof(g),
        call_system_script_count: g.u32(),
        chain_id: g.u64(),
    }
}

pub fn block(g: &mut Gen) -> Block {
    Block { header: header(g), tx_hashes: g.many(12, h256) }
}

pub fn receipt(g: &mut Gen) -> Receipt {
    Receipt {
        tx_hash: h256(g),
        block_number: g.u64(),
        block_hash: h256(g),
        tx_index: g.u32(),
        state_root: h256(g),
        used_gas: u64w(g),
        logs_bloom: Bloom(g.arr()),
        logs: g.many(5, log),
        log_index: g.u32(),
        code_address: opt(g, h256),
        sender: h160(g),
        ret: exit_reason(g),
        removed: g.bool(),
    }
}

pub fn tx_resp(g: &mut Gen) -> TxResp {
    TxResp { exit_reason: exit_reason(g), ret: g.bytes(70), gas_used: g.u64(), remain_gas: g.u64(), fee_cost: u256(g), logs: g.many(5, log), code_address: opt(g, h256), removed: g.bool() }
}

pub fn hexv(g: &mut Gen, max: usize) -> Hex {
    Hex::encode(g.bytes(max))
}

pub fn validator(g: &mut Gen) -> ValidatorExtend {
    ValidatorExtend { bls_pub_key: hexv(g, 50), pub_key: hexv(g, 40), address: h160(g), propose_weight: g.u32(), vote_weight: g.u32() }
}

pub fn consensus_config(g: &mut Gen) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: g.u64(),
        interval: g.u64(),
        propose_ratio: g.u64(),
        prevote_ratio: g.u64(),
        precommit_ratio: g.u64(),
        brake_ratio: g.u64(),
        tx_num_limit: g.u64(),
        max_tx_size: g.u64(),
        max_contract_limit: g.u64(),
    }
}

pub fn metadata(g: &mut Gen) -> Metadata {
    Metadata {
        version: MetadataVersion::new(g.u64(), g.u64()),
        epoch: g.u64(),
        verifier_list: g.many(5, validator),
        propose_counter: g.many(5, |g| ProposeCount { address: h160(g), count: g.u64() }),
        consensus_config: consensus_config(g),
    }
}

/// A secp256k1 secret key (never zero, below the group order).
pub fn secret(g: &mut Gen) -> [u8; 32] {
    let mut k = [0u8; 32];
    k.copy_from_slice(&g.entropy(32));
    k[0] &= 0x7f;
    k[31] |= 1;
    k
}
