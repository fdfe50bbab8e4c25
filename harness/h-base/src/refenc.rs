//! Encodings written from the EIPs and from the documented field order, on the reference RLP.
use protocol::types::*;
use refs::rlp::{bytes as b, list, uint, uint_be};

pub fn u256(v: &U256) -> Vec<u8> {
    let mut x = [0u8; 32];
    v.to_big_endian(&mut x);
    uint_be(&x)
}
pub fn act(a: &TransactionAction) -> Vec<u8> {
    match a {
        TransactionAction::Call(h) => b(&h.0),
        TransactionAction::Create => b(&[]),
    }
}
pub fn access(l: &AccessList) -> Vec<u8> {
    list(&l.iter().map(|i| list(&[b(&i.address.0), list(&i.storage_keys.iter().map(|k| b(&k.0)).collect::<Vec<_>>())])).collect::<Vec<_>>())
}

/// The fields of an unsigned transaction, in the order of EIP-155 / EIP-2930 / EIP-1559.
pub fn fields(t: &UnsignedTransaction, chain: Option<u64>) -> Vec<Vec<u8>> {
    let w = |x: &U64| uint(x.as_u64() as u128);
    let c = uint(chain.unwrap_or(0) as u128);
    match t {
        UnsignedTransaction::Legacy(t) => vec![w(&t.nonce), w(&t.gas_price), w(&t.gas_limit), act(&t.action), u256(&t.value), b(&t.data)],
        UnsignedTransaction::Eip2930(t) => vec![c, w(&t.nonce), w(&t.gas_price), w(&t.gas_limit), act(&t.action), u256(&t.value), b(&t.data), access(&t.access_list)],
        UnsignedTransaction::Eip1559(t) => {
            vec![c, w(&t.nonce), w(&t.max_priority_fee_per_gas), w(&t.gas_price), w(&t.gas_limit), act(&t.action), u256(&t.value), b(&t.data), access(&t.access_list)]
        }
    }
}

fn typed(t: &UnsignedTransaction, body: Vec<u8>) -> Vec<u8> {
    match t {
        UnsignedTransaction::Legacy(_) => body,
        UnsignedTransaction::Eip2930(_) => [vec![1u8], body].concat(),
        UnsignedTransaction::Eip1559(_) => [vec![2u8], body].concat(),
    }
}

pub fn sig_v(t: &UnsignedTransaction, chain: Option<u64>, v: u8) -> u128 {
    match t {
        UnsignedTransaction::Legacy(_) => match chain {
            None => 27 + v as u128,
            Some(c) => c as u128 * 2 + 35 + v as u128,
        },
        _ => v as u128,
    }
}

/// The network form of a signed transaction. `eth`: r and s are 256-bit integers.
pub fn signed_tx(t: &UnsignedTransaction, chain: Option<u64>, s: &SignatureComponents, eth: bool) -> Vec<u8> {
    let mut f = fields(t, chain);
    f.push(uint(sig_v(t, chain, s.standard_v)));
    if eth {
        f.push(uint_be(&s.r));
        f.push(uint_be(&s.s));
    } else {
        f.push(b(&s.r));
        f.push(b(&s.s));
    }
    typed(t, list(&f))
}

/// What the sender signs.
pub fn sighash(t: &UnsignedTransaction, chain: Option<u64>) -> [u8; 32] {
    let mut f = fields(t, chain);
    if let (UnsignedTransaction::Legacy(_), Some(c)) = (t, chain) {
        f.extend([uint(c as u128), uint(0), uint(0)]);
    }
    refs::keccak(&typed(t, list(&f)))
}

pub fn extra(e: &[ExtraData]) -> Vec<u8> {
    list(&e.iter().map(|x| list(&[b(&x.inner)])).collect::<Vec<_>>())
}
pub fn hashes(v: &[H256]) -> Vec<u8> {
    list(&v.iter().map(|h| b(&h.0)).collect::<Vec<_>>())
}
pub fn proof(p: &Proof) -> Vec<u8> {
    list(&[uint(p.number as u128), uint(p.round as u128), b(&p.block_hash.0), b(&p.signature), b(&p.bitmap)])
}

/// The block header: every field, in declaration order.
pub fn header(h: &Header) -> Vec<u8> {
    list(&[
        list(&[uint(0)]),
        b(&h.prev_hash.0),
        b(&h.proposer.0),
        b(&h.state_root.0),
        b(&h.transactions_root.0),
        b(&h.signed_txs_hash.0),
        b(&h.receipts_root.0),
        b(&h.log_bloom.0),
        uint(h.timestamp as u128),
        uint(h.number as u128),
        uint(h.gas_used.as_u64() as u128),
        uint(h.gas_limit.as_u64() as u128),
        extra(&h.extra_data),
        uint(h.base_fee_per_gas.as_u64() as u128),
        proof(&h.proof),
        uint(h.call_system_script_count as u128),
        uint(h.chain_id as u128),
    ])
}

/// What validators vote on: every field that is not a protocol constant (base fee, chain id).
pub fn proposal(p: &Proposal) -> Vec<u8> {
    list(&[
        list(&[uint(0)]),
        b(&p.prev_hash.0),
        b(&p.proposer.0),
        b(&p.prev_state_root.0),
        b(&p.transactions_root.0),
        b(&p.signed_txs_hash.0),
        uint(p.timestamp as u128),
        uint(p.number as u128),
        uint(p.gas_limit.as_u64() as u128),
        extra(&p.extra_data),
        proof(&p.proof),
        uint(p.call_system_script_count as u128),
        hashes(&p.tx_hashes),
    ])
}

pub fn log(l: &Log) -> Vec<u8> {
    list(&[b(&l.address.0), hashes(&l.topics), b(&l.data)])
}
