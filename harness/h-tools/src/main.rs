//! P15 block proofs, P16 types in step with the node's, P17 trie and CKB Merkle proofs: the axon-tools crate.
#[path = "../../h-base/src/gens.rs"]
#[allow(dead_code)]
mod gens;
#[path = "../../h-base/src/refenc.rs"]
#[allow(dead_code)]
mod refenc;

use std::collections::BTreeMap;

use axon_tools::precompile;
use axon_tools::types as at;
use common_crypto::*;
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::types as pt;
use refs::{hex, keccak, mpt, rlp as rr};
use serde_json::{json, Value};

// ---- P15

fn bls_key(g: &mut Gen) -> BlsPrivateKey {
    let mut k = gens::secret(g);
    k[0] &= 0x3f;
    BlsPrivateKey::try_from(&k[..]).unwrap()
}

struct Signed {
    block:  pt::Block,
    prev:   pt::H256,
    proof:  pt::Proof,
    keys:   Vec<BlsPrivateKey>,
    /// in the order of their public keys, as consensus numbers them
    vals:   Vec<pt::ValidatorExtend>,
    signed: Vec<bool>,
}

/// What validators sign: the hash of the vote to commit a proposal.
fn vote_hash(height: u64, round: u64, proposal: &[u8; 32]) -> [u8; 32] {
    keccak(&rr::list(&[rr::uint(height as u128), rr::uint(round as u128), rr::uint(2), rr::bytes(proposal)]))
}
fn bitmap(signed: &[bool]) -> Vec<u8> {
    let mut b = vec![0u8; (signed.len() + 7) / 8];
    for (i, s) in signed.iter().enumerate() {
        if *s {
            b[i / 8] |= 0x80 >> (i % 8);
        }
    }
    b
}
fn aggregate(keys: &[&BlsPrivateKey], h: [u8; 32]) -> Vec<u8> {
    let cr = String::new();
    let h = HashValue::from_bytes_unchecked(h);
    BlsSignature::combine(keys.iter().map(|k| (k.sign_message(&h), k.pub_key(&cr))).collect()).unwrap().to_bytes().to_vec()
}

fn signed_block(g: &mut Gen, enough: bool) -> Signed {
    let n = match g.below(60) {
        // more than a machine word has bits
        0 => g.usize(12, 140),
        1..=10 => g.usize(8, 11),
        _ => g.usize(1, 7),
    };
    let mut p = gens::proposal(g);
    p.version = pt::BlockVersion::V0;
    let hash = keccak(&refenc::proposal(&p));
    let prev = p.prev_state_root;
    let mut header = gens::header(g);
    header.version = p.version;
    header.prev_hash = p.prev_hash;
    header.proposer = p.proposer;
    header.transactions_root = p.transactions_root;
    header.signed_txs_hash = p.signed_txs_hash;
    header.timestamp = p.timestamp;
    header.number = p.number;
    header.gas_limit = p.gas_limit;
    header.extra_data = p.extra_data.clone();
    header.base_fee_per_gas = p.base_fee_per_gas;
    header.proof = p.proof.clone();
    header.chain_id = p.chain_id;
    header.call_system_script_count = p.call_system_script_count;
    let mut pks: Vec<Vec<u8>> = vec![];
    while pks.len() < n {
        let mut k = g.entropy(33);
        k[0] = 2 + (k[0] & 1);
        if n > 16 {
            k[31] = (pks.len() / 16) as u8;
        }
        k[32] = k[32] / 16 * 16 + (pks.len() % 16) as u8;
        if !pks.contains(&k) {
            pks.push(k);
        }
    }
    pks.sort();
    let keys: Vec<BlsPrivateKey> = (0..n).map(|_| bls_key(g)).collect();
    // weights: all one, small, with nothing among them, or any
    let kind = g.below(4);
    let mut w: Vec<u32> = (0..n)
        .map(|_| match kind {
            0 => 1,
            1 => g.range(1, 5) as u32,
            2 => g.below(4) as u32,
            _ => g.u32(),
        })
        .collect();
    if enough && w.iter().all(|w| *w == 0) {
        w[n - 1] = 1;
    }
    let vals: Vec<pt::ValidatorExtend> = (0..n)
        .map(|i| pt::ValidatorExtend {
            bls_pub_key:    pt::Hex::encode(keys[i].pub_key(&String::new()).to_bytes()),
            pub_key:        pt::Hex::encode(&pks[i]),
            address:        gens::h160(g),
            propose_weight: g.u32(),
            vote_weight:    w[i],
        })
        .collect();
    // the signers: just enough, more, or too few; by weight
    let total: u128 = w.iter().map(|w| *w as u128).sum();
    let mut idx: Vec<usize> = (0..n).collect();
    g.shuffle(&mut idx);
    let mut signed = vec![false; n];
    let mut have = 0u128;
    let more = g.below(3);
    for i in idx {
        let with = have + w[i] as u128;
        let take = if enough { have * 3 <= total * 2 || more == 0 || more == 1 && g.bool() } else { with * 3 <= total * 2 && (more > 0 || g.bool()) };
        if take {
            signed[i] = true;
            have = with;
        }
    }
    let round = if g.bool() { g.below(3) } else { g.u64() };
    let who: Vec<&BlsPrivateKey> = (0..n).filter(|i| signed[*i]).map(|i| &keys[i]).collect();
    let sig = if who.is_empty() { g.bytes_n(96) } else { aggregate(&who, vote_hash(p.number, round, &hash)) };
    let mut bm = bitmap(&signed);
    if g.below(8) == 0 {
        bm.push(0);
    }
    let proof = pt::Proof { number: p.number, round, block_hash: pt::H256(hash), signature: sig.into(), bitmap: bm.into() };
    Signed { block: pt::Block { header, tx_hashes: p.tx_hashes.clone() }, prev, proof, keys, vals, signed }
}

fn conv_proof(p: &pt::Proof) -> at::Proof {
    at::Proof { number: p.number, round: p.round, proposal_hash: p.block_hash, signature: p.signature.clone(), bitmap: p.bitmap.clone() }
}
fn conv_header(h: &pt::Header) -> at::Header {
    at::Header {
        version:                  at::BlockVersion::V0,
        prev_hash:                h.prev_hash,
        proposer:                 h.proposer,
        state_root:               h.state_root,
        transactions_root:        h.transactions_root,
        signed_txs_hash:          h.signed_txs_hash,
        receipts_root:            h.receipts_root,
        log_bloom:                ethereum_types::Bloom(h.log_bloom.0),
        timestamp:                h.timestamp,
        number:                   h.number,
        gas_used:                 h.gas_used,
        gas_limit:                h.gas_limit,
        extra_data:               h.extra_data.iter().map(|e| at::ExtraData { inner: e.inner.clone() }).collect(),
        base_fee_per_gas:         h.base_fee_per_gas,
        proof:                    conv_proof(&h.proof),
        call_system_script_count: h.call_system_script_count,
        chain_id:                 h.chain_id,
    }
}
fn conv_block(b: &pt::Block) -> at::Block {
    at::Block { header: conv_header(&b.header), tx_hashes: b.tx_hashes.clone() }
}
fn conv_val(v: &pt::ValidatorExtend) -> at::ValidatorExtend {
    at::ValidatorExtend {
        bls_pub_key:    at::Hex::encode(v.bls_pub_key.as_bytes()),
        pub_key:        at::Hex::encode(v.pub_key.as_bytes()),
        address:        v.address,
        propose_weight: v.propose_weight,
        vote_weight:    v.vote_weight,
    }
}

fn verify(g: &mut Gen, s: &Signed) -> Result<Result<(), String>, pbt::Stop> {
    let mut vals: Vec<at::ValidatorExtend> = s.vals.iter().map(conv_val).collect();
    g.shuffle(&mut vals);
    let (b, p, prev) = (conv_block(&s.block), conv_proof(&s.proof), s.prev);
    no_panic(move || axon_tools::verify_proof(b, prev, &mut vals, p).map_err(|e| format!("{:?}", e))).map_err(|p| fail("proof-panic", p))
}

fn flip(g: &mut Gen, b: &mut [u8]) {
    let i = g.below(b.len() as u64) as usize;
    b[i] ^= 1 << g.below(8);
}

fn block_proof(g: &mut Gen) -> Res {
    let mut s = signed_block(g, true);
    let n = s.vals.len();
    g.note(|| format!("{} validators, {} signers, weights {:?}, block {}", n, s.signed.iter().filter(|x| **x).count(), s.vals.iter().map(|v| v.vote_weight).collect::<Vec<_>>(), s.block.header.number));
    let r = verify(g, &s)?;
    check!(r.is_ok(), "proof-rejected", "the proof of {} of {} validators is rejected: {:?}", s.signed.iter().filter(|x| **x).count(), n, r);
    if n > 1 {
        g.hit();
    }
    // one thing changed
    let what = g.below(17);
    let name = match what {
        0 => {
            flip(g, &mut s.block.header.prev_hash.0);
            "previous hash"
        }
        1 => {
            flip(g, &mut s.block.header.proposer.0);
            "proposer"
        }
        2 => {
            flip(g, &mut s.prev.0);
            "previous state root"
        }
        3 => {
            flip(g, &mut s.block.header.transactions_root.0);
            "transactions root"
        }
        4 => {
            flip(g, &mut s.block.header.signed_txs_hash.0);
            "signed transactions hash"
        }
        5 => {
            s.block.header.timestamp ^= 1 << g.below(64);
            "timestamp"
        }
        6 => {
            s.block.header.number ^= 1 << g.below(64);
            "number"
        }
        7 => {
            s.block.header.gas_limit = (s.block.header.gas_limit.as_u64() ^ (1 << g.below(64))).into();
            "gas limit"
        }
        8 => {
            s.block.header.extra_data.push(pt::ExtraData { inner: gens::bytes(g, 10) });
            "extra data"
        }
        9 => {
            let p = &mut s.block.header.proof;
            match g.below(3) {
                0 => p.round ^= 1 << g.below(64),
                1 => p.number ^= 1 << g.below(64),
                _ => flip(g, &mut p.block_hash.0),
            }
            "proof of the previous block"
        }
        10 => {
            s.block.header.call_system_script_count ^= 1 << g.below(32);
            "count of system script calls"
        }
        11 => {
            let t = &mut s.block.tx_hashes;
            if t.len() > 1 && t[0] != t[t.len() - 1] && g.bool() {
                let l = t.len() - 1;
                t.swap(0, l);
            } else if !t.is_empty() && g.bool() {
                t.pop();
            } else {
                t.push(gens::h256(g));
            }
            "transaction hashes"
        }
        12 => {
            match g.below(3) {
                0 => s.proof.round ^= 1 << g.below(64),
                1 => s.proof.number ^= 1 << g.below(64),
                _ => flip(g, &mut s.proof.block_hash.0),
            }
            "vote"
        }
        13 => {
            let mut b = s.proof.signature.to_vec();
            match g.below(3) {
                0 => flip(g, &mut b),
                1 => {
                    let l = g.below(96) as usize;
                    b.truncate(l);
                }
                _ => b = g.mutate(&b),
            }
            if b == s.proof.signature {
                return Ok(());
            }
            s.proof.signature = b.into();
            "signature"
        }
        14 => {
            // someone else is said to have signed, or not to have
            let i = g.below(n as u64) as usize;
            let mut sg = s.signed.clone();
            sg[i] = !sg[i];
            s.proof.bitmap = bitmap(&sg).into();
            "bitmap"
        }
        15 => {
            // the key of one who signed is another one
            let i = (0..n).find(|i| s.signed[*i]).unwrap();
            let k = match g.below(3) {
                0 => g.bytes(60),
                1 => g.mutate(&s.vals[i].bls_pub_key.as_bytes()),
                _ => bls_key(g).pub_key(&String::new()).to_bytes().to_vec(),
            };
            if k == s.vals[i].bls_pub_key.as_bytes().to_vec() {
                return Ok(());
            }
            s.vals[i].bls_pub_key = pt::Hex::encode(k);
            "public key"
        }
        _ => {
            // votes of another kind
            let who: Vec<&BlsPrivateKey> = (0..n).filter(|i| s.signed[*i]).map(|i| &s.keys[i]).collect();
            let p = &s.proof;
            let pre = keccak(&rr::list(&[rr::uint(p.number as u128), rr::uint(p.round as u128), rr::uint(1), rr::bytes(&p.block_hash.0)]));
            let h = *g.pick(&[pre, p.block_hash.0]);
            s.proof.signature = aggregate(&who, h).into();
            "kind of vote"
        }
    };
    g.label(name);
    let r = verify(g, &s)?;
    check!(r.is_err(), "proof-forged", "a proof with a changed {} is accepted", name);
    Ok(())
}

/// Two thirds of the validators or fewer prove nothing.
fn too_few(g: &mut Gen) -> Res {
    let mut s = signed_block(g, false);
    let n = s.vals.len();
    let have = s.signed.iter().filter(|x| **x).count();
    let weights: Vec<(u32, bool)> = s.vals.iter().zip(&s.signed).map(|(v, b)| (v.vote_weight, *b)).collect();
    g.note(|| format!("{} of {}, weights {:?}", have, n, weights));
    g.label_if(have * 3 > n * 2, "two thirds of the heads without two thirds of the weight");
    if have > 0 {
        g.hit();
    }
    let r = verify(g, &s)?;
    check!(r.is_err(), "proof-quorum", "the proof of {} of {} validators is accepted: weights, and who signed: {:?}", have, n, weights);
    // nor do votes of others fill up: positions past the end, or more signers without a vote
    if have > 0 {
        let mut b = s.signed.clone();
        if g.bool() {
            b.resize(n + 9, true);
        } else {
            b = vec![true; n];
        }
        s.proof.bitmap = bitmap(&b).into();
        let r = verify(g, &s)?;
        check!(r.is_err(), "proof-quorum", "the proof of {} of {} validators is accepted with a bitmap that names others", have, n);
    }
    if g.below(4) == 0 {
        s.vals.clear();
        check!(verify(g, &s)?.is_err(), "proof-quorum", "a proof is accepted of no validators");
    }
    Ok(())
}

/// What the node's own vote looks like.
fn votes(g: &mut Gen) -> Res {
    let v = at::Vote { height: g.u64(), round: g.u64(), vote_type: 2, proposal_hash: g.bytes_n(32).into() };
    g.hit();
    g.note(|| format!("{:?}", v));
    let o = overlord::types::Vote { height: v.height, round: v.round, vote_type: overlord::types::VoteType::Precommit, block_hash: v.proposal_hash.clone() };
    check_eq!(hex(&rlp::encode(&v)), hex(&rlp::encode(&o)), "vote", "encoding of a vote");
    let w = rr::list(&[rr::uint(v.height as u128), rr::uint(v.round as u128), rr::uint(2), rr::bytes(&v.proposal_hash)]);
    check_eq!(hex(&rlp::encode(&v)), hex(&w), "vote", "encoding of a vote");
    Ok(())
}

// ---- P16

fn from_node<T: serde::de::DeserializeOwned>(v: &Value, what: &str) -> Result<T, pbt::Stop> {
    let t = v.to_string();
    no_panic(move || serde_json::from_str::<T>(&t).map_err(|e| e.to_string())).map_err(|p| fail("tools-panic", p))?.map_err(|e| fail("tools-json", format!("{} of the node is rejected: {}: {}", what, e, v)))
}

fn q(n: u64) -> Value {
    json!(format!("0x{:x}", n))
}
fn dat(b: &[u8]) -> Value {
    json!(format!("0x{}", hex(b)))
}
fn proof_json(p: &pt::Proof) -> Value {
    json!({"number": q(p.number), "round": q(p.round), "proposal_hash": dat(&p.block_hash.0), "signature": dat(&p.signature), "bitmap": dat(&p.bitmap)})
}
fn header_json(h: &pt::Header) -> Value {
    json!({
        "version": "V0", "prev_hash": dat(&h.prev_hash.0), "proposer": dat(&h.proposer.0), "state_root": dat(&h.state_root.0),
        "transactions_root": dat(&h.transactions_root.0), "signed_txs_hash": dat(&h.signed_txs_hash.0), "receipts_root": dat(&h.receipts_root.0),
        "log_bloom": dat(&h.log_bloom.0), "timestamp": q(h.timestamp), "number": q(h.number), "gas_used": q(h.gas_used.as_u64()), "gas_limit": q(h.gas_limit.as_u64()),
        "extra_data": h.extra_data.iter().map(|e| json!({"inner": dat(&e.inner)})).collect::<Vec<_>>(), "base_fee_per_gas": q(h.base_fee_per_gas.as_u64()),
        "proof": proof_json(&h.proof), "call_system_script_count": q(h.call_system_script_count as u64), "chain_id": q(h.chain_id),
    })
}

fn types_blocks(g: &mut Gen) -> Res {
    let b = gens::block(g);
    g.hit();
    g.note(|| format!("{:?}", b.header.number));
    let want = conv_block(&b);
    let node = serde_json::to_value(&b).unwrap();
    let got: at::Block = from_node(&node, "a block")?;
    check_eq!(got, want, "tools-block", "block read from the node's JSON");
    // written without the node's code
    let own = json!({"header": header_json(&b.header), "tx_hashes": b.tx_hashes.iter().map(|h| dat(&h.0)).collect::<Vec<_>>()});
    let got: at::Block = from_node(&own, "a block")?;
    check_eq!(got, want, "tools-block", "block read from JSON");
    check_eq!(serde_json::to_value(&want).unwrap(), own, "tools-write", "JSON of a block");
    let enc = rr::list(&[refenc::header(&b.header), refenc::hashes(&b.tx_hashes)]);
    check_eq!(hex(&rlp::encode(&want)), hex(&enc), "tools-rlp", "encoding of a block");
    check_eq!(hex(&rlp::encode(&want.header)), hex(&rlp::encode(&b.header)), "tools-rlp", "encoding of a header, here and in the node");
    check_eq!(rlp::decode::<at::Block>(&enc).ok(), Some(want.clone()), "tools-rlp", "decoded block");
    check_eq!(hex(&axon_tools::keccak_256(&enc)), hex(&keccak(&enc)), "tools-hash", "hash");

    let p = gens::proposal(g);
    let node = serde_json::to_value(&p).unwrap();
    let got: at::Proposal = from_node(&node, "a proposal")?;
    let want = at::Proposal {
        version: at::BlockVersion::V0,
        prev_hash: p.prev_hash,
        proposer: p.proposer,
        prev_state_root: p.prev_state_root,
        transactions_root: p.transactions_root,
        signed_txs_hash: p.signed_txs_hash,
        timestamp: p.timestamp,
        number: p.number,
        gas_limit: p.gas_limit,
        extra_data: p.extra_data.iter().map(|e| at::ExtraData { inner: e.inner.clone() }).collect(),
        base_fee_per_gas: p.base_fee_per_gas,
        proof: conv_proof(&p.proof),
        chain_id: p.chain_id,
        call_system_script_count: p.call_system_script_count,
        tx_hashes: p.tx_hashes.clone(),
    };
    check_eq!(got, want, "tools-proposal", "proposal read from the node's JSON");
    check_eq!(hex(&rlp::encode(&want)), hex(&refenc::proposal(&p)), "tools-rlp", "encoding of a proposal");
    Ok(())
}

fn types_metadata(g: &mut Gen) -> Res {
    for (i, a) in [axon_tools::consts::METADATA_CONTRACT_ADDRESS, axon_tools::consts::CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, axon_tools::consts::IMAGE_CELL_CONTRACT_ADDRESS].iter().enumerate() {
        let mut want = [0xff; 20];
        want[19] = i as u8 + 1;
        check_eq!(a.0, want, "system-address", "address of system contract {}", i + 1);
    }
    let mut m = gens::metadata(g);
    for v in &mut m.verifier_list {
        if g.below(4) == 0 {
            v.bls_pub_key = pt::Hex::encode(g.bytes_n(48));
        }
    }
    g.hit();
    g.note(|| format!("{:?}", m.version));
    let c = &m.consensus_config;
    let own = json!({
        "version": {"start": q(m.version.start), "end": q(m.version.end)},
        "epoch": q(m.epoch),
        "verifier_list": m.verifier_list.iter().map(|v| json!({"bls_pub_key": dat(&v.bls_pub_key.as_bytes()), "pub_key": dat(&v.pub_key.as_bytes()), "address": dat(&v.address.0), "propose_weight": q(v.propose_weight as u64), "vote_weight": q(v.vote_weight as u64)})).collect::<Vec<_>>(),
        "propose_counter": m.propose_counter.iter().map(|p| json!({"address": dat(&p.address.0), "count": q(p.count)})).collect::<Vec<_>>(),
        "consensus_config": {"gas_limit": q(c.gas_limit), "interval": q(c.interval), "propose_ratio": q(c.propose_ratio), "prevote_ratio": q(c.prevote_ratio), "precommit_ratio": q(c.precommit_ratio), "brake_ratio": q(c.brake_ratio), "tx_num_limit": q(c.tx_num_limit), "max_tx_size": q(c.max_tx_size), "max_contract_limit": q(c.max_contract_limit)},
    });
    let node = serde_json::to_value(&m).unwrap();
    let want = at::Metadata {
        version:          at::MetadataVersion::new(m.version.start, m.version.end),
        epoch:            m.epoch,
        verifier_list:    m.verifier_list.iter().map(conv_val).collect(),
        // (not read)
        propose_counter:  vec![],
        consensus_config: at::ConsensusConfig {
            gas_limit:       c.gas_limit,
            interval:        c.interval,
            propose_ratio:   c.propose_ratio,
            prevote_ratio:   c.prevote_ratio,
            precommit_ratio: c.precommit_ratio,
            brake_ratio:     c.brake_ratio,
            tx_num_limit:    c.tx_num_limit,
            max_tx_size:     c.max_tx_size,
        },
    };
    for (v, what) in [(&node, "the node's metadata"), (&own, "metadata")] {
        let got: at::Metadata = from_node(v, what)?;
        check_eq!(got, want, "tools-metadata", "{} read from JSON", what);
    }
    let k = g.u64();
    check_eq!(want.version.contains(k), m.version.contains(k), "tools-metadata", "{} in {:?}", k, m.version);
    let e = want.version.end;
    check_eq!((want.version.contains(e), want.version.contains(want.version.start)), (want.version.start <= e, want.version.start <= e), "tools-metadata", "bounds of {:?}", m.version);
    // validators in the order in which consensus numbers them
    let mut a: Vec<overlord::types::Node> = m.verifier_list.iter().map(|v| overlord::types::Node::new(v.pub_key.as_bytes())).collect();
    let mut b = want.verifier_list.clone();
    a.sort();
    b.sort();
    check_eq!(b.iter().map(|v| v.pub_key.as_bytes()).collect::<Vec<_>>(), a.iter().map(|v| v.address.clone()).collect::<Vec<_>>(), "tools-order", "order of validators");
    for (x, y) in want.verifier_list.iter().zip(&m.verifier_list) {
        check_eq!(hex(&rlp::encode(x)), hex(&rlp::encode(y)), "tools-rlp", "encoding of a validator, here and in the node");
        check_eq!(rlp::decode::<at::ValidatorExtend>(&rlp::encode(x)).ok(), Some(x.clone()), "tools-rlp", "decoded validator");
        no_panic(|| format!("{:?}", x)).map_err(|p| fail("tools-panic", p))?;
    }
    check_eq!(hex(&rlp::encode(&want.version)), hex(&rlp::encode(&m.version)), "tools-rlp", "encoding of a version, here and in the node");
    let full = at::Metadata { propose_counter: m.propose_counter.iter().map(|p| at::ProposeCount { address: p.address, count: p.count }).collect(), ..want };
    check_eq!(rlp::decode::<at::Metadata>(&rlp::encode(&full)).ok(), Some(full), "tools-rlp", "decoded metadata");
    Ok(())
}

/// Text as a number or bytes: exact or an error.
fn types_text(g: &mut Gen) -> Res {
    let s = match g.below(6) {
        0 => format!("0x{:x}", g.u64()),
        1 => format!("0x{}{:x}", "0".repeat(g.below(70) as usize), g.u64()),
        2 => format!("0x{}", hex(&g.bytes(40))),
        3 => g.text(12),
        4 => format!("0x{}", g.text(12)),
        _ => {
            let t = format!("0x{:x}", g.u64());
            let b = g.mutate(t.as_bytes());
            String::from_utf8_lossy(&b).into_owned()
        }
    };
    g.note(|| format!("{:?}", s));
    let num = s.strip_prefix("0x").filter(|d| d.bytes().all(|b| b.is_ascii_hexdigit())).map(|d| d.trim_start_matches('0').to_string());
    let want = num.and_then(|d| if d.is_empty() { Some(0) } else { u64::from_str_radix(&d, 16).ok() });
    if want.is_some() {
        g.hit();
    }
    let j = json!({"start": s, "end": "0x1"}).to_string();
    let got = no_panic(|| serde_json::from_str::<at::MetadataVersion>(&j).ok().map(|v| v.start)).map_err(|p| fail("tools-panic", p))?;
    // (nothing after the prefix is not specified)
    if s != "0x" {
        check_eq!(got, want, "tools-number", "number {:?}", s);
    }
    let j = json!({"bls_pub_key": "0x", "pub_key": s, "address": format!("0x{}", "11".repeat(20)), "propose_weight": s, "vote_weight": "0x2"}).to_string();
    let got = no_panic(|| serde_json::from_str::<at::ValidatorExtend>(&j).ok().map(|v| v.propose_weight)).map_err(|p| fail("tools-panic", p))?;
    let bytes = s.strip_prefix("0x").and_then(refs::unhex);
    if s != "0x" {
        check_eq!(got, want.and_then(|v| u32::try_from(v).ok()).filter(|_| bytes.is_some()), "tools-number", "weight {:?}", s);
    }
    let h = no_panic(|| s.parse::<at::Hex>().ok().map(|h| h.as_bytes().to_vec())).map_err(|p| fail("tools-panic", p))?;
    check_eq!(h, bytes, "tools-hex", "bytes {:?}", s);
    if let Some(b) = bytes {
        let h = at::Hex::encode(&b);
        check_eq!(h.as_string(), format!("0x{}", hex(&b)), "tools-hex", "printed bytes");
        check_eq!(h.as_string_trim0x(), hex(&b), "tools-hex", "printed bytes");
        check_eq!((h.len(), h.is_empty()), (b.len(), b.is_empty()), "tools-hex", "length of bytes");
        check_eq!(serde_json::to_value(&h).unwrap(), dat(&b), "tools-hex", "JSON of bytes");
        check_eq!(axon_tools::hex::hex_decode(&hex(&b)).ok(), Some(b.clone()), "tools-hex", "decoded bytes");
        check_eq!(axon_tools::hex::hex_encode(&b), hex(&b), "tools-hex", "encoded bytes");
    }
    let v = g.byte();
    check_eq!(at::BlockVersion::try_from(v).is_ok(), v == 0, "tools-version", "block version {}", v);
    Ok(())
}

// ---- P17

fn trie(g: &mut Gen) -> Res {
    let n = g.usize(1, 24);
    let mut m: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let klen = *g.pick(&[0usize, 1, 2, 32]);
    for i in 0..n {
        let k = match klen {
            0 => rr::uint(i as u128),
            1 | 2 => {
                // many common prefixes
                let l = g.usize(1, 4);
                let mut k: Vec<u8> = (0..l).map(|_| *g.pick(&[0x00u8, 0x01, 0x10, 0x11, 0xff])).collect();
                k.push(0x70 + l as u8);
                k
            }
            _ => keccak(&g.bytes(3)).to_vec(),
        };
        let l = *g.pick(&[1usize, 2, 20, 31, 32, 33, 60, 120]);
        let mut v = g.bytes_n(l);
        v[0] |= 1;
        m.insert(k, v);
    }
    let kv: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let root = mpt::root(&kv);
    let key = if g.below(3) > 0 {
        kv[g.below(kv.len() as u64) as usize].0.clone()
    } else {
        match g.below(3) {
            0 => g.bytes(5),
            1 => g.mutate(&kv[0].0),
            _ => keccak(&g.bytes(4)).to_vec(),
        }
    };
    let want = m.get(&key).cloned();
    g.note(|| format!("{} pairs, key {} {}", kv.len(), hex(&key), if want.is_some() { "present" } else { "absent" }));
    if kv.len() > 1 {
        g.hit();
    }
    let call = |root: [u8; 32], key: &[u8], p: Vec<Vec<u8>>| no_panic(move || axon_tools::verify_trie_proof(ethereum_types::H256(root), key, p).map_err(|e| format!("{:?}", e))).map_err(|p| fail("trie-panic", p));
    let proof = mpt::proof(&kv, &key);
    let r = call(root, &key, proof.clone())?;
    check_eq!(r, Ok(want.clone()), "trie-proof", "value of {} under its proof", hex(&key));
    // the order of nodes and other nodes do not matter
    let mut all = proof.clone();
    all.push(g.bytes_n(40));
    g.shuffle(&mut all);
    check_eq!(call(root, &key, all)?, Ok(want.clone()), "trie-proof", "value of {} under its proof in another order", hex(&key));
    // nothing else is proved by what is left of it
    let mut bad = proof.clone();
    match g.below(4) {
        0 => {
            let i = g.below(bad.len() as u64) as usize;
            bad[i] = g.mutate(&bad[i]);
        }
        1 => {
            let i = g.below(bad.len() as u64) as usize;
            bad.remove(i);
        }
        2 => {
            // the proof of another trie
            let mut kv2 = kv.clone();
            let i = g.below(kv2.len() as u64) as usize;
            kv2[i].1.push(1);
            bad = mpt::proof(&kv2, &key);
        }
        _ => {
            let i = g.below(bad.len() as u64) as usize;
            let b = g.bytes(50);
            bad[i] = b;
        }
    }
    let r = call(root, &key, bad)?;
    if let Ok(Some(v)) = &r {
        check_eq!(Some(v), want.as_ref(), "trie-forged", "value proved by a changed proof");
    }
    let mut other = root;
    flip(g, &mut other);
    let r = call(other, &key, proof)?;
    check!(!matches!(r, Ok(Some(_))), "trie-forged", "a value is proved under another root: {:?}", r);
    Ok(())
}

fn merge(a: &[u8], b: &[u8]) -> [u8; 32] {
    ckb_hash::blake2b_256([a, b].concat())
}

/// CKB's complete binary Merkle tree (RFC 6): root, and the proof of some leaves.
fn cbmt(leaves: &[[u8; 32]]) -> Vec<[u8; 32]> {
    let n = leaves.len();
    let mut t = vec![[0u8; 32]; n - 1];
    t.extend(leaves);
    for i in (0..n - 1).rev() {
        t[i] = merge(&t[2 * i + 1], &t[2 * i + 2]);
    }
    t
}
fn cbmt_proof(t: &[[u8; 32]], which: &[usize]) -> (Vec<u32>, Vec<[u8; 32]>) {
    let n = (t.len() + 1) / 2;
    let mut known: std::collections::BTreeSet<usize> = which.iter().map(|i| n - 1 + i).collect();
    let mut lemmas = vec![];
    // from the last position to the first: each level is finished before the next
    while let Some(i) = known.pop_last() {
        if i == 0 {
            break;
        }
        let sib = if i % 2 == 1 { i + 1 } else { i - 1 };
        if !known.remove(&sib) {
            lemmas.push(t[sib]);
        }
        known.insert((i - 1) / 2);
    }
    let mut idx: Vec<usize> = which.iter().map(|i| n - 1 + i).collect();
    idx.sort_by_key(|i| t[*i]);
    (idx.iter().map(|i| *i as u32).collect(), lemmas)
}

fn ckb_proof(g: &mut Gen) -> Res {
    let n = if g.bool() { g.usize(1, 6) } else { g.usize(1, 40) };
    let leaves: Vec<[u8; 32]> = (0..n).map(|_| keccak(&g.entropy(8))).collect();
    let t = cbmt(&leaves);
    let mut which: Vec<usize> = (0..n).collect();
    g.shuffle(&mut which);
    which.truncate(g.usize(1, n.min(6)));
    let (indices, lemmas) = cbmt_proof(&t, &which);
    let mut ls: Vec<[u8; 32]> = which.iter().map(|i| leaves[*i]).collect();
    let ty = *g.pick(&[0u8, 0, 1, 2, 255]);
    let other = keccak(&g.bytes(3));
    let (raw, wit) = if ty == 0 { (t[0], other) } else { (other, t[0]) };
    let good = precompile::VerifyProofPayload { verify_type: ty, transactions_root: merge(&raw, &wit), witnesses_root: wit, raw_transactions_root: raw, proof: precompile::Proof { indices, lemmas, leaves: ls.clone() } };
    g.note(|| format!("{} leaves, proof of {:?}, type {}", n, which, ty));
    if n > 1 {
        g.hit();
    }
    let call = |p: precompile::VerifyProofPayload| no_panic(move || precompile::verify_proof(p)).map_err(|p| fail("ckb-panic", p));
    check_eq!(call(good.clone())?, Ok(()), "ckb-proof", "proof of {:?} of {} leaves, type {}", which, n, ty);
    let mut bad = good.clone();
    let name = match g.below(9) {
        0 => {
            flip(g, &mut bad.transactions_root);
            "transactions root"
        }
        1 => {
            flip(g, &mut bad.raw_transactions_root);
            "raw transactions root"
        }
        2 => {
            flip(g, &mut bad.witnesses_root);
            "witnesses root"
        }
        3 => {
            let i = g.below(ls.len() as u64) as usize;
            flip(g, &mut ls[i]);
            bad.proof.leaves = ls;
            "leaf"
        }
        4 if !bad.proof.lemmas.is_empty() => {
            let i = g.below(bad.proof.lemmas.len() as u64) as usize;
            flip(g, &mut bad.proof.lemmas[i]);
            "lemma"
        }
        5 if !bad.proof.lemmas.is_empty() => {
            bad.proof.lemmas.pop();
            "missing lemma"
        }
        6 => {
            bad.proof.leaves.pop();
            "missing leaf"
        }
        7 => {
            // the other tree
            bad.verify_type = if ty == 0 { 1 } else { 0 };
            "type"
        }
        _ => {
            // both roots exchanged, consistent with nothing
            std::mem::swap(&mut bad.raw_transactions_root, &mut bad.witnesses_root);
            "pair of roots"
        }
    };
    if bad != good {
        g.label(name);
        check!(call(bad)?.is_err(), "ckb-forged", "a proof with a changed {} is accepted", name);
    }
    // any positions and lemmas whatever: never a panic, and never a leaf that is not there
    let mut odd = good.clone();
    match g.below(4) {
        0 => {
            odd.proof.indices = g.vec(5, |g| if g.bool() { g.below(20) as u32 } else { g.u32() });
            odd.proof.leaves.resize(odd.proof.indices.len(), [0; 32]);
        }
        1 => {
            // one more leaf, somewhere
            odd.proof.indices.push(g.below(2 * n as u64 + 2) as u32);
            let l = keccak(&g.bytes(2));
            odd.proof.leaves.push(l);
            odd.proof.indices.sort();
            if g.bool() {
                g.shuffle(&mut odd.proof.indices);
            }
        }
        2 => {
            // the root as a leaf, and another
            odd.proof.lemmas.clear();
            odd.proof.indices = vec![0, g.u32()];
            odd.proof.leaves = vec![t[0], keccak(&g.bytes(2))];
            if g.bool() {
                odd.proof.indices.swap(0, 1);
            }
        }
        _ => {
            // nodes of the tree and one that is not
            let k = g.usize(1, 4);
            odd.proof.indices = (0..k).map(|_| g.below(t.len() as u64) as u32).collect();
            odd.proof.leaves = odd.proof.indices.iter().map(|i| t[*i as usize]).collect();
            odd.proof.leaves.push(keccak(&g.bytes(2)));
            odd.proof.indices.push(g.below(2 * n as u64 + 2) as u32);
            let m = g.usize(0, 4);
            odd.proof.lemmas = (0..m).map(|_| t[g.below(t.len() as u64) as usize]).collect();
            odd.proof.leaves.sort();
        }
    }
    let there = odd.proof.leaves.iter().all(|l| t.contains(l));
    let r = call(odd.clone())?;
    if !there {
        check!(r.is_err(), "ckb-forged", "a proof of a leaf that is not there is accepted: {:?} of {} leaves", odd.proof.indices, n);
    }
    // the two transports of a payload
    let enc = ethers::core::abi::AbiEncode::encode(good.clone());
    let back = <precompile::VerifyProofPayload as ethers::core::abi::AbiDecode>::decode(&enc).map_err(|e| fail("ckb-abi", e.to_string()))?;
    check_eq!(back, good, "ckb-abi", "payload after its ABI encoding");
    let w = |v: &[[u8; 32]]| rr::list(&v.iter().map(|x| rr::bytes(x)).collect::<Vec<_>>());
    let p = &good.proof;
    let want = rr::list(&[
        rr::uint(good.verify_type as u128),
        rr::bytes(&good.transactions_root),
        rr::bytes(&good.witnesses_root),
        rr::bytes(&good.raw_transactions_root),
        rr::list(&[rr::list(&p.indices.iter().map(|i| rr::uint(*i as u128)).collect::<Vec<_>>()), w(&p.lemmas), w(&p.leaves)]),
    ]);
    check_eq!(hex(&rlp::encode(&good)), hex(&want), "ckb-rlp", "RLP of a payload");
    Ok(())
}

fn main() {
    pbt::main(vec![
        Prop {
            id:     "P15",
            rule:   "blocks with two or more validators and at least one signer; every vote",
            assume: vec!["BLS signatures made with common-crypto (property P08) are valid", "refs::keccak is Keccak-256"],
            facets: vec![Facet::new("block", 5_000, block_proof), Facet::new("too-few", 4_000, too_few), Facet::new("vote", 20_000, votes)],
        },
        Prop {
            id:     "P16",
            rule:   "every block and metadata; texts that are a number",
            assume: vec![],
            facets: vec![Facet::new("blocks", 40_000, types_blocks), Facet::new("metadata", 60_000, types_metadata), Facet::new("text", 400_000, types_text)],
        },
        Prop {
            id:     "P17",
            rule:   "tries with two or more pairs; trees with two or more leaves",
            assume: vec!["refs::mpt builds Ethereum tries", "ckb_hash::blake2b_256 is CKB's hash"],
            facets: vec![Facet::new("trie", 40_000, trie), Facet::new("ckb", 80_000, ckb_proof)],
        },
    ])
}
