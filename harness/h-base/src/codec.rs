//! P03 untrusted bytes, P04 object codecs, P05 block and proposal hashes, P06 receipts.
use crate::{gens, refenc};
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::codec::ProtocolCodec;
use protocol::traits::MessageCodec;
use protocol::types::*;
use refs::{keccak, rlp as R};
use R::{bytes as b, list, uint};

/// A codec under test: its name, valid encodings, and what decoding and encoding again gives.
struct Codec {
    name:   &'static str,
    valid:  fn(&mut Gen) -> Vec<u8>,
    /// Err: rejected. Ok: the decoded value's encoding, and its Debug form.
    decode: fn(&[u8]) -> Result<(Vec<u8>, String), String>,
}

macro_rules! codec {
    ($name:expr, $t:ty, $g:expr) => {
        Codec {
            name:   $name,
            valid:  |g| {
                let v: $t = $g(g);
                <$t as ProtocolCodec>::encode(&v).unwrap().to_vec()
            },
            decode: |x| {
                let v = <$t as ProtocolCodec>::decode(x).map_err(|e| e.to_string())?;
                let e = <$t as ProtocolCodec>::encode(&v).map_err(|e| e.to_string())?;
                Ok((e.to_vec(), format!("{:?}", v)))
            },
        }
    };
}
macro_rules! msg {
    ($name:expr, $t:ty, $g:expr) => {
        Codec {
            name:   $name,
            valid:  |g| {
                let mut v: $t = $g(g);
                MessageCodec::encode_msg(&mut v).unwrap().to_vec()
            },
            decode: |x| {
                let mut v = <$t as MessageCodec>::decode_msg(Bytes::copy_from_slice(x)).map_err(|e| e.to_string())?;
                let d = format!("{:?}", v);
                let e = MessageCodec::encode_msg(&mut v).map_err(|e| e.to_string())?;
                Ok((e.to_vec(), d))
            },
        }
    };
}

pub fn utx(g: &mut Gen) -> UnverifiedTransaction {
    let unsigned = gens::unsigned(g);
    let chain = gens::chain_id(g, unsigned.is_legacy());
    let sig = if g.below(3) == 0 { gens::interop_sig(g).0 } else { gens::eth_sig(g) };
    UnverifiedTransaction { unsigned, chain_id: chain, signature: Some(sig), hash: H256::zero() }.calc_hash()
}

/// A transaction really signed by a key, or an interoperation one.
pub fn stx(g: &mut Gen) -> SignedTransaction {
    let unsigned = gens::unsigned(g);
    let chain = gens::chain_id(g, unsigned.is_legacy());
    let sig = if g.below(3) == 0 {
        gens::interop_sig(g).0
    } else {
        let key = gens::secret(g);
        crate::tx::sign(&key, &refenc::sighash(&unsigned, chain))
    };
    let u = UnverifiedTransaction { unsigned, chain_id: chain, signature: Some(sig), hash: H256::zero() }.calc_hash();
    SignedTransaction::from_unverified(u).unwrap()
}

fn script(g: &mut Gen) -> Script {
    Script { code_hash: gens::h256(g), args: gens::bytes(g, 40), hash_type: g.byte() }
}
fn witness(g: &mut Gen) -> Witness {
    Witness { lock: gens::opt(g, |g| gens::bytes(g, 40)), input_type: gens::opt(g, |g| gens::bytes(g, 40)), output_type: gens::opt(g, |g| gens::bytes(g, 40)) }
}
fn ctx(g: &mut Gen) -> ExecutorContext {
    ExecutorContext {
        block_number: gens::u256(g),
        block_coinbase: gens::h160(g),
        block_timestamp: gens::u256(g),
        chain_id: gens::u256(g),
        origin: gens::h160(g),
        gas_price: gens::u256(g),
        block_gas_limit: gens::u64w(g),
        block_base_fee_per_gas: gens::u64w(g),
        extra_data: gens::extra(g),
    }
}
fn plain_validator(g: &mut Gen) -> Validator {
    Validator { bls_pub_key: gens::hexv(g, 50), pub_key: gens::hexv(g, 40), propose_weight: g.u32(), vote_weight: g.u32() }
}
fn ckb_info(g: &mut Gen) -> CkbRelatedInfo {
    CkbRelatedInfo {
        metadata_type_id: gens::h256(g),
        checkpoint_type_id: gens::h256(g),
        xudt_args: gens::h256(g),
        stake_smt_type_id: gens::h256(g),
        delegate_smt_type_id: gens::h256(g),
        reward_smt_type_id: gens::h256(g),
    }
}
fn fork(g: &mut Gen) -> HardforkInfoInner {
    HardforkInfoInner { block_number: g.u64(), flags: gens::h256(g) }
}
fn counts(g: &mut Gen) -> Vec<ProposeCount> {
    g.many(5, |g| ProposeCount { address: gens::h160(g), count: g.u64() })
}

fn codecs() -> Vec<Codec> {
    vec![
        codec!("UnverifiedTransaction", UnverifiedTransaction, utx),
        codec!("SignedTransaction", SignedTransaction, stx),
        codec!("Block", Block, gens::block),
        codec!("Header", Header, gens::header),
        codec!("Proposal", Proposal, gens::proposal),
        codec!("Proof", Proof, gens::proof),
        codec!("Receipt", Receipt, gens::receipt),
        codec!("TxResp", TxResp, gens::tx_resp),
        codec!("Metadata", Metadata, gens::metadata),
        codec!("MetadataInner", MetadataInner, |g: &mut Gen| gens::metadata(g).into_part().0),
        codec!("SpecMetadata", SpecMetadata, |g: &mut Gen| SpecMetadata {
            version: MetadataVersion::new(g.u64(), g.u64()),
            epoch: g.u64(),
            verifier_list: g.many(4, plain_validator),
            propose_counter: counts(g),
            consensus_config: gens::consensus_config(g),
        }),
        codec!("ConsensusConfig", ConsensusConfig, gens::consensus_config),
        codec!("ConsensusConfigV0", ConsensusConfigV0, |g: &mut Gen| gens::consensus_config(g).into()),
        codec!("MetadataVersion", MetadataVersion, |g: &mut Gen| MetadataVersion::new(g.u64(), g.u64())),
        codec!("Validator", Validator, plain_validator),
        codec!("ValidatorExtend", ValidatorExtend, gens::validator),
        codec!("ConsensusValidator", ConsensusValidator, |g: &mut Gen| (&gens::validator(g)).into()),
        codec!("ProposeCount", ProposeCount, |g: &mut Gen| ProposeCount { address: gens::h160(g), count: g.u64() }),
        codec!("Hex", Hex, |g: &mut Gen| gens::hexv(g, 300)),
        codec!("Address", Address, |g: &mut Gen| Address(gens::h160(g))),
        codec!("BlockVersion", BlockVersion, |_: &mut Gen| BlockVersion::V0),
        codec!("ExtraData", ExtraData, |g: &mut Gen| ExtraData { inner: gens::bytes(g, 80) }),
        codec!("Script", Script, script),
        codec!("CellWithData", CellWithData, |g: &mut Gen| CellWithData { type_script: gens::opt(g, script), lock_script: script(g), data: gens::bytes(g, 80) }),
        codec!("SignatureS", SignatureS, |g: &mut Gen| SignatureS::new(g.many(4, witness))),
        codec!("Witness", Witness, witness),
        codec!("CellDepWithPubKey", CellDepWithPubKey, |g: &mut Gen| CellDepWithPubKey { cell_dep: gens::cell_dep(g), pub_key: gens::bytes(g, 80) }),
        codec!("CellDep", CellDep, gens::cell_dep),
        codec!("OutPoint", OutPoint, |g: &mut Gen| OutPoint { tx_hash: gens::h256(g), index: g.u32() }),
        codec!("ExecutorContext", ExecutorContext, ctx),
        codec!("CkbRelatedInfo", CkbRelatedInfo, ckb_info),
        codec!("HardforkInfo", HardforkInfo, |g: &mut Gen| HardforkInfo { inner: g.many(4, fork) }),
        codec!("HardforkInfoInner", HardforkInfoInner, fork),
        codec!("DBBytes", DBBytes, |g: &mut Gen| DBBytes(gens::bytes(g, 300))),
        msg!("BatchSignedTxs", BatchSignedTxs, |g: &mut Gen| {
            let n = g.many(2, |_| ()).len();
            BatchSignedTxs::new((0..n).map(|_| stx(g)).collect())
        }),
        msg!("BatchBlocks", BatchBlocks, |g: &mut Gen| BatchBlocks::new(g.many(3, gens::block))),
    ]
}

/// Structured junk: well-formed RLP of a shape near to nothing or to anything.
fn rlp_junk(g: &mut Gen, depth: u64) -> Vec<u8> {
    if depth == 0 || g.below(3) == 0 {
        return match g.below(6) {
            0 => b(&[]),
            1 => uint(g.u64() as u128),
            2 => b(&g.bytes_n(32)),
            3 => b(&g.bytes_n(20)),
            4 => b(&g.bytes_n(256)),
            _ => b(&g.bytes(70)),
        };
    }
    let n = match g.below(3) {
        0 => g.usize(0, 3),
        1 => *g.pick(&[2usize, 5, 6, 8, 9, 11, 12, 13, 17]),
        _ => g.usize(0, 18),
    };
    let v: Vec<Vec<u8>> = (0..n).map(|_| rlp_junk(g, depth - 1)).collect();
    list(&v)
}

/// Replaces, removes, repeats or nests one item somewhere in a valid RLP tree.
fn rlp_edit(g: &mut Gen, raw: &[u8]) -> Option<Vec<u8>> {
    fn edit(g: &mut Gen, i: &R::Item) -> Vec<u8> {
        let enc = R::Item::enc;
        if let R::Item::L(l) = i {
            if !l.is_empty() && g.below(5) != 0 {
                let k = g.below(l.len() as u64) as usize;
                let mut parts: Vec<Vec<u8>> = l.iter().map(enc).collect();
                match g.below(6) {
                    0 => {
                        parts.remove(k);
                    }
                    1 => {
                        let c = parts[k].clone();
                        parts.insert(k, c);
                    }
                    2 => {
                        let n = g.below(l.len() as u64) as usize;
                        parts.swap(k, n);
                    }
                    _ => parts[k] = edit(g, &l[k]),
                }
                return list(&parts);
            }
        }
        match g.below(8) {
            0 => b(&[]),
            1 => list(&[]),
            2 => list(&[enc(i)]),
            3 => {
                // an integer with a leading zero, or an overlong length form
                match i {
                    R::Item::S(x) => b(&[&[0u8][..], x].concat()),
                    _ => enc(i),
                }
            }
            4 => b(&g.bytes(40)),
            5 => match i {
                R::Item::S(x) => b(&g.mutate(x)),
                _ => enc(i),
            },
            6 => uint(u64::MAX as u128 + g.below(3) as u128),
            _ => rlp_junk(g, 2),
        }
    }
    let item = R::parse(raw).ok()?.0;
    Some(edit(g, &item))
}

fn untrusted(g: &mut Gen) -> Res {
    let cs = codecs();
    let c = &cs[g.below(cs.len() as u64) as usize];
    let (x, how) = match g.below(8) {
        0 => (g.bytes(300), "random bytes"),
        1 => (rlp_junk(g, 3), "random rlp"),
        2 | 3 => {
            let v = (c.valid)(g);
            (g.mutate(&v), "mutated bytes")
        }
        4 => {
            let o = &cs[g.below(cs.len() as u64) as usize];
            ((o.valid)(g), "another type's encoding")
        }
        5 => {
            let v = (c.valid)(g);
            let n = g.usize(0, v.len());
            (v[..n].to_vec(), "truncated")
        }
        _ => {
            let v = (c.valid)(g);
            let (p, tail) = if !v.is_empty() && v[0] < 0xc0 && c.name.ends_with("Transaction") { (vec![v[0]], v[1..].to_vec()) } else { (vec![], v.clone()) };
            match rlp_edit(g, &tail) {
                Some(e) => ([p, e].concat(), "edited rlp tree"),
                None => (g.mutate(&v), "mutated bytes"),
            }
        }
    };
    g.label(how);
    g.note(|| format!("{} from {}: {}", c.name, how, refs::hex(&x)));
    let name = c.name;
    let d = c.decode;
    let r = no_panic(|| d(&x)).map_err(|p| fail(&format!("decode-panic-{}", name), format!("decoding a {} panics ({}): {}", name, how, p)))?;
    match r {
        Err(_) => g.label("rejected"),
        Ok((e, dbg)) => {
            g.label("accepted");
            g.label(&format!("accepted {}", name));
            g.hit();
            let r2 = no_panic(|| d(&e)).map_err(|p| fail(&format!("decode-panic-{}", name), format!("decoding a re-encoded {} panics: {}", name, p)))?;
            let (e2, dbg2) = r2.map_err(|m| fail(&format!("reencode-{}", name), format!("a {} that was accepted is rejected once encoded again: {}", name, m)))?;
            check_eq!(refs::hex(&e2), refs::hex(&e), &format!("reencode-{}", name), "encoding of the decoded {}", name);
            // the hash a transaction carries is of the bytes received: it may differ when these are not canonical
            if !name.ends_with("Transaction") && !name.starts_with("Batch") {
                check_eq!(dbg2, dbg, &format!("reencode-{}", name), "{} after encoding and decoding again", name);
            }
        }
    }
    Ok(())
}

/// The transaction accepted from any bytes: its hash check succeeds exactly when the bytes are its encoding.
fn tx_bytes(g: &mut Gen) -> Res {
    let t = utx(g);
    let v = ProtocolCodec::encode(&t).unwrap().to_vec();
    let x = match g.below(4) {
        0 => v.clone(),
        1 => g.mutate(&v),
        2 => [v.clone(), g.bytes(6)].concat(),
        _ => {
            let (p, tail) = if v[0] < 0xc0 { (vec![v[0]], v[1..].to_vec()) } else { (vec![], v.clone()) };
            match rlp_edit(g, &tail) {
                Some(e) => [p, e].concat(),
                None => v.clone(),
            }
        }
    };
    g.note(|| refs::hex(&x));
    let r = no_panic(|| <UnverifiedTransaction as ProtocolCodec>::decode(&x).ok()).map_err(|p| fail("decode-panic-UnverifiedTransaction", p))?;
    if let Some(d) = r {
        g.hit();
        let e = ProtocolCodec::encode(&d).unwrap().to_vec();
        g.label(if e == x { "canonical" } else { "not canonical" });
        check_eq!(d.hash.0, keccak(&x), "tx-raw-hash", "hash of a decoded transaction");
        check_eq!(d.check_hash().is_ok(), e == x, "tx-check-hash", "check_hash accepts exactly the canonical bytes");
        // the same bytes must not be two transactions: the parsed fields are those of the bytes
        if e == x {
            let s = no_panic(|| SignedTransaction::from_unverified(d.clone()).ok()).map_err(|p| fail("sender-panic", p))?;
            if let Some(s) = s {
                check_eq!(s.transaction, d, "tx-from-unverified", "from_unverified keeps the transaction");
                let raw = ProtocolCodec::encode(&s).unwrap();
                let back = <SignedTransaction as ProtocolCodec>::decode(&raw).map_err(|e| fail("stored-tx", format!("a stored transaction is rejected: {}", e)))?;
                check_eq!(back, s, "stored-tx", "a stored transaction read back");
            }
        }
    }
    Ok(())
}

// ---- P04

fn opt<T>(v: &Option<T>, f: impl Fn(&T) -> Vec<u8>) -> Vec<u8> {
    match v {
        None => list(&[]),
        Some(x) => list(&[f(x)]),
    }
}
fn hx(h: &Hex) -> Vec<u8> {
    list(&[b(h.as_ref())])
}
fn r_valx(v: &ValidatorExtend) -> Vec<u8> {
    list(&[hx(&v.bls_pub_key), hx(&v.pub_key), b(&v.address.0), uint(v.propose_weight as u128), uint(v.vote_weight as u128)])
}
fn r_val(v: &Validator) -> Vec<u8> {
    list(&[hx(&v.bls_pub_key), hx(&v.pub_key), uint(v.propose_weight as u128), uint(v.vote_weight as u128)])
}
fn r_cc(c: &ConsensusConfig) -> Vec<Vec<u8>> {
    [c.gas_limit, c.interval, c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio, c.tx_num_limit, c.max_tx_size, c.max_contract_limit].iter().map(|x| uint(*x as u128)).collect()
}
fn r_counts(c: &[ProposeCount]) -> Vec<u8> {
    list(&c.iter().map(|p| list(&[b(&p.address.0), uint(p.count as u128)])).collect::<Vec<_>>())
}
fn r_ver(v: &MetadataVersion) -> Vec<u8> {
    list(&[uint(v.start as u128), uint(v.end as u128)])
}
fn r_script(s: &Script) -> Vec<u8> {
    list(&[b(&s.code_hash.0), b(&s.args), uint(s.hash_type as u128)])
}
fn r_witness(w: &Witness) -> Vec<u8> {
    list(&[opt(&w.lock, |x| b(x)), opt(&w.input_type, |x| b(x)), opt(&w.output_type, |x| b(x))])
}
fn r_dep(c: &CellDep) -> Vec<u8> {
    list(&[b(&c.tx_hash.0), uint(c.index as u128), uint(c.dep_type as u128)])
}
fn r_fork(f: &HardforkInfoInner) -> Vec<u8> {
    list(&[uint(f.block_number as u128), b(&f.flags.0)])
}

fn same<T: ProtocolCodec + PartialEq + std::fmt::Debug>(g: &mut Gen, name: &str, v: &T, want: Option<Vec<u8>>) -> Res {
    g.label(name);
    g.note(|| format!("{} {:?}", name, v));
    let e = ProtocolCodec::encode(v).map_err(|e| fail(&format!("encode-{}", name), e.to_string()))?;
    if let Some(w) = want {
        check_eq!(refs::hex(&e), refs::hex(&w), &format!("encoding-{}", name), "encoding of a {}", name);
    }
    let d = <T as ProtocolCodec>::decode(&e).map_err(|e| fail(&format!("roundtrip-{}", name), format!("a valid {} is rejected: {}", name, e)))?;
    check_eq!(d, *v, &format!("roundtrip-{}", name), "decode(encode({}))", name);
    Ok(())
}

fn objects(g: &mut Gen) -> Res {
    g.hit();
    match g.below(32) {
        0 => {
            let v = gens::header(g);
            let w = refenc::header(&v);
            check_eq!(v.size(), w.len(), "header-size", "size of a header");
            same(g, "Header", &v, Some(w))
        }
        1 => {
            let v = gens::proposal(g);
            let w = refenc::proposal(&v);
            // the consensus engine's own codec is the same encoding
            let o = overlord_encode(&v);
            check_eq!(refs::hex(&o), refs::hex(&w), "overlord-codec", "overlord encoding of a proposal");
            let d = <Proposal as overlord::Codec>::decode(o.into()).map_err(|e| fail("overlord-codec", e.to_string()))?;
            check_eq!(d, v, "overlord-codec", "overlord decode(encode(proposal))");
            same(g, "Proposal", &v, Some(w))
        }
        2 | 3 => {
            let v = gens::block(g);
            let w = list(&[refenc::header(&v.header), refenc::hashes(&v.tx_hashes)]);
            same(g, "Block", &v, Some(w))
        }
        4 => {
            let v = gens::proof(g);
            let w = refenc::proof(&v);
            same(g, "Proof", &v, Some(w))
        }
        5 | 6 => {
            let v = gens::receipt(g);
            same(g, "Receipt", &v, None)
        }
        7 | 8 => {
            let v = gens::tx_resp(g);
            same(g, "TxResp", &v, None)?;
            // also next to other items in a stream: the object must be one well-formed item
            let two = list(&[ProtocolCodec::encode(&v).unwrap().to_vec(), uint(7)]);
            let r = rlp::Rlp::new(&two);
            check_eq!(r.item_count().ok(), Some(2), "stream-TxResp", "items in a list of a TxResp and a number");
            check_eq!(r.val_at::<TxResp>(0).ok(), Some(v), "stream-TxResp", "TxResp inside a list");
            Ok(())
        }
        9 | 10 => {
            let v = gens::metadata(g);
            let w = list(&[r_ver(&v.version), uint(v.epoch as u128), list(&v.verifier_list.iter().map(r_valx).collect::<Vec<_>>()), r_counts(&v.propose_counter), list(&r_cc(&v.consensus_config))]);
            let (a, c) = v.clone().into_part();
            check_eq!(Metadata::from_parts(a, c), v, "metadata-parts", "metadata put together from its parts");
            same(g, "Metadata", &v, Some(w))
        }
        11 => {
            let v = gens::metadata(g).into_part().0;
            let w = list(&[r_ver(&v.version), uint(v.epoch as u128), list(&v.verifier_list.iter().map(r_valx).collect::<Vec<_>>()), r_counts(&v.propose_counter)]);
            same(g, "MetadataInner", &v, Some(w))
        }
        12 => {
            let v = gens::consensus_config(g);
            let w = list(&r_cc(&v));
            same(g, "ConsensusConfig", &v, Some(w))
        }
        13 => {
            let c = gens::consensus_config(g);
            let v: ConsensusConfigV0 = c.clone().into();
            let w = list(&r_cc(&c)[..8]);
            let mut back = c.clone();
            back.max_contract_limit = 0x6000;
            check_eq!(ConsensusConfig::from(v.clone()), back, "config-v0", "config widened from its first version");
            same(g, "ConsensusConfigV0", &v, Some(w))
        }
        14 => {
            let v = plain_validator(g);
            let w = r_val(&v);
            same(g, "Validator", &v, Some(w))
        }
        15 => {
            let v = gens::validator(g);
            let w = r_valx(&v);
            same(g, "ValidatorExtend", &v, Some(w))
        }
        16 => {
            let v = gens::hexv(g, 300);
            let w = hx(&v);
            same(g, "Hex", &v, Some(w))
        }
        17 => {
            let v = Address(gens::h160(g));
            let w = list(&[b(&v.0 .0)]);
            same(g, "Address", &v, Some(w))
        }
        18 => {
            let v = CellWithData { type_script: gens::opt(g, script), lock_script: script(g), data: gens::bytes(g, 80) };
            let w = list(&[opt(&v.type_script, r_script), r_script(&v.lock_script), b(&v.data)]);
            same(g, "CellWithData", &v, Some(w))
        }
        19 => {
            let v = SignatureS::new(g.many(4, witness));
            let w = list(&[list(&v.witnesses.iter().map(r_witness).collect::<Vec<_>>())]);
            same(g, "SignatureS", &v, Some(w))
        }
        20 => {
            let v = CellDepWithPubKey { cell_dep: gens::cell_dep(g), pub_key: gens::bytes(g, 80) };
            let w = list(&[r_dep(&v.cell_dep), b(&v.pub_key)]);
            same(g, "CellDepWithPubKey", &v, Some(w))
        }
        21 => {
            let v = OutPoint { tx_hash: gens::h256(g), index: g.u32() };
            let w = list(&[b(&v.tx_hash.0), uint(v.index as u128)]);
            same(g, "OutPoint", &v, Some(w))
        }
        22 => {
            let v = ctx(g);
            let u = |x: &U256| refenc::u256(x);
            let w = list(&[
                u(&v.block_number),
                b(&v.block_coinbase.0),
                u(&v.block_timestamp),
                u(&v.chain_id),
                b(&v.origin.0),
                u(&v.gas_price),
                uint(v.block_gas_limit.as_u64() as u128),
                uint(v.block_base_fee_per_gas.as_u64() as u128),
                refenc::extra(&v.extra_data),
            ]);
            same(g, "ExecutorContext", &v, Some(w))
        }
        23 => {
            let v = ckb_info(g);
            let w = list(&[v.metadata_type_id, v.checkpoint_type_id, v.xudt_args, v.stake_smt_type_id, v.delegate_smt_type_id, v.reward_smt_type_id].iter().map(|h| b(&h.0)).collect::<Vec<_>>());
            same(g, "CkbRelatedInfo", &v, Some(w))
        }
        24 => {
            let v = HardforkInfo { inner: g.many(4, fork) };
            let w = list(&[list(&v.inner.iter().map(r_fork).collect::<Vec<_>>())]);
            same(g, "HardforkInfo", &v, Some(w))
        }
        25 => {
            let v = fork(g);
            let w = r_fork(&v);
            same(g, "HardforkInfoInner", &v, Some(w))
        }
        26 => {
            let v = SpecMetadata { version: MetadataVersion::new(g.u64(), g.u64()), epoch: g.u64(), verifier_list: g.many(4, plain_validator), propose_counter: counts(g), consensus_config: gens::consensus_config(g) };
            let w = list(&[r_ver(&v.version), uint(v.epoch as u128), list(&v.verifier_list.iter().map(r_val).collect::<Vec<_>>()), r_counts(&v.propose_counter), list(&r_cc(&v.consensus_config))]);
            same(g, "SpecMetadata", &v, Some(w))
        }
        27 => {
            let v = DBBytes(gens::bytes(g, 300));
            let w = v.0.to_vec();
            same(g, "DBBytes", &v, Some(w))
        }
        28 => {
            let v = stx(g);
            same(g, "SignedTransaction", &v, None)
        }
        29 => {
            let v: ConsensusValidator = (&gens::validator(g)).into();
            let w = list(&[b(&v.pub_key), uint(v.propose_weight as u128), uint(v.vote_weight as u128)]);
            same(g, "ConsensusValidator", &v, Some(w))
        }
        30 => {
            let v = BatchBlocks::new(g.many(4, gens::block));
            g.label("BatchBlocks");
            let mut m = v.clone();
            let e = MessageCodec::encode_msg(&mut m).map_err(|e| fail("encode-BatchBlocks", e.to_string()))?;
            let w = list(&v.0.iter().map(|v| list(&[refenc::header(&v.header), refenc::hashes(&v.tx_hashes)])).collect::<Vec<_>>());
            check_eq!(refs::hex(&e), refs::hex(&w), "encoding-BatchBlocks", "encoding of a batch of blocks");
            let d = <BatchBlocks as MessageCodec>::decode_msg(e).map_err(|e| fail("roundtrip-BatchBlocks", e.to_string()))?;
            check_eq!(d, v, "roundtrip-BatchBlocks", "decode(encode(batch of blocks))");
            Ok(())
        }
        _ => {
            let v = Witness { lock: gens::opt(g, |g| gens::bytes(g, 40)), input_type: gens::opt(g, |g| gens::bytes(g, 40)), output_type: gens::opt(g, |g| gens::bytes(g, 40)) };
            let w = r_witness(&v);
            same(g, "Witness", &v, Some(w))?;
            let d = gens::cell_dep(g);
            let w = r_dep(&d);
            same(g, "CellDep", &d, Some(w))
        }
    }
}

fn overlord_encode(p: &Proposal) -> Vec<u8> {
    <Proposal as overlord::Codec>::encode(p).unwrap().to_vec()
}

// ---- P05

fn flip(g: &mut Gen, h: &mut H256) {
    h.0[g.below(32) as usize] ^= 1 << g.below(8);
}
fn bump(g: &mut Gen, v: &mut u64) {
    *v ^= 1 << g.below(64);
}
fn edit_extra(g: &mut Gen, v: &mut Vec<ExtraData>) {
    match g.below(3) {
        0 if !v.is_empty() => {
            let i = g.below(v.len() as u64) as usize;
            v.remove(i);
        }
        1 if !v.is_empty() => {
            let i = g.below(v.len() as u64) as usize;
            let m = g.mutate(&v[i].inner);
            v[i].inner = m.into();
        }
        _ => v.push(ExtraData { inner: gens::bytes(g, 20) }),
    }
}
fn edit_proof(g: &mut Gen, p: &mut Proof) {
    match g.below(5) {
        0 => bump(g, &mut p.number),
        1 => bump(g, &mut p.round),
        2 => flip(g, &mut p.block_hash),
        3 => p.signature = g.mutate(&p.signature).into(),
        _ => p.bitmap = g.mutate(&p.bitmap).into(),
    }
}

fn hash_header(g: &mut Gen) -> Res {
    let a = gens::header(g);
    check_eq!(a.hash().0, keccak(&refenc::header(&a)), "header-hash", "hash of a header");
    let block = Block { header: a.clone(), tx_hashes: g.many(4, gens::h256) };
    check_eq!(block.hash(), a.hash(), "block-hash", "hash of a block");
    let mut z = a.clone();
    let k = g.below(17);
    match k {
        0 => flip(g, &mut z.prev_hash),
        1 => z.proposer.0[g.below(20) as usize] ^= 1 << g.below(8),
        2 => flip(g, &mut z.state_root),
        3 => flip(g, &mut z.transactions_root),
        4 => flip(g, &mut z.signed_txs_hash),
        5 => flip(g, &mut z.receipts_root),
        6 => z.log_bloom.0[g.below(256) as usize] ^= 1 << g.below(8),
        7 => bump(g, &mut z.timestamp),
        8 => bump(g, &mut z.number),
        9 => z.gas_used = U64::from(z.gas_used.as_u64() ^ (1 << g.below(64))),
        10 => z.gas_limit = U64::from(z.gas_limit.as_u64() ^ (1 << g.below(64))),
        11 => edit_extra(g, &mut z.extra_data),
        12 => z.base_fee_per_gas = U64::from(z.base_fee_per_gas.as_u64() ^ (1 << g.below(64))),
        13 => edit_proof(g, &mut z.proof),
        14 => z.call_system_script_count ^= 1 << g.below(32),
        15 => bump(g, &mut z.chain_id),
        _ => {
            // two neighbouring hashes exchanged
            std::mem::swap(&mut z.state_root, &mut z.receipts_root)
        }
    }
    if a == z {
        return Err(pbt::Stop::Discard);
    }
    g.hit();
    g.label(["prev_hash", "proposer", "state_root", "transactions_root", "signed_txs_hash", "receipts_root", "log_bloom", "timestamp", "number", "gas_used", "gas_limit", "extra_data", "base_fee", "proof", "system script count", "chain_id", "swapped roots"][k as usize]);
    g.note(|| format!("{} vs {}", a, z));
    check!(a.hash() != z.hash(), "header-hash-collision", "two headers that differ share a hash:\n  {}\n  {}", a, z);
    Ok(())
}

fn hash_proposal(g: &mut Gen) -> Res {
    let a = gens::proposal(g);
    check_eq!(a.hash().0, keccak(&refenc::proposal(&a)), "proposal-hash", "hash of a proposal");
    let mut z = a.clone();
    let k = g.below(13);
    match k {
        0 => flip(g, &mut z.prev_hash),
        1 => z.proposer.0[g.below(20) as usize] ^= 1 << g.below(8),
        2 => flip(g, &mut z.prev_state_root),
        3 => flip(g, &mut z.transactions_root),
        4 => flip(g, &mut z.signed_txs_hash),
        5 => bump(g, &mut z.timestamp),
        6 => bump(g, &mut z.number),
        7 => z.gas_limit = U64::from(z.gas_limit.as_u64() ^ (1 << g.below(64))),
        8 => edit_extra(g, &mut z.extra_data),
        9 => edit_proof(g, &mut z.proof),
        10 => z.call_system_script_count ^= 1 << g.below(32),
        11 => z.tx_hashes.push(gens::h256(g)),
        _ => {
            if z.tx_hashes.len() < 2 {
                return Err(pbt::Stop::Discard);
            }
            let n = z.tx_hashes.len();
            let i = g.below(n as u64 - 1) as usize;
            z.tx_hashes.swap(i, i + 1);
        }
    }
    if a == z {
        return Err(pbt::Stop::Discard);
    }
    g.hit();
    g.note(|| format!("{} vs {}", a, z));
    check!(a.hash() != z.hash(), "proposal-hash-collision", "two proposals that differ share a hash:\n  {}\n  {}", a, z);
    Ok(())
}

/// Block built from a proposal and its execution; proposals rebuilt from a header.
fn assemble(g: &mut Gen) -> Res {
    let p = gens::proposal(g);
    let resp = ExecResp { state_root: gens::h256(g), receipt_root: gens::h256(g), gas_used: g.u64(), tx_resp: g.many(4, gens::tx_resp) };
    let blk = Block::new(p.clone(), resp.clone());
    g.hit();
    g.note(|| format!("{}", p));
    let h = &blk.header;
    let want = Header {
        version: p.version,
        prev_hash: p.prev_hash,
        proposer: p.proposer,
        state_root: resp.state_root,
        transactions_root: p.transactions_root,
        signed_txs_hash: p.signed_txs_hash,
        receipts_root: resp.receipt_root,
        log_bloom: h.log_bloom,
        timestamp: p.timestamp,
        number: p.number,
        gas_used: resp.gas_used.into(),
        gas_limit: p.gas_limit,
        extra_data: p.extra_data.clone(),
        base_fee_per_gas: p.base_fee_per_gas,
        proof: p.proof.clone(),
        call_system_script_count: p.call_system_script_count,
        chain_id: p.chain_id,
    };
    check_eq!(*h, want, "block-new", "header of the block made from a proposal");
    check_eq!(blk.tx_hashes, p.tx_hashes, "block-new", "transactions of the block made from a proposal");
    let back = Proposal::new_with_state_root(h, p.prev_state_root, blk.tx_hashes.clone());
    check_eq!(back, p, "proposal-rebuilt", "the proposal rebuilt from its block");
    check_eq!(back.hash(), p.hash(), "proposal-rebuilt", "hash of the proposal rebuilt from its block");
    let mut bare = p.clone();
    bare.prev_state_root = H256::zero();
    bare.tx_hashes = vec![];
    check_eq!(Proposal::new_without_state_root(h), bare, "proposal-rebuilt", "the proposal rebuilt without its state root");
    // the execution context is the same whether taken from the proposal or from the block
    let c1 = ExecutorContext::from(p.clone());
    let c2 = ExecutorContext::from(h);
    check_eq!(c1, c2, "context", "execution context of a proposal and of its block");
    check_eq!((c1.block_number, c1.block_coinbase, c1.block_timestamp, c1.chain_id), (p.number.into(), p.proposer, p.timestamp.into(), p.chain_id.into()), "context", "execution context");
    check_eq!((c1.block_gas_limit, c1.block_base_fee_per_gas, c1.extra_data), (p.gas_limit, p.base_fee_per_gas, p.extra_data), "context", "execution context");
    Ok(())
}

// ---- P06

fn ref_bloom(logs: &[Log]) -> Bloom {
    let mut out = [0u8; 256];
    let mut add = |x: &[u8]| {
        let h = keccak(x);
        for i in 0..3 {
            let bit = ((h[2 * i] as usize) << 8 | h[2 * i + 1] as usize) % 2048;
            out[255 - bit / 8] |= 1 << (bit % 8);
        }
    };
    for l in logs {
        add(&l.address.0);
        for t in &l.topics {
            add(&t.0);
        }
    }
    Bloom(out)
}

fn receipts(g: &mut Gen) -> Res {
    let n = g.many(5, |_| ()).len();
    let txs: Vec<SignedTransaction> = (0..n).map(|_| stx(g)).collect();
    let resps: Vec<TxResp> = (0..n).map(|_| gens::tx_resp(g)).collect();
    let resp = ExecResp { state_root: gens::h256(g), receipt_root: gens::h256(g), gas_used: g.u64(), tx_resp: resps.clone() };
    let p = gens::proposal(g);
    let blk = Block::new(p, resp.clone());
    let (rs, logs) = if g.bool() { blk.generate_receipts_and_logs(&txs, &resp) } else { RichBlock { block: blk.clone(), txs: txs.clone() }.generate_receipts_and_logs(&resp) };
    g.label_if(resps.iter().any(|r| !r.logs.is_empty()), "with logs");
    if n > 1 && resps.iter().any(|r| !r.logs.is_empty()) {
        g.hit();
    }
    g.note(|| format!("{} transactions, logs {:?}", n, resps.iter().map(|r| r.logs.len()).collect::<Vec<_>>()));
    check_eq!(rs.len(), n, "receipt-count", "receipts of a block");
    check_eq!(logs, resps.iter().map(|r| r.logs.clone()).collect::<Vec<_>>(), "receipt-logs", "logs of a block");
    let mut index = 0u32;
    for i in 0..n {
        let r = &resps[i];
        let want = Receipt {
            tx_hash: txs[i].transaction.hash,
            block_number: blk.header.number,
            block_hash: blk.header.hash(),
            tx_index: i as u32,
            state_root: blk.header.state_root,
            used_gas: U64::from(r.gas_used),
            logs_bloom: ref_bloom(&r.logs),
            logs: r.logs.clone(),
            log_index: index,
            code_address: r.code_address,
            sender: txs[i].sender,
            ret: r.exit_reason.clone(),
            removed: r.removed,
        };
        check_eq!(rs[i], want, "receipt", "receipt {}", i);
        index += r.logs.len() as u32;
        check_eq!(rs[i].status(), U64::from(matches!(r.exit_reason, ExitReason::Succeed(_)) as u64), "receipt-status", "status of receipt {}", i);
        // consensus encoding (EIP-2718 / EIP-658)
        let body = list(&[
            uint(matches!(r.exit_reason, ExitReason::Succeed(_)) as u128),
            uint(r.gas_used as u128),
            b(&want.logs_bloom.0),
            list(&r.logs.iter().map(refenc::log).collect::<Vec<_>>()),
        ]);
        let e = match &txs[i].transaction.unsigned {
            UnsignedTransaction::Legacy(_) => body,
            UnsignedTransaction::Eip2930(_) => [vec![1], body].concat(),
            UnsignedTransaction::Eip1559(_) => [vec![2], body].concat(),
        };
        check_eq!(refs::hex(&txs[i].encode_receipt(r, want.logs_bloom)), refs::hex(&e), "receipt-encoding", "consensus encoding of receipt {}", i);
        check_eq!(logs_bloom(r.logs.iter()), want.logs_bloom, "bloom", "bloom of the logs of receipt {}", i);
    }
    // the header's bloom
    let all: Vec<Log> = resps.iter().flat_map(|r| r.logs.clone()).collect();
    let union = ref_bloom(&all);
    let got = blk.header.log_bloom;
    if (0..256).any(|i| union.0[i] & !got.0[i] != 0) {
        // How the header's bloom is made today: blooms of encodings, not of addresses and topics.
        let raw = |x: &[u8]| {
            let h = keccak(x);
            let mut o = [0u8; 256];
            for i in 0..3 {
                let bit = ((h[2 * i] as usize) << 8 | h[2 * i + 1] as usize) % 2048;
                o[255 - bit / 8] |= 1 << (bit % 8);
            }
            o
        };
        let per: Vec<Vec<u8>> = resps.iter().map(|r| b(&raw(&list(&r.logs.iter().map(refenc::log).collect::<Vec<_>>())))).collect();
        let today = raw(&list(&per));
        let sig = if got.0 == today { "header-bloom-of-encodings" } else { "header-bloom" };
        g.known(Err(fail(sig, format!("a block with logs {:?} has a bloom that does not contain them", all))))?;
    }
    Ok(())
}

fn bloom(g: &mut Gen) -> Res {
    let logs: Vec<Log> = g.many(6, gens::log);
    if logs.len() > 1 {
        g.hit();
    }
    g.note(|| format!("{:?}", logs));
    check_eq!(logs_bloom(logs.iter()), ref_bloom(&logs), "bloom", "bloom of {} logs", logs.len());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P03", rule: "the decoder accepts the bytes", assume: vec!["allocation failure and non-termination are not searched for"], facets: vec![Facet::new("untrusted", 60_000, untrusted), Facet::new("transaction-bytes", 10_000, tx_bytes)] },
        Prop { id: "P04", rule: "every case (a value with all fields generated)", assume: vec!["refs::rlp is RLP"], facets: vec![Facet::new("objects", 25_000, objects)] },
        Prop { id: "P05", rule: "the two values differ in exactly the edited field", assume: vec!["refs::keccak is Keccak-256"], facets: vec![Facet::new("header", 12_000, hash_header), Facet::new("proposal", 12_000, hash_proposal), Facet::new("assemble", 10_000, assemble)] },
        Prop { id: "P06", rule: "two or more transactions or logs, some log present", assume: vec!["refs::keccak is Keccak-256"], facets: vec![Facet::new("receipts", 4_000, receipts), Facet::new("bloom", 10_000, bloom)] },
    ]
}
