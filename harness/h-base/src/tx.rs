//! P01 transaction encoding, P02 sender authenticity.
use crate::{gens, refenc};
use k256::ecdsa::{RecoveryId, Signature as KSig, SigningKey, VerifyingKey};
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::codec::ProtocolCodec;
use protocol::traits::MessageCodec;
use protocol::types::*;
use refs::{keccak, rlp as R};

/// Signs with an independent implementation (RustCrypto).
pub fn sign(key: &[u8; 32], hash: &[u8; 32]) -> SignatureComponents {
    let sk = SigningKey::from_slice(key).unwrap();
    let (s, id) = sk.sign_prehash_recoverable(hash).unwrap();
    let raw = s.to_bytes();
    SignatureComponents { r: Bytes::copy_from_slice(&raw[..32]), s: Bytes::copy_from_slice(&raw[32..]), standard_v: id.to_byte() }
}

pub fn address(key: &[u8; 32]) -> ([u8; 64], H160) {
    let sk = SigningKey::from_slice(key).unwrap();
    let p = sk.verifying_key().to_encoded_point(false);
    let mut pk = [0u8; 64];
    pk.copy_from_slice(&p.as_bytes()[1..]);
    (pk, H160::from_slice(&keccak(&pk)[12..]))
}

/// Independent recovery; None when no public key corresponds.
fn recover(hash: &[u8; 32], s: &SignatureComponents) -> Option<[u8; 64]> {
    let sig = KSig::from_slice(&[s.r.as_ref(), s.s.as_ref()].concat()).ok()?;
    let id = RecoveryId::from_byte(s.standard_v)?;
    let vk = VerifyingKey::recover_from_prehash(hash, &sig, id).ok()?;
    let p = vk.to_encoded_point(false);
    let mut pk = [0u8; 64];
    pk.copy_from_slice(&p.as_bytes()[1..]);
    Some(pk)
}

fn kind(t: &UnsignedTransaction) -> &'static str {
    match t {
        UnsignedTransaction::Legacy(_) => "legacy",
        UnsignedTransaction::Eip2930(_) => "eip2930",
        UnsignedTransaction::Eip1559(_) => "eip1559",
    }
}

/// Encoding equals the specification's bytes, decoding gives the same value back, hash = keccak.
fn roundtrip(g: &mut Gen) -> Res {
    let unsigned = gens::unsigned(g);
    let chain = gens::chain_id(g, unsigned.is_legacy());
    let eth = g.below(4) != 0;
    let sig = if eth { gens::eth_sig(g) } else { gens::interop_sig(g).0 };
    g.label(kind(&unsigned));
    g.label(if eth { "ethereum signature" } else { "interoperation signature" });
    g.label_if(chain.is_none(), "no chain id");
    if !unsigned.access_list().is_empty() || !unsigned.data().is_empty() || !eth {
        g.hit();
    }
    let want = refenc::signed_tx(&unsigned, chain, &sig, eth);
    g.note(|| format!("{} chain {:?} sig v={} r={}B s={}B bytes={}", kind(&unsigned), chain, sig.standard_v, sig.r.len(), sig.s.len(), refs::hex(&want)));
    let utx = UnverifiedTransaction { unsigned: unsigned.clone(), chain_id: chain, signature: Some(sig.clone()), hash: H256::zero() }.calc_hash();
    let enc = ProtocolCodec::encode(&utx).map_err(|e| fail("tx-encode", e.to_string()))?;
    check_eq!(refs::hex(&enc), refs::hex(&want), "tx-encoding", "encoding of a {} transaction", kind(&unsigned));
    check_eq!(utx.hash.0, keccak(&want), "tx-hash", "hash of a {} transaction", kind(&unsigned));
    check!(utx.check_hash().is_ok(), "tx-check-hash", "check_hash rejects the computed hash");
    let dec: UnverifiedTransaction = ProtocolCodec::decode(&want).map_err(|e| fail("tx-decode", format!("valid {} transaction rejected: {}", kind(&unsigned), e)))?;
    check_eq!(dec, utx, "tx-roundtrip", "decode(encode(tx))");
    let mut wrong = utx.clone();
    wrong.hash.0[g.below(32) as usize] ^= 1 << g.below(8);
    check!(wrong.check_hash().is_err(), "tx-check-hash", "check_hash accepts a wrong hash");
    check_eq!(utx.signature_hash(true).0, refenc::sighash(&unsigned, chain), "tx-sighash", "signing hash ({})", kind(&unsigned));
    Ok(())
}

/// Any change of one field changes the hash and the signing hash (and the value decoded).
fn commitment(g: &mut Gen) -> Res {
    let unsigned = gens::unsigned(g);
    let chain = gens::chain_id(g, unsigned.is_legacy());
    let sig = gens::eth_sig(g);
    let a = UnverifiedTransaction { unsigned: unsigned.clone(), chain_id: chain, signature: Some(sig), hash: H256::zero() }.calc_hash();
    let mut b = a.clone();
    macro_rules! each {
        ($t:expr, $f:ident => $e:expr) => {
            match $t {
                UnsignedTransaction::Legacy(t) => { let $f = &mut t.$f; $e }
                UnsignedTransaction::Eip2930(t) => { let $f = &mut t.$f; $e }
                UnsignedTransaction::Eip1559(t) => { let $f = &mut t.$f; $e }
            }
        };
    }
    let mut signed_part = true;
    let which = g.below(10);
    match which {
        0 => each!(&mut b.unsigned, nonce => *nonce = U64::from(nonce.as_u64() ^ (1 << g.below(64)))),
        1 => each!(&mut b.unsigned, gas_price => *gas_price = U64::from(gas_price.as_u64() ^ (1 << g.below(64)))),
        2 => each!(&mut b.unsigned, gas_limit => *gas_limit = U64::from(gas_limit.as_u64() ^ (1 << g.below(64)))),
        3 => each!(&mut b.unsigned, value => *value = *value ^ (U256::one() << g.below(256) as usize)),
        4 => each!(&mut b.unsigned, data => *data = Bytes::from(g.mutate(data))),
        5 => each!(&mut b.unsigned, action => *action = match action {
            TransactionAction::Create => TransactionAction::Call(gens::h160(g)),
            TransactionAction::Call(h) => if g.bool() { TransactionAction::Create } else { let mut x = *h; x.0[g.below(20) as usize] ^= 1 << g.below(8); TransactionAction::Call(x) },
        }),
        6 => {
            b.chain_id = match b.chain_id {
                None => Some(g.u64() % (1 << 60)),
                Some(c) => Some((c ^ (1 << g.below(60))) % (1 << 61)),
            }
        }
        7 => {
            signed_part = false;
            let s = b.signature.as_mut().unwrap();
            s.standard_v ^= 1;
        }
        8 => {
            signed_part = false;
            let s = b.signature.as_mut().unwrap();
            let mut r = s.r.to_vec();
            r[g.below(32) as usize] ^= 1 << g.below(8);
            s.r = r.into();
        }
        _ => match &mut b.unsigned {
            UnsignedTransaction::Eip2930(t) => t.access_list.push(AccessListItem { address: gens::h160(g), storage_keys: g.many(2, gens::h256) }),
            UnsignedTransaction::Eip1559(t) => t.max_priority_fee_per_gas = U64::from(t.max_priority_fee_per_gas.as_u64() ^ (1 << g.below(64))),
            _ => return Err(pbt::Stop::Discard),
        },
    }
    let b = b.calc_hash();
    if a.unsigned == b.unsigned && a.chain_id == b.chain_id && a.signature == b.signature {
        return Err(pbt::Stop::Discard);
    }
    g.hit();
    g.label(["nonce", "gas price", "gas limit", "value", "data", "action", "chain id", "v", "r", "list/priority"][which as usize]);
    g.note(|| format!("{:?} vs {:?}", a, b));
    check!(a.hash != b.hash, "tx-hash-collision", "two different transactions share hash {:?}: {:?} / {:?}", a.hash, a, b);
    check!(!signed_part || a.signature_hash(true) != b.signature_hash(true), "tx-sighash-collision", "a signature over {:?} would also cover {:?}", a, b);
    Ok(())
}

/// Sender = address of the key that signed; tampering never keeps it.
fn sender(g: &mut Gen) -> Res {
    let unsigned = gens::unsigned(g);
    let chain = gens::chain_id(g, unsigned.is_legacy());
    let key = gens::secret(g);
    let (pk, addr) = address(&key);
    let sig = sign(&key, &refenc::sighash(&unsigned, chain));
    g.hit();
    g.label(kind(&unsigned));
    g.note(|| format!("{} chain {:?} key {} sender {:?}", kind(&unsigned), chain, refs::hex(&key), addr));
    let raw = refenc::signed_tx(&unsigned, chain, &sig, true);
    let utx: UnverifiedTransaction = ProtocolCodec::decode(&raw).map_err(|e| fail("tx-decode", e.to_string()))?;
    let stx = SignedTransaction::from_unverified(utx.clone()).map_err(|e| fail("sender-rejected", format!("valid signature rejected: {}", e)))?;
    check_eq!(stx.sender, addr, "sender", "recovered sender");
    check_eq!(stx.public.map(|p| p.0.to_vec()), Some(pk.to_vec()), "sender-public", "recovered public key");
    check_eq!(stx.transaction.hash.0, keccak(&raw), "tx-hash", "hash of the signed transaction");
    let public = utx.recover_public(true).map_err(|e| fail("sender-rejected", e.to_string()))?;
    check_eq!(public.0.to_vec(), pk.to_vec(), "sender-public", "recover_public");
    // without its signature it has no sender
    let bare = UnverifiedTransaction { signature: None, ..utx.clone() };
    let got = no_panic(|| (SignedTransaction::from_unverified(bare.clone()).map(|s| s.sender), bare.recover_public(true))).map_err(|e| fail("sender-panic", e))?;
    check!(got.0.is_err() && got.1.is_err(), "sender-unsigned", "an unsigned transaction has a sender: {:?}", got);
    // and with another one's hash it is not taken for it
    check!(utx.check_hash().is_ok(), "tx-hash", "check_hash refuses the transaction's own hash");
    let other = UnverifiedTransaction { hash: H256(g.arr()), ..utx.clone() };
    check_eq!(other.check_hash().is_ok(), other.hash == utx.hash, "tx-hash", "check_hash of {:?}", other.hash);
    // the stored form keeps everything
    let enc = ProtocolCodec::encode(&stx).unwrap();
    check_eq!(refs::hex(&enc), refs::hex(&R::bytes(&raw)), "stx-encoding", "stored form of a signed transaction");
    let back: SignedTransaction = ProtocolCodec::decode(&enc).map_err(|e| fail("stx-decode", e.to_string()))?;
    check_eq!(back, stx, "stx-roundtrip", "decode(encode(signed tx))");
    // tampering with what was signed
    let mut t2 = unsigned.clone();
    let mut c2 = chain;
    match g.below(4) {
        0 => t2.set_data(Bytes::from(g.mutate(t2.data()))),
        1 => t2.set_action(match t2.action() {
            TransactionAction::Create => TransactionAction::Call(H160::zero()),
            TransactionAction::Call(_) => TransactionAction::Create,
        }),
        2 => {
            c2 = match c2 {
                None => Some(g.u64() % (1 << 62)),
                Some(c) => Some((c ^ 1) % ((u64::MAX - 36) / 2)),
            }
        }
        _ => match &mut t2 {
            UnsignedTransaction::Legacy(t) => t.value = t.value ^ U256::one(),
            UnsignedTransaction::Eip2930(t) => t.nonce = U64::from(t.nonce.as_u64() ^ 1),
            UnsignedTransaction::Eip1559(t) => t.gas_limit = U64::from(t.gas_limit.as_u64() ^ 4),
        },
    }
    if t2 != unsigned || c2 != chain {
        g.label("tampered");
        let raw2 = refenc::signed_tx(&t2, c2, &sig, true);
        let u2: UnverifiedTransaction = ProtocolCodec::decode(&raw2).map_err(|e| fail("tx-decode", e.to_string()))?;
        let want = recover(&refenc::sighash(&t2, c2), &sig);
        match SignedTransaction::from_unverified(u2) {
            Ok(s) => {
                check!(s.sender != addr, "sender-tamper", "a tampered transaction keeps its sender");
                check_eq!(s.public.map(|p| p.0.to_vec()), want.map(|p| p.to_vec()), "sender-recover", "recovered key of a tampered transaction");
            }
            Err(_) => check!(want.is_none(), "sender-rejected", "recoverable signature rejected"),
        }
    }
    Ok(())
}

/// Arbitrary 65-byte signatures: the recovered key is exactly what an independent library finds.
fn sender_random(g: &mut Gen) -> Res {
    let unsigned = gens::unsigned(g);
    let chain = gens::chain_id(g, unsigned.is_legacy());
    let mut sig = gens::eth_sig(g);
    if g.bool() {
        let key = gens::secret(g);
        sig = sign(&key, &refenc::sighash(&unsigned, chain));
        match g.below(3) {
            0 => sig.standard_v ^= 1,
            1 => sig.s = Bytes::from(g.mutate(&sig.s)),
            _ => sig.r = Bytes::from(g.mutate(&sig.r)),
        }
        let fit = |b: &Bytes| {
            let mut v = b.to_vec();
            v.resize(32, 3);
            Bytes::from(v)
        };
        sig.r = fit(&sig.r);
        sig.s = fit(&sig.s);
    }
    let raw = refenc::signed_tx(&unsigned, chain, &sig, true);
    let utx: UnverifiedTransaction = ProtocolCodec::decode(&raw).map_err(|e| fail("tx-decode", e.to_string()))?;
    let hash = refenc::sighash(&unsigned, chain);
    let want = recover(&hash, &sig);
    g.note(|| format!("sig {:?} recoverable {}", sig, want.is_some()));
    g.label(if want.is_some() { "recoverable" } else { "not recoverable" });
    g.hit();
    let got = no_panic(|| SignedTransaction::from_unverified(utx)).map_err(|e| fail("sender-panic", e))?;
    match (&got, &want) {
        (Ok(s), Some(pk)) => {
            check_eq!(s.sender, H160::from_slice(&keccak(pk)[12..]), "sender", "sender of an arbitrary signature");
        }
        (Err(_), None) => (),
        (Ok(s), None) => return Err(fail("sender-forged", format!("sender {:?} from a signature with no key", s.sender))),
        // libsecp256k1 and RustCrypto agree on every signature both accept; high-s is refused by neither
        (Err(e), Some(_)) => return Err(fail("sender-rejected", format!("recoverable signature rejected: {}", e))),
    }
    Ok(())
}

/// Interoperation transactions: the sender is the digest of the public key named in r, or an error.
fn interop_sender(g: &mut Gen) -> Res {
    let unsigned = gens::unsigned(g);
    let chain = gens::chain_id(g, unsigned.is_legacy());
    let (mut sig, pk) = gens::interop_sig(g);
    let mut ok = true;
    match g.below(4) {
        0 => {
            let mut r = sig.r.to_vec();
            r[0] = 1 + g.below(255) as u8;
            sig.r = r.into();
            ok = false;
            g.label("other signature type");
        }
        1 => {
            // no r at all
            sig.r = Bytes::new();
            let n = g.usize(65, 90);
            sig.s = Bytes::from(g.bytes_n(n));
            ok = false;
            g.label("empty r");
        }
        2 => {
            let cut = g.usize(1, sig.r.len() - 1);
            sig.r = sig.r.slice(..cut);
            let n = g.usize(65, 90);
            sig.s = Bytes::from(g.bytes_n(n));
            ok = false;
            g.label("truncated r");
        }
        _ => g.label("valid"),
    }
    g.hit();
    g.note(|| format!("{} r={} s={}B", kind(&unsigned), refs::hex(&sig.r), sig.s.len()));
    let raw = refenc::signed_tx(&unsigned, chain, &sig, false);
    let utx: UnverifiedTransaction = ProtocolCodec::decode(&raw).map_err(|e| fail("tx-decode", e.to_string()))?;
    check_eq!(utx.signature.as_ref(), Some(&sig), "tx-roundtrip", "signature of an interoperation transaction");
    let got = no_panic(|| SignedTransaction::from_unverified(utx.clone())).map_err(|e| fail("interop-panic", e))?;
    let stored = no_panic(|| <SignedTransaction as ProtocolCodec>::decode(R::bytes(&raw))).map_err(|e| fail("interop-panic", e))?;
    if ok {
        let s = got.map_err(|e| fail("interop-rejected", e.to_string()))?;
        let want: H160 = H256(keccak(&pk)).into();
        check_eq!(s.sender, want, "interop-sender", "sender of an interoperation transaction");
        check_eq!(s.public, Some(Public::zero()), "interop-sender", "public key of an interoperation transaction");
        let b = stored.map_err(|e| fail("interop-rejected", e.to_string()))?;
        check_eq!(b, s, "stx-roundtrip", "stored interoperation transaction");
    } else {
        check!(got.is_err() && stored.is_err(), "interop-accepted", "malformed interoperation signature accepted: {:?}", got);
    }
    Ok(())
}

/// Batches sent between nodes keep every transaction, in order.
fn batch(g: &mut Gen) -> Res {
    let txs: Vec<SignedTransaction> = g.many(6, |g| {
        let t = gens::unsigned(g);
        let chain = gens::chain_id(g, t.is_legacy());
        let (sig, eth) = if g.below(4) == 0 { (gens::interop_sig(g).0, false) } else { (sign(&gens::secret(g), &refenc::sighash(&t, chain)), true) };
        let utx: UnverifiedTransaction = ProtocolCodec::decode(refenc::signed_tx(&t, chain, &sig, eth)).unwrap();
        SignedTransaction::from_unverified(utx).unwrap()
    });
    if txs.len() > 1 {
        g.hit();
    }
    g.label(if txs.is_empty() { "empty" } else { "non-empty" });
    g.note(|| format!("{} transactions", txs.len()));
    let enc = BatchSignedTxs::new(txs.clone()).encode_msg().unwrap();
    let back = BatchSignedTxs::decode_msg(enc).map_err(|e| fail("batch-decode", e.to_string()))?;
    check_eq!(back.inner(), txs, "batch-roundtrip", "decode(encode(batch))");
    // the digest of a batch (signed_txs_hash of a block) changes with its content and order
    if txs.len() > 1 {
        let enc = BatchSignedTxs::new(txs.clone()).encode_msg().unwrap();
        let mut other = txs.clone();
        match g.below(3) {
            0 => {
                let i = g.usize(0, other.len() - 2);
                other.swap(i, i + 1);
            }
            1 => {
                let i = g.usize(0, other.len() - 1);
                other.remove(i);
            }
            _ => other.push(txs[0].clone()),
        }
        if other != txs {
            let enc2 = BatchSignedTxs::new(other).encode_msg().unwrap();
            check!(enc != enc2, "batch-collision", "two different batches have the same encoding");
        }
    }
    Ok(())
}

/// What a transaction may cost: gas price x gas limit + value, saturating.
fn cost(g: &mut Gen) -> Res {
    let t = gens::unsigned(g);
    let (price, limit, value) = match &t {
        UnsignedTransaction::Legacy(t) => (t.gas_price, t.gas_limit, t.value),
        UnsignedTransaction::Eip2930(t) => (t.gas_price, t.gas_limit, t.value),
        UnsignedTransaction::Eip1559(t) => (t.gas_price.max(t.max_priority_fee_per_gas), t.gas_limit, t.value),
    };
    let fee = price.as_u64() as u128 * limit.as_u64() as u128;
    let (sum, over) = U256::from(fee).overflowing_add(value);
    g.label_if(over, "saturates");
    if fee > 0 {
        g.hit();
    }
    g.note(|| format!("price {} limit {} value {}", price, limit, value));
    let got = t.may_cost().map_err(|e| fail("cost", e.to_string()))?;
    check_eq!(got, if over { U256::MAX } else { sum }, "cost", "may_cost of {:?}", t);
    check_eq!(t.gas_price(), price, "cost", "effective gas price");
    check_eq!((t.to(), *t.value(), *t.gas_limit(), t.type_()), (match t.action() { TransactionAction::Call(h) => Some(*h), _ => None }, value, limit, match kind(&t) { "legacy" => 0, "eip2930" => 1, _ => 2 }), "cost", "accessors");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "a generated transaction of one of the three types with boundary-biased integers, data lengths around RLP boundaries, access lists, with and without chain id, Ethereum or interoperation signature; non-trivial: it has data, an access list or an interoperation signature (codec facet), a single-field change (commitment facet), two or more transactions (batch facet)",
            assume: vec!["interoperation signatures are longer than 64 bytes (shorter ones are by definition read as Ethereum ones)"],
            facets: vec![
                Facet::new("codec", 16_000, roundtrip),
                Facet::new("commitment", 15_000, commitment),
                Facet::new("batch", 3_000, batch),
                Facet::new("cost", 20_000, cost),
            ],
        },
        Prop {
            id: "P02",
            rule: "a generated transaction signed with a generated key by an independent secp256k1 library, then tampered with; arbitrary and mutated signatures; interoperation signatures with valid, truncated, empty or foreign r; every case is non-trivial",
            assume: vec!["RustCrypto's k256 is the reference for ECDSA recovery"],
            facets: vec![
                Facet::new("sender", 4_000, sender),
                Facet::new("arbitrary-signature", 8_000, sender_random),
                Facet::new("interoperation", 10_000, interop_sender),
            ],
        },
    ]
}
