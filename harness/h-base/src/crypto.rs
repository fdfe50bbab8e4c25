//! P08 keys, signatures and the addresses derived from them.
use crate::{gens, tx};
use ckb_types::{packed, prelude::*};
use common_crypto::*;
use k256::ecdsa::signature::hazmat::PrehashVerifier;
use k256::ecdsa::{Signature as KSig, SigningKey, VerifyingKey};
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::types::{
    public_to_address, recover_intact_pub_key, Address, Bytes, HashAlgorithm, Hex, Public, SignAlgorithm, SignatureAction, SignatureInfo, SignatureLocation,
    TransactionCompletionResponse, Validator, ValidatorExtend, H160,
};
use refs::{hex, keccak};

fn secp(g: &mut Gen) -> Res {
    let key = gens::secret(g);
    let msg: [u8; 32] = g.arr();
    let h = HashValue::from_bytes_unchecked(msg);
    g.hit();
    g.note(|| format!("key {} message {}", hex(&key), hex(&msg)));
    let sk = SigningKey::from_slice(&key).unwrap();
    let point = sk.verifying_key().to_encoded_point(true);
    let full = sk.verifying_key().to_encoded_point(false);
    let a = Secp256k1RecoverablePrivateKey::try_from(&key[..]).map_err(|e| fail("secp-key", format!("{:?}", e)))?;
    check_eq!(hex(&a.to_bytes()), hex(&key), "secp-key", "bytes of a private key");
    check_eq!(hex(&a.pub_key().to_bytes()), hex(point.as_bytes()), "secp-pubkey", "public key");
    check_eq!(hex(&a.pub_key().to_uncompressed_bytes()), hex(full.as_bytes()), "secp-pubkey", "uncompressed public key");
    let sig = a.sign_message(&h).to_bytes();
    check_eq!(sig.len(), 65, "secp-sign", "length of a recoverable signature");
    let ks = KSig::from_slice(&sig[..64]).map_err(|e| fail("secp-sign", e.to_string()))?;
    check!(VerifyingKey::from(&sk).verify_prehash(&msg, &ks).is_ok(), "secp-sign", "the signature does not verify elsewhere");
    let rec = secp256k1_recover(&msg, &sig).map_err(|e| fail("secp-recover", format!("{:?}", e)))?;
    check_eq!(hex(&rec.serialize_uncompressed()), hex(full.as_bytes()), "secp-recover", "public key recovered from a signature");
    let mut other = msg;
    other[g.below(32) as usize] ^= 1 << g.below(8);
    if let Ok(r) = secp256k1_recover(&other, &sig) {
        check!(r.serialize_uncompressed()[..] != full.as_bytes()[..], "secp-recover", "the signature of one message recovers the signer from another");
    }
    // addresses
    let want = H160::from_slice(&keccak(&full.as_bytes()[1..])[12..]);
    let p = Secp256k1PublicKey::try_from(point.as_bytes()).unwrap();
    check_eq!(Address::from_pubkey(&p).0, want, "address", "address of a public key");
    check_eq!(Address::from_pubkey_bytes(point.as_bytes()).ok().map(|a| a.0), Some(want), "address", "address of compressed bytes");
    check_eq!(Address::from_pubkey_bytes(full.as_bytes()).ok().map(|a| a.0), Some(want), "address", "address of uncompressed bytes");
    let public = Public::from_slice(&full.as_bytes()[1..]);
    check_eq!(public_to_address(&public), want, "address", "address of a public key");
    check_eq!(hex(recover_intact_pub_key(&public).as_bytes()), hex(full.as_bytes()), "secp-pubkey", "public key with its prefix");
    check_eq!(tx::address(&key).1, want, "address", "address");
    let v = Validator { bls_pub_key: gens::hexv(g, 48), pub_key: Hex::encode(point.as_bytes()), propose_weight: g.u32(), vote_weight: g.u32() };
    let w = ValidatorExtend { bls_pub_key: v.bls_pub_key.clone(), pub_key: v.pub_key.clone(), address: want, propose_weight: v.propose_weight, vote_weight: v.vote_weight };
    check_eq!(ValidatorExtend::from(v), w, "validator", "validator with its address");
    Ok(())
}

/// Any bytes as a public key: an address only for a valid compressed point, or 65 bytes.
fn keys(g: &mut Gen) -> Res {
    let n = *g.pick(&[0usize, 1, 20, 32, 33, 33, 33, 34, 64, 65, 66]);
    let mut b = g.bytes_n(n);
    if n == 33 && g.bool() {
        b[0] = 2 + g.below(2) as u8;
    }
    g.note(|| hex(&b));
    let r = no_panic(|| Address::from_pubkey_bytes(&b).ok().map(|a| a.0)).map_err(|p| fail("pubkey-panic", p))?;
    let want = match n {
        33 if b[0] == 5 => None,
        33 => VerifyingKey::from_sec1_bytes(&b).ok().map(|k| H160::from_slice(&keccak(&k.to_encoded_point(false).as_bytes()[1..])[12..])),
        // not one point in 2^256 of these is on the curve: what is made of them is not specified
        65 => r,
        _ => None,
    };
    if want.is_some() {
        g.hit();
    }
    check_eq!(r, want, "pubkey-address", "address of {} bytes", n);
    let h: [u8; 32] = g.arr();
    let h = protocol::types::H256(h);
    check_eq!(Address::from_hash(h).0 .0, h.0[12..], "address", "address of a hash");
    Ok(())
}

fn bls(g: &mut Gen) -> Res {
    let n = if g.chance(1, 40) { g.usize(6, 130) } else { g.usize(1, 5) };
    let keys: Vec<BlsPrivateKey> = (0..n)
        .map(|_| {
            let mut k = gens::secret(g);
            k[0] &= 0x3f;
            BlsPrivateKey::try_from(&k[..]).unwrap()
        })
        .collect();
    let msg: [u8; 32] = g.arr();
    let h = HashValue::from_bytes_unchecked(msg);
    let cr = String::new();
    if n > 1 {
        g.hit();
    }
    g.note(|| format!("{} keys, message {}", n, hex(&msg)));
    let pubs: Vec<BlsPublicKey> = keys.iter().map(|k| k.pub_key(&cr)).collect();
    let sigs: Vec<BlsSignature> = keys.iter().map(|k| k.sign_message(&h)).collect();
    let agg = BlsSignature::combine(sigs.iter().cloned().zip(pubs.iter().cloned()).collect()).map_err(|e| fail("bls-combine", e.to_string()))?;
    let apk = BlsPublicKey::aggregate(pubs.clone()).map_err(|e| fail("bls-combine", e.to_string()))?;
    let bytes = agg.to_bytes();
    let back = BlsSignature::try_from(bytes.as_ref()).map_err(|e| fail("bls-bytes", format!("{:?}", e)))?;
    check!(back.verify(&h, &apk, &cr).is_ok(), "bls-verify", "the aggregate of {} signatures is rejected", n);
    let mut o = msg;
    o[g.below(32) as usize] ^= 1 << g.below(8);
    check!(agg.verify(&HashValue::from_bytes_unchecked(o), &apk, &cr).is_err(), "bls-forged", "an aggregate is accepted for another message");
    // one signer missing on one side
    let k = g.below(n as u64) as usize;
    if n > 1 {
        let mut p = pubs.clone();
        p.remove(k);
        let less = BlsPublicKey::aggregate(p).unwrap();
        check!(agg.verify(&h, &less, &cr).is_err(), "bls-forged", "an aggregate is accepted without the key of one signer");
    }
    let junk = g.mutate(&bytes);
    if junk != bytes.to_vec() {
        let r = no_panic(|| BlsSignature::try_from(junk.as_ref()).ok()).map_err(|p| fail("bls-panic", p))?;
        if let Some(s) = r {
            check!(s.verify(&h, &apk, &cr).is_err() || s.to_bytes() == bytes, "bls-forged", "a changed signature is accepted");
        }
    }
    let pb = g.mutate(&pubs[0].to_bytes());
    no_panic(|| BlsPublicKey::try_from(pb.as_ref()).is_ok()).map_err(|p| fail("bls-panic", p))?;
    Ok(())
}

/// Signing of a completed CKB transaction: the sighash-all rule, every action signed, nothing else changed.
fn ckb_sign(g: &mut Gen) -> Res {
    let key = gens::secret(g);
    let sk = SigningKey::from_slice(&key).unwrap();
    let nw = if g.chance(1, 40) { g.usize(7, 140) } else { g.usize(1, 6) };
    let mut order: Vec<usize> = (0..nw).collect();
    g.shuffle(&mut order);
    // groups of witnesses: the first of each is signed
    let mut groups: Vec<Vec<usize>> = vec![];
    for i in order {
        if groups.is_empty() || g.below(2) == 0 {
            groups.push(vec![i]);
        } else {
            let k = g.below(groups.len() as u64) as usize;
            groups[k].push(i);
        }
    }
    for x in groups.iter_mut() {
        x.sort_unstable();
    }
    if g.below(3) == 0 && groups.len() > 1 {
        groups.pop();
    }
    let firsts: Vec<usize> = groups.iter().map(|x| x[0]).collect();
    let witnesses: Vec<Bytes> = (0..nw)
        .map(|i| {
            if firsts.contains(&i) {
                let mut w = packed::WitnessArgsBuilder::default().lock(Some(Bytes::from(vec![0u8; 65])).pack());
                if g.bool() {
                    w = w.input_type(Some(Bytes::from(g.bytes(20))).pack());
                }
                if g.bool() {
                    w = w.output_type(Some(Bytes::from(g.bytes(20))).pack());
                }
                w.build().as_bytes()
            } else {
                Bytes::from(g.bytes(40))
            }
        })
        .collect();
    let inputs: Vec<packed::CellInput> = (0..nw)
        .map(|_| packed::CellInputBuilder::default().previous_output(packed::OutPointBuilder::default().tx_hash(g.arr::<32>().pack()).index(g.u32().pack()).build()).since(g.u64().pack()).build())
        .collect();
    let raw = packed::RawTransactionBuilder::default().inputs(inputs.pack()).outputs_data(vec![Bytes::from(g.bytes(20))].pack()).build();
    let tx = packed::TransactionBuilder::default().raw(raw.clone()).witnesses(witnesses.clone().pack()).build();
    let resp = TransactionCompletionResponse {
        tx_view: ckb_jsonrpc_types::TransactionView { inner: tx.into(), hash: ckb_types::h256!("0x0") },
        signature_actions: groups
            .iter()
            .map(|x| SignatureAction {
                signature_location: SignatureLocation { index: x[0], offset: 20 },
                signature_info: SignatureInfo { algorithm: SignAlgorithm::Secp256k1, address: String::new() },
                hash_algorithm: HashAlgorithm::Blake2b,
                other_indexes_in_group: x[1..].to_vec(),
            })
            .collect(),
    };
    if groups.len() > 1 || groups[0].len() > 1 {
        g.hit();
    }
    g.note(|| format!("{} witnesses, groups {:?}", nw, groups));
    let signed: packed::Transaction = no_panic(|| resp.sign(&Secp256k1RecoverablePrivateKey::try_from(&key[..]).unwrap())).map_err(|p| fail("ckb-sign-panic", p))?.into();
    check_eq!(hex(signed.raw().as_slice()), hex(raw.as_slice()), "ckb-sign-raw", "the transaction without its witnesses");
    let out: Vec<Bytes> = signed.witnesses().into_iter().map(|w| w.raw_data()).collect();
    check_eq!(out.len(), nw, "ckb-sign-witnesses", "number of witnesses");
    let tx_hash = ckb_hash::blake2b_256(raw.as_slice());
    for i in 0..nw {
        let Some(gr) = groups.iter().find(|x| x[0] == i) else {
            check_eq!(hex(&out[i]), hex(&witnesses[i]), "ckb-sign-witnesses", "witness {}, which is not signed", i);
            continue;
        };
        let mut m = tx_hash.to_vec();
        for j in gr {
            m.extend((witnesses[*j].len() as u64).to_le_bytes());
            m.extend(&witnesses[*j]);
        }
        let digest = ckb_hash::blake2b_256(&m);
        let before = packed::WitnessArgs::from_slice(&witnesses[i]).unwrap();
        let after = packed::WitnessArgs::from_slice(&out[i]).map_err(|e| fail("ckb-sign-witnesses", e.to_string()))?;
        check_eq!((hex(after.input_type().as_slice()), hex(after.output_type().as_slice())), (hex(before.input_type().as_slice()), hex(before.output_type().as_slice())), "ckb-sign-witnesses", "rest of the signed witness {}", i);
        let sig = after.lock().to_opt().map(|b| b.raw_data()).unwrap_or_default();
        check_eq!(sig.len(), 65, "ckb-sign", "length of signature {}", i);
        let vk = secp256k1_recover(&digest, &sig).map_err(|e| fail("ckb-sign", format!("signature of witness {}: {:?}", i, e)))?;
        check_eq!(hex(&vk.serialize()), hex(sk.verifying_key().to_encoded_point(true).as_bytes()), "ckb-sign", "signer of witness {}", i);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P08",
        rule: "a signature, or more than one signer or witness group",
        assume: vec!["RustCrypto's k256 is secp256k1"],
        facets: vec![Facet::new("secp256k1", 2_500, secp), Facet::new("public-keys", 10_000, keys), Facet::new("bls", 300, bls), Facet::new("ckb-transaction", 1_500, ckb_sign)],
    }]
}
