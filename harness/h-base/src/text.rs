//! P07 text forms: hex, addresses, quantities, JSON.
use crate::gens;
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::codec::{decode_256bits_key, deserialize_256bits_key, deserialize_address, hex_decode, hex_encode, serialize_uint};
use protocol::types::*;
use refs::{eip55, hex, unhex};
use serde_json::{json, Value};
use std::str::FromStr;

/// Text near to a hex string: right, odd, wrong prefix, bad digit, repeated prefix, other alphabets.
fn hexish(g: &mut Gen, lens: &[usize]) -> String {
    let n = if g.bool() { *g.pick(lens) } else { g.len(70) };
    let raw = g.bytes_n(n);
    let mut s = hex(&raw);
    match g.below(4) {
        0 => s = s.to_uppercase(),
        1 => s = s.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => {}
    }
    match g.below(8) {
        0 => s.push('a'),
        1 => {
            s.pop();
        }
        2 if !s.is_empty() => {
            let i = g.below(s.len() as u64) as usize;
            let c = *g.pick(&["g", "G", " ", "-", "/", ":", "@", "`", "é", "0x", "\u{0}", "K", "＋"]);
            s.replace_range(i..i + 1, c);
        }
        _ => {}
    }
    let p = *g.pick(&["0x", "0x", "0x", "0x", "0X", "", "", "0x0x", "0x0X", "x0", "0", "00", " 0x"]);
    format!("{}{}", p, s)
}

fn text_of(g: &mut Gen, lens: &[usize]) -> String {
    if g.below(10) == 0 {
        g.text(70)
    } else {
        hexish(g, lens)
    }
}

fn hexes(g: &mut Gen) -> Res {
    let s = text_of(g, &[0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65]);
    g.note(|| format!("{:?}", s));
    g.hit();
    let strict = s.strip_prefix("0x").and_then(unhex);
    let loose = unhex(s.strip_prefix("0x").unwrap_or(&s));
    g.label(if strict.is_some() { "hex text" } else { "not hex text" });
    let a = no_panic(|| Hex::from_str(&s).ok()).map_err(|p| fail("hex-panic", format!("Hex::from_str({:?}): {}", s, p)))?;
    check_eq!(a.as_ref().map(|h| h.as_bytes().to_vec()), strict, "hex-parse", "Hex::from_str({:?})", s);
    let d = no_panic(|| hex_decode(&s).ok()).map_err(|p| fail("hex-panic", format!("hex_decode({:?}): {}", s, p)))?;
    check_eq!(d, loose, "hex-decode", "hex_decode({:?})", s);
    let j = no_panic(|| serde_json::from_value::<Hex>(json!(s)).ok()).map_err(|p| fail("hex-panic", format!("JSON {:?}: {}", s, p)))?;
    check_eq!(j.map(|h| h.as_bytes().to_vec()), strict, "hex-json", "Hex from JSON {:?}", s);
    let k = no_panic(|| decode_256bits_key(&s).ok().map(|k| k.to_vec())).map_err(|p| fail("key-panic", format!("decode_256bits_key({:?}): {}", s, p)))?;
    let want = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")).and_then(unhex).filter(|b| b.len() == 32);
    g.label_if(want.is_some(), "a 256-bit key");
    check_eq!(k, want, "key-parse", "decode_256bits_key({:?})", s);
    let js = serde_json::to_string(&s).unwrap();
    let k2 = deserialize_256bits_key(&mut serde_json::Deserializer::from_str(&js)).ok().map(|k| k.to_vec());
    check_eq!(k2, want, "key-parse", "256-bit key from JSON {:?}", s);
    Ok(())
}

fn hex_out(g: &mut Gen) -> Res {
    let v = g.bytes(200);
    let h = Hex::encode(&v);
    g.hit();
    g.note(|| hex(&v));
    let s = format!("0x{}", hex(&v));
    check_eq!(hex_encode(&v), hex(&v), "hex-encode", "hex_encode");
    check_eq!(h.as_string(), s, "hex-print", "Hex::as_string");
    check_eq!(h.as_string_trim0x(), hex(&v), "hex-print", "Hex::as_string_trim0x");
    check_eq!(h.to_string(), s, "hex-print", "Hex displayed");
    check_eq!((h.len(), h.is_empty()), (v.len(), v.is_empty()), "hex-len", "length of a Hex");
    check_eq!(serde_json::to_value(&h).unwrap(), json!(s), "hex-json", "JSON of a Hex");
    check_eq!(Hex::from_str(&s).ok(), Some(h.clone()), "hex-roundtrip", "Hex parsed from its text");
    check_eq!(Bytes::from(h.clone()).to_vec(), v, "hex-bytes", "bytes of a Hex");
    check_eq!(h.as_ref(), &v[..], "hex-bytes", "bytes of a Hex");
    let o = Hex::encode(g.bytes(200));
    check_eq!(h.cmp(&o), v.as_slice().cmp(o.as_ref()), "hex-order", "order of two Hex values");
    Ok(())
}

fn addresses(g: &mut Gen) -> Res {
    let s = match g.below(4) {
        0 => text_of(g, &[20, 20, 20, 19, 21, 32]),
        1 => {
            let a = g.bytes_n(20);
            let mut s = eip55(&a);
            match g.below(6) {
                0 => s = s.to_lowercase(),
                1 => s = s.replace("0x", "0X"),
                2 => s = s[2..].to_string(),
                3 => {
                    // one letter's case turned
                    let i = g.range(2, 41) as usize;
                    let c = s.as_bytes()[i] as char;
                    let t = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                    s.replace_range(i..i + 1, &t.to_string());
                }
                _ => {}
            }
            s
        }
        _ => {
            let mut s = eip55(&g.bytes_n(20));
            if g.bool() {
                s.push_str(&g.ascii(3))
            }
            s
        }
    };
    g.note(|| format!("{:?}", s));
    g.hit();
    let body = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X"));
    let loose = body.and_then(unhex).filter(|b| b.len() == 20);
    let a = no_panic(|| Address::from_hex(&s).ok()).map_err(|p| fail("address-panic", format!("Address::from_hex({:?}): {}", s, p)))?;
    check_eq!(a.map(|x| x.as_slice().to_vec()), loose, "address-hex", "Address::from_hex({:?})", s);
    let strict = loose.clone().filter(|b| eip55(b) == s);
    g.label(if strict.is_some() { "checksummed address" } else if loose.is_some() { "address, wrong checksum" } else { "not an address" });
    let a = no_panic(|| Address::from_str(&s).ok()).map_err(|p| fail("address-panic", format!("Address::from_str({:?}): {}", s, p)))?;
    check_eq!(a.map(|x| x.as_slice().to_vec()), strict, "address-parse", "Address::from_str({:?})", s);
    // configuration and JSON: a checksummed address, the prefix may be missing
    let plain = unhex(s.strip_prefix("0x").unwrap_or(&s)).filter(|b| b.len() == 20 && eip55(b)[2..] == *s.strip_prefix("0x").unwrap_or(&s));
    let js = serde_json::to_string(&s).unwrap();
    let d = no_panic(|| deserialize_address(&mut serde_json::Deserializer::from_str(&js)).ok()).map_err(|p| fail("address-panic", format!("JSON {:?}: {}", s, p)))?;
    check_eq!(d.map(|x| x.0.to_vec()), plain, "address-json", "address from JSON {:?}", s);
    let d = no_panic(|| serde_json::from_value::<Address>(json!(s)).ok()).map_err(|p| fail("address-panic", format!("JSON {:?}: {}", s, p)))?;
    check_eq!(d.map(|x| x.0 .0.to_vec()), plain, "address-json", "Address from JSON {:?}", s);
    let raw = g.bytes_n(20);
    let addr = Address(H160::from_slice(&raw));
    check_eq!(addr.eip55(), eip55(&raw), "address-print", "EIP-55 text");
    check_eq!(format!("{} {:?}", addr, addr), format!("{} {:?}", eip55(&raw), eip55(&raw)), "address-print", "address displayed");
    check_eq!(serde_json::to_value(&addr).unwrap(), json!(eip55(&raw)), "address-print", "JSON of an address");
    let low = hex(&raw);
    let any: String = low.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c }).collect();
    for t in [low, any.to_uppercase(), any] {
        check_eq!(protocol::types::checksum(&t), eip55(&raw), "address-print", "checksum of {}", t);
        check_eq!(protocol::types::checksum(&format!("0x{}", t)), eip55(&raw), "address-print", "checksum of 0x{}", t);
    }
    check_eq!(Address::from_str(&addr.eip55()).ok(), Some(addr.clone()), "address-roundtrip", "address parsed from its text");
    let n = g.usize(0, 40);
    let rb = g.bytes_n(n);
    let f = no_panic(|| Address::from_bytes(rb.clone().into()).ok()).map_err(|p| fail("address-panic", p))?;
    check_eq!(f.map(|x| x.as_slice().to_vec()), Some(rb).filter(|b| b.len() == 20), "address-bytes", "Address::from_bytes of {} bytes", n);
    Ok(())
}

/// JSON-RPC quantity: 0x, no leading zeros.
fn q(v: u128) -> String {
    format!("0x{:x}", v)
}

fn quantities(g: &mut Gen) -> Res {
    let ser = |v: &dyn Fn(&mut serde_json::Serializer<&mut Vec<u8>>) -> Result<(), serde_json::Error>| {
        let mut out = vec![];
        v(&mut serde_json::Serializer::new(&mut out)).unwrap();
        String::from_utf8(out).unwrap()
    };
    let a = g.u64();
    let b = g.u32();
    let c = gens::u256(g);
    g.hit();
    g.note(|| format!("{} {} {}", a, b, c));
    check_eq!(ser(&|s| serialize_uint(&a, s)), format!("\"{}\"", q(a as u128)), "uint-text", "u64 {}", a);
    check_eq!(ser(&|s| serialize_uint(&b, s)), format!("\"{}\"", q(b as u128)), "uint-text", "u32 {}", b);
    let mut be = [0u8; 32];
    c.to_big_endian(&mut be);
    let h = hex(&be);
    let h = h.trim_start_matches('0');
    check_eq!(ser(&|s| serialize_uint(&c, s)), format!("\"0x{}\"", if h.is_empty() { "0" } else { h }), "uint-text", "U256 {}", c);
    Ok(())
}

fn jh(b: &[u8]) -> Value {
    json!(format!("0x{}", hex(b)))
}
fn ju(v: u64) -> Value {
    json!(q(v as u128))
}
fn j_extra(e: &[ExtraData]) -> Value {
    json!(e.iter().map(|x| json!({"inner": jh(&x.inner)})).collect::<Vec<_>>())
}
fn j_proof(p: &Proof) -> Value {
    json!({"number": ju(p.number), "round": ju(p.round), "proposal_hash": jh(&p.block_hash.0), "signature": jh(&p.signature), "bitmap": jh(&p.bitmap)})
}
fn j_hashes(h: &[H256]) -> Value {
    json!(h.iter().map(|x| jh(&x.0)).collect::<Vec<_>>())
}
pub fn j_header(h: &Header) -> Value {
    json!({
        "version": "V0", "prev_hash": jh(&h.prev_hash.0), "proposer": jh(&h.proposer.0), "state_root": jh(&h.state_root.0),
        "transactions_root": jh(&h.transactions_root.0), "signed_txs_hash": jh(&h.signed_txs_hash.0), "receipts_root": jh(&h.receipts_root.0),
        "log_bloom": jh(&h.log_bloom.0), "timestamp": ju(h.timestamp), "number": ju(h.number), "gas_used": ju(h.gas_used.as_u64()),
        "gas_limit": ju(h.gas_limit.as_u64()), "extra_data": j_extra(&h.extra_data), "base_fee_per_gas": ju(h.base_fee_per_gas.as_u64()),
        "proof": j_proof(&h.proof), "call_system_script_count": ju(h.call_system_script_count as u64), "chain_id": ju(h.chain_id),
    })
}
fn j_cc(c: &ConsensusConfig) -> Value {
    json!({
        "gas_limit": ju(c.gas_limit), "interval": ju(c.interval), "propose_ratio": ju(c.propose_ratio), "prevote_ratio": ju(c.prevote_ratio),
        "precommit_ratio": ju(c.precommit_ratio), "brake_ratio": ju(c.brake_ratio), "tx_num_limit": ju(c.tx_num_limit), "max_tx_size": ju(c.max_tx_size),
        "max_contract_limit": ju(c.max_contract_limit),
    })
}
fn j_meta(m: &Metadata) -> Value {
    json!({
        "version": {"start": ju(m.version.start), "end": ju(m.version.end)}, "epoch": ju(m.epoch),
        "verifier_list": m.verifier_list.iter().map(|v| json!({
            "bls_pub_key": jh(v.bls_pub_key.as_ref()), "pub_key": jh(v.pub_key.as_ref()), "address": jh(&v.address.0),
            "propose_weight": ju(v.propose_weight as u64), "vote_weight": ju(v.vote_weight as u64)})).collect::<Vec<_>>(),
        "propose_counter": m.propose_counter.iter().map(|p| json!({"address": jh(&p.address.0), "count": ju(p.count)})).collect::<Vec<_>>(),
        "consensus_config": j_cc(&m.consensus_config),
    })
}

fn back<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(name: &str, v: &T) -> Res {
    let s = serde_json::to_string(v).map_err(|e| fail("json", e.to_string()))?;
    let d: T = serde_json::from_str(&s).map_err(|e| fail("json-roundtrip", format!("{} is not read back from its own JSON: {}", name, e)))?;
    check_eq!(d, *v, "json-roundtrip", "{} read back from JSON", name);
    Ok(())
}

fn jsons(g: &mut Gen) -> Res {
    g.hit();
    let k = g.below(9);
    g.label(["header", "block", "proposal", "metadata", "signed transaction", "account proof", "script", "fork", "validators"][k as usize]);
    match k {
        0 => {
            let h = gens::header(g);
            check_eq!(serde_json::to_value(&h).unwrap(), j_header(&h), "json-header", "JSON of a header");
        }
        1 => {
            let b = gens::block(g);
            check_eq!(serde_json::to_value(&b).unwrap(), json!({"header": j_header(&b.header), "tx_hashes": j_hashes(&b.tx_hashes)}), "json-block", "JSON of a block");
        }
        2 => {
            let p = gens::proposal(g);
            let want = json!({
                "version": "V0", "prev_hash": jh(&p.prev_hash.0), "proposer": jh(&p.proposer.0), "prev_state_root": jh(&p.prev_state_root.0),
                "transactions_root": jh(&p.transactions_root.0), "signed_txs_hash": jh(&p.signed_txs_hash.0), "timestamp": ju(p.timestamp), "number": ju(p.number),
                "gas_limit": ju(p.gas_limit.as_u64()), "extra_data": j_extra(&p.extra_data), "base_fee_per_gas": ju(p.base_fee_per_gas.as_u64()),
                "proof": j_proof(&p.proof), "chain_id": ju(p.chain_id), "call_system_script_count": ju(p.call_system_script_count as u64), "tx_hashes": j_hashes(&p.tx_hashes),
            });
            check_eq!(serde_json::to_value(&p).unwrap(), want, "json-proposal", "JSON of a proposal");
        }
        3 => {
            let m = gens::metadata(g);
            check_eq!(serde_json::to_value(&m).unwrap(), j_meta(&m), "json-metadata", "JSON of metadata");
            // written by hand, with plain numbers and without the optional limit
            let c = &m.consensus_config;
            let mut v = json!({
                "gas_limit": c.gas_limit, "interval": c.interval, "propose_ratio": c.propose_ratio, "prevote_ratio": c.prevote_ratio,
                "precommit_ratio": c.precommit_ratio, "brake_ratio": c.brake_ratio, "tx_num_limit": c.tx_num_limit, "max_tx_size": c.max_tx_size,
            });
            let mut want = c.clone();
            want.max_contract_limit = 0x6000;
            check_eq!(serde_json::from_value::<ConsensusConfig>(v.clone()).ok(), Some(want), "json-config", "consensus config without a contract limit");
            v["max_contract_limit"] = json!(c.max_contract_limit);
            check_eq!(serde_json::from_value::<ConsensusConfig>(v).ok(), Some(c.clone()), "json-config", "consensus config");
        }
        4 => {
            let t = crate::codec::stx(g);
            back("a signed transaction", &t)?;
            back("an unverified transaction", &t.transaction)?;
        }
        5 => {
            let v = EthAccountProof {
                address: gens::h160(g),
                balance: gens::u256(g),
                code_hash: gens::h256(g),
                nonce: gens::u256(g),
                storage_hash: gens::h256(g),
                account_proof: g.vec(4, |g| gens::hexv(g, 60)),
                storage_proof: g.vec(3, |g| EthStorageProof { key: gens::u256(g), value: gens::u256(g), proof: g.vec(3, |g| gens::hexv(g, 60)) }),
            };
            back("an account proof", &v)?;
            let j = serde_json::to_value(&v).unwrap();
            let keys: Vec<_> = j.as_object().unwrap().keys().cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            check_eq!(keys, ["accountProof", "address", "balance", "codeHash", "nonce", "storageHash", "storageProof"].map(String::from).to_vec(), "json-account-proof", "fields of an account proof");
            check_eq!(j["accountProof"], json!(v.account_proof.iter().map(|h| jh(h.as_ref())).collect::<Vec<_>>()), "json-account-proof", "account proof");
            let bad = {
                let mut b = j.clone();
                b["extra"] = json!(1);
                b
            };
            check!(serde_json::from_value::<EthAccountProof>(bad).is_err(), "json-account-proof", "an unknown field of an account proof is accepted");
        }
        6 => {
            let s = Script { code_hash: gens::h256(g), args: gens::bytes(g, 40), hash_type: g.byte() };
            back("a script", &s)?;
            back("a cell", &CellWithData { type_script: None, lock_script: s, data: gens::bytes(g, 30) })?;
            back("a cell dep", &gens::cell_dep(g))?;
        }
        7 => {
            back("fork info", &HardforkInfo { inner: g.vec(3, |g| HardforkInfoInner { block_number: g.u64(), flags: gens::h256(g) }) })?;
        }
        _ => {
            let w = Identity::new(g.byte(), g.bytes(30));
            back("an identity", &w)?;
            back("a VM response", &VMResp { exit_code: g.byte() as i8, cycles: g.u64() })?;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P07",
        rule: "every case",
        assume: vec!["serde_json is a JSON library"],
        facets: vec![Facet::new("hex-in", 60_000, hexes), Facet::new("hex-out", 20_000, hex_out), Facet::new("address", 40_000, addresses), Facet::new("quantity", 30_000, quantities), Facet::new("json", 12_000, jsons)],
    }]
}
