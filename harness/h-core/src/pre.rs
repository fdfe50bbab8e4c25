//! P35: precompiled contracts.
use std::cell::RefCell;
use std::sync::Arc;

use core_executor::{AxonExecutor, RocksTrieDB};
use core_interoperation::InteroperationImpl;
use ethers::abi::Token;
use evm::{ExitReason, ExitSucceed};
use k256::ecdsa::{RecoveryId, Signature, SigningKey, VerifyingKey};
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res, Stop};
use protocol::traits::*;
use protocol::types::*;
use refs::big;

use crate::exec::*;
use crate::gens;
use crate::sys::*;

fn at(range: u8, n: u8) -> H160 {
    let mut a = [0; 20];
    a[18] = range;
    a[19] = n;
    H160(a)
}

pub fn intrinsic(data: &[u8]) -> u64 {
    21_000 + data.iter().map(|b| if *b == 0 { 4 } else { 16 }).sum::<u64>()
}

thread_local! {
    static WORLD: RefCell<Option<World>> = RefCell::new(None);
}

fn in_world<T>(f: impl FnOnce(&World) -> Result<T, Stop>) -> Result<T, Stop> {
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(world(&mut Gen::new(vec![], None, false, &[]), true)?.0);
        }
        f(w.as_ref().unwrap())
    })
}

/// Calls the precompile with gas around what it costs: `want` is its output and cost, or nothing if
/// it must fail whatever gas there is.
fn expect(g: &mut Gen, w: &World, to: H160, data: &[u8], want: Option<(Vec<u8>, u64)>, what: &str) -> Res {
    let base = intrinsic(data);
    let cost = want.as_ref().map_or(100_000, |x| x.1);
    let gas = match g.below(6) {
        0 | 1 => base.saturating_add(cost),
        2 => base.saturating_add(cost).saturating_sub(1),
        3 => base.saturating_add(g.below(cost.max(1))),
        4 => base.saturating_add(cost).saturating_add(1),
        _ => base.saturating_add(cost).saturating_add(g.below(1_000_000)),
    };
    let gas = gas.min(1 << 60);
    let _rt = runtime().enter();
    let a = w.adapter()?;
    let r = AxonExecutor.call(&a, gas, None, Some(to), U256::zero(), data.to_vec(), false);
    let enough = want.is_some() && gas >= base + cost;
    check_eq!(r.exit_reason.is_succeed(), enough, "exit", "{}: {:?} with {} gas for {}: {:?}", what, to, gas as i128 - base as i128, cost, r.exit_reason);
    if enough {
        check_eq!(r.exit_reason, ExitReason::Succeed(ExitSucceed::Returned), "exit", "{}", what);
        check_eq!(refs::hex(&r.ret), refs::hex(&want.unwrap().0), "output", "{}: output of {:?}", what, to);
        check_eq!(r.gas_used, base + cost, "gas", "{}: gas of {:?}", what, to);
    } else {
        check!(r.ret.is_empty(), "output", "{}: {:?} fails but returns {:?}", what, to, r.ret);
        g.label(if want.is_some() { "too little gas" } else { "refused" });
    }
    Ok(())
}

fn words(d: &[u8]) -> u64 {
    ((d.len() + 31) / 32) as u64
}

fn hashes(g: &mut Gen) -> Res {
    let n = match g.below(4) {
        0 => *g.pick(&[0usize, 1, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 256]),
        1 => g.usize(0, 700),
        _ => g.usize(0, 100),
    };
    let d = g.bytes_n(n);
    if n > 0 {
        g.hit();
    }
    let w = words(&d);
    let (to, out, cost, name) = match g.below(4) {
        0 => (at(0, 2), refs::sha256(&d).to_vec(), 60 + 12 * w, "sha256"),
        1 => (at(0, 3), [vec![0; 12], refs::ripemd160(&d).to_vec()].concat(), 600 + 120 * w, "ripemd160"),
        2 => (at(0, 4), d.clone(), 15 + 3 * w, "identity"),
        _ => (at(1, 6), refs::ckb_blake2b(&d).to_vec(), 60 + 12 * w, "ckb blake2b"),
    };
    g.note(|| format!("{} of {} bytes", name, n));
    in_world(|w| expect(g, w, to, &d, Some((out, cost)), name))
}

fn blake2f(g: &mut Gen) -> Res {
    let rounds = *g.pick(&[0u32, 1, 2, 9, 10, 11, 12, 20, 100, 1000, 1 << 16, 1 << 24, u32::MAX]);
    let rounds = if rounds == 1000 { g.below(1001) as u32 } else { rounds };
    let mut d = rounds.to_be_bytes().to_vec();
    d.extend(g.bytes_n(208));
    let f = *g.pick(&[0u8, 1, 0, 1, 2, 255]);
    d.push(f);
    if rounds > 100_000 {
        // only refused for want of gas
        let gas = intrinsic(&d) + *g.pick(&[0u64, 1, 255, 65535]);
        g.label("too little gas");
        return in_world(|w| {
            let _rt = runtime().enter();
            let a = w.adapter()?;
            let r = AxonExecutor.call(&a, gas, None, Some(at(0, 9)), U256::zero(), d.clone(), false);
            check!(!r.exit_reason.is_succeed(), "exit", "{} rounds for {} gas", rounds, gas);
            Ok(())
        });
    }
    let mut want = None;
    if g.chance(1, 8) {
        if g.bool() {
            d.push(g.byte());
        } else {
            d.truncate(g.usize(0, 212));
        }
    } else if f < 2 {
        let le = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
        let mut h = [0; 8];
        let mut m = [0; 16];
        for i in 0..8 {
            h[i] = le(&d[4 + 8 * i..12 + 8 * i]);
        }
        for i in 0..16 {
            m[i] = le(&d[68 + 8 * i..76 + 8 * i]);
        }
        refs::blake2b_f(rounds, &mut h, &m, [le(&d[196..204]), le(&d[204..212])], f == 1);
        want = Some((h.iter().flat_map(|x| x.to_le_bytes()).collect(), rounds as u64));
        g.hit();
    }
    g.note(|| format!("{} rounds, final {}", rounds, f));
    in_world(|w| expect(g, w, at(0, 9), &d, want, "blake2f"))
}

/// Recovers the address by RustCrypto, also of a signature with a high s.
fn recover(hash: &[u8], v: u8, r: &[u8], s: &[u8]) -> Option<[u8; 20]> {
    let mut sig = Signature::from_slice(&[r, s].concat()).ok()?;
    let mut id = v;
    if let Some(n) = sig.normalize_s() {
        sig = n;
        id ^= 1;
    }
    let k = VerifyingKey::recover_from_prehash(hash, &sig, RecoveryId::from_byte(id)?).ok()?;
    let p = k.to_encoded_point(false);
    refs::keccak(&p.as_bytes()[1..])[12..].try_into().ok()
}

fn ecrecover(g: &mut Gen) -> Res {
    let hash = g.bytes_n(32);
    let mut d = hash.clone();
    let mut v = [0u8; 32];
    let (mut r, mut s) = (g.bytes_n(32), g.bytes_n(32));
    v[31] = 27 + g.below(2) as u8;
    if g.below(4) != 0 {
        let k = SigningKey::from_slice(&gens::secret(g)).unwrap();
        let (sig, id) = k.sign_prehash_recoverable(&hash).unwrap();
        let b = sig.to_bytes();
        r = b[..32].to_vec();
        s = b[32..].to_vec();
        v[31] = 27 + id.to_byte();
        match g.below(6) {
            0 => {
                // the same signature with a high s
                let n = refs::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").unwrap();
                let t = big::to_be(&big::sub(&big::from_be(&n), &big::from_be(&s)));
                s = [vec![0; 32 - t.len()], t].concat();
                v[31] = 55 - v[31];
                g.label("high s");
            }
            1 => v[31] = *g.pick(&[0u8, 1, 26, 29, 255]),
            2 => v[g.usize(0, 30)] = 1 + g.below(255) as u8,
            3 => r = g.mutate(&r),
            _ => {}
        }
        r.resize(32, 0);
    }
    d.extend(v);
    d.extend(&r);
    d.extend(&s);
    match g.below(5) {
        0 => d.extend(g.bytes(40)),
        1 => {
            let n = *g.pick(&[0usize, 31, 32, 64, 96, 127]);
            d.truncate(n);
        }
        _ => {}
    }
    let mut p = d.clone();
    p.resize(128, 0);
    let ok = p[32..63].iter().all(|b| *b == 0) && (27..=28).contains(&p[63]);
    let want = if ok { recover(&p[..32], p[63] - 27, &p[64..96], &p[96..128]) } else { None };
    g.note(|| format!("v {:?} recovers {:?}", p[63], want.map(|x| refs::hex(&x))));
    in_world(|w| match want {
        Some(a) => {
            g.hit();
            g.label("recovered");
            expect(g, w, at(0, 1), &d, Some(([vec![0; 12], a.to_vec()].concat(), 3000)), "ecrecover")
        }
        None => {
            // Ethereum: succeeds without output
            let r = expect(g, w, at(0, 1), &d, Some((vec![], 3000)), "ecrecover of no signature");
            match r {
                Ok(()) => Ok(()),
                Err(_) => {
                    expect(g, w, at(0, 1), &d, None, "ecrecover of no signature")?;
                    g.known(Err(fail("ecrecover-of-nothing-fails", "ecrecover of a signature nobody made fails instead of returning nothing".to_string())))
                }
            }
        }
    })
}

fn modexp(g: &mut Gen) -> Res {
    let len = |g: &mut Gen| match g.below(6) {
        0 => 0,
        1 => g.usize(1, 3),
        2 => *g.pick(&[31usize, 32, 33, 64, 65]),
        _ => g.usize(0, 40),
    };
    let (bl, el, ml) = (len(g), len(g), len(g));
    let num = |g: &mut Gen, n: usize| match g.below(6) {
        0 => vec![0; n],
        1 => {
            let mut v = vec![0; n];
            if n > 0 {
                v[n - 1] = 1 + g.below(3) as u8;
            }
            v
        }
        2 => vec![255; n],
        _ => g.entropy(n),
    };
    let word = |n: usize| {
        let mut v = [0u8; 32];
        v[24..].copy_from_slice(&(n as u64).to_be_bytes());
        v
    };
    let (b, x, m) = (num(g, bl), num(g, el), num(g, ml));
    let mut d = vec![];
    let mut sizes = [word(bl), word(el), word(ml)];
    if g.chance(1, 10) {
        // a length nobody can pay for
        let which = *g.pick(&[0usize, 2]);
        let at = g.usize(0, 26);
        sizes[which][at] = 1 + g.below(255) as u8;
        for s in &sizes {
            d.extend_from_slice(s);
        }
        d.extend(b.iter().chain(&x).chain(&m));
        g.label("absurd length");
        return in_world(|w| {
            let _rt = runtime().enter();
            let a = w.adapter()?;
            let r = AxonExecutor.call(&a, 10_000_000, None, Some(at_modexp()), U256::zero(), d.clone(), false);
            check!(!r.exit_reason.is_succeed(), "exit", "a number of more than 2^40 bytes: {:?}", r.exit_reason);
            Ok(())
        });
    }
    for s in &sizes {
        d.extend_from_slice(s);
    }
    d.extend(b.iter().chain(&x).chain(&m));
    match g.below(4) {
        0 => {
            let n = g.below(d.len() as u64 + 1) as usize;
            d.truncate(n);
        }
        1 => d.extend(g.bytes(20)),
        _ => {}
    }
    // what is missing is zero
    let mut p = d.clone();
    p.resize(d.len().max(96), 0);
    let size = |i: usize| p[32 * i + 24..32 * i + 32].iter().fold(0usize, |a, b| (a << 8).saturating_add(*b as usize));
    let (bl, el, ml) = (size(0), size(1), size(2));
    if bl.max(el).max(ml) > 1000 {
        return Err(Stop::Discard);
    }
    p.resize(p.len().max(96 + bl + el + ml), 0);
    let b = &p[96..96 + bl];
    let x = &p[96 + bl..96 + bl + el];
    let m = &p[96 + bl + el..96 + bl + el + ml];
    let r = big::modpow(b, x, m);
    let out = [vec![0; ml - r.len()], r].concat();
    // EIP-2565
    let bits = |v: &[u8]| v.iter().position(|b| *b != 0).map_or(0, |i| (v.len() - i) as u64 * 8 - v[i].leading_zeros() as u64);
    let mult = ((bl.max(ml) + 7) / 8) as u64;
    let head = bits(&x[..el.min(32)]);
    let iter = if el <= 32 { head.saturating_sub(1) } else { 8 * (el as u64 - 32) + head.saturating_sub(1) };
    let cost = (mult * mult * iter.max(1) / 3).max(200);
    g.note(|| format!("{}^{} mod {}", refs::hex(b), refs::hex(x), refs::hex(m)));
    if ml > 0 && bl > 0 && el > 0 {
        g.hit();
    }
    g.label_if(el > 32, "long exponent");
    in_world(|w| expect(g, w, at_modexp(), &d, Some((out, cost)), "modexp"))
}

fn at_modexp() -> H160 {
    at(0, 5)
}

fn curve_point(g: &mut Gen) -> (big::bn::Point, Vec<u8>, bool) {
    let mut one = [0; 32];
    one[31] = 1;
    let mut two = [0; 32];
    two[31] = 2;
    let gen = Some((one, two));
    let p = match g.below(6) {
        0 => None,
        1 => gen,
        2 => big::bn::times(&gen, &[g.byte()]),
        3 => {
            // the negative
            let q = big::bn::times(&gen, &[1 + g.below(4) as u8]).unwrap();
            let y = big::to_be(&big::sub(&big::from_be(&big::bn::p()), &big::from_be(&q.1)));
            let mut b = [0; 32];
            b[32 - y.len()..].copy_from_slice(&y);
            Some((q.0, b))
        }
        4 => big::bn::times(&gen, &g.bytes_n(8)),
        _ => {
            let (mut x, mut y) = (g.arr::<32>(), g.arr::<32>());
            if g.bool() {
                x = one;
                y = big::bn::p().try_into().unwrap();
                y[31] = y[31].wrapping_add(2);
            }
            let ok = (x == [0; 32] && y == [0; 32]) || big::bn::on_curve(&x, &y);
            let p = if x == [0; 32] && y == [0; 32] { None } else { Some((x, y)) };
            return (p, [x, y].concat(), ok);
        }
    };
    let b = p.map_or(vec![0; 64], |(x, y)| [x, y].concat());
    (p, b, true)
}

fn curve(g: &mut Gen) -> Res {
    let (p, mut d, mut ok) = curve_point(g);
    let bytes = |p: big::bn::Point| p.map_or(vec![0; 64], |(x, y)| [x, y].concat());
    let (to, out, cost, name, need) = match g.below(3) {
        0 => {
            let (q, e, k) = curve_point(g);
            d.extend(e);
            ok &= k;
            let s = if ok { bytes(big::bn::sum(&p, &q)) } else { vec![] };
            (at(0, 6), s, 150, "ecadd", 128)
        }
        1 => {
            let k = match g.below(4) {
                0 => {
                    let mut k = vec![0; 32];
                    k[31] = g.below(4) as u8;
                    k
                }
                1 => refs::unhex("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001").unwrap(),
                _ => g.bytes_n(32),
            };
            let s = if ok { bytes(big::bn::times(&p, &k)) } else { vec![] };
            d.extend(k);
            (at(0, 7), s, 6000, "ecmul", 96)
        }
        _ => {
            // pairings with the zero of the second group, all equal to one
            let n = g.usize(0, 3);
            let mut e = vec![];
            ok = true;
            for _ in 0..n {
                let (_, x, k) = curve_point(g);
                ok &= k;
                e.extend(x);
                e.extend(vec![0; 128]);
            }
            d = e;
            let mut one = vec![0; 32];
            one[31] = 1;
            let long = if g.below(4) == 0 { g.usize(1, 191) } else { 0 };
            if long > 0 {
                d.extend(g.bytes_n(long));
                return in_world(|w| {
                    let _rt = runtime().enter();
                    let a = w.adapter()?;
                    let r = AxonExecutor.call(&a, 1_000_000, None, Some(at(0, 8)), U256::zero(), d.clone(), false);
                    if r.exit_reason.is_succeed() && ok {
                        return g.known(Err(fail("pairing-of-cut-input", format!("a pairing of {} bytes is accepted", d.len()))));
                    }
                    Ok(())
                });
            }
            (at(0, 8), one, 45_000 + 34_000 * n as u64, "pairing", d.len())
        }
    };
    if ok {
        g.hit();
    }
    g.note(|| format!("{} of {}", name, refs::hex(&d)));
    if name != "pairing" {
        match g.below(6) {
            0 => d.extend(g.bytes(40)),
            1 => {
                // a shorter input counts as filled up with zeros
                let cut = d.iter().rev().take_while(|b| **b == 0).count();
                let n = g.below(cut as u64 + 1) as usize;
                d.truncate(d.len() - n);
            }
            _ => {}
        }
    }
    let short = d.len() < need;
    in_world(|w| {
        let r = expect(g, w, to, &d, ok.then(|| (out.clone(), cost)), name);
        if short && ok && r.is_err() {
            expect(g, w, to, &d, None, name)?;
            return g.known(Err(fail("short-curve-input", format!("{} of {} bytes fails", name, d.len()))));
        }
        r
    })
}

// ---- CKB Merkle proofs

fn b32(b: &[u8; 32]) -> Token {
    Token::FixedBytes(b.to_vec())
}

#[derive(Clone)]
struct Proof {
    ty:      u8,
    root:    [u8; 32],
    wit:     [u8; 32],
    raw:     [u8; 32],
    indices: Vec<u32>,
    lemmas:  Vec<[u8; 32]>,
    leaves:  Vec<[u8; 32]>,
}

impl Proof {
    fn data(&self) -> Vec<u8> {
        let p = Token::Tuple(vec![
            Token::Array(self.indices.iter().map(|i| Token::Uint((*i).into())).collect()),
            Token::Array(self.lemmas.iter().map(b32).collect()),
            Token::Array(self.leaves.iter().map(b32).collect()),
        ]);
        ethers::abi::encode(&[Token::Tuple(vec![Token::Uint(self.ty.into()), b32(&self.root), b32(&self.wit), b32(&self.raw), p])])
    }
}

fn cbmt(g: &mut Gen) -> Res {
    let n = if g.bool() { g.usize(1, 6) } else { g.usize(1, 30) };
    let leaves: Vec<[u8; 32]> = (0..n).map(|_| refs::keccak(&g.entropy(8))).collect();
    let t = refs::cbmt(&leaves);
    let mut which: Vec<usize> = (0..n).collect();
    g.shuffle(&mut which);
    which.truncate(g.usize(1, n.min(6)));
    let (indices, lemmas) = refs::cbmt_proof(&t, &which);
    let ls: Vec<[u8; 32]> = which.iter().map(|i| leaves[*i]).collect();
    let ty = *g.pick(&[0u8, 0, 1, 2, 255]);
    let other = refs::keccak(&g.bytes(3));
    let (raw, wit) = if ty == 0 { (t[0], other) } else { (other, t[0]) };
    let good = Proof { ty, root: refs::ckb_blake2b(&[raw, wit].concat()), wit, raw, indices, lemmas, leaves: ls };
    g.note(|| format!("{} leaves, proof of {:?}, type {}", n, which, ty));
    if n > 1 {
        g.hit();
    }
    let to = at(1, 7);
    in_world(|w| {
        expect(g, w, to, &good.data(), Some((vec![1], 56_000)), "a true proof")?;
        let mut bad = good.clone();
        let bit = 1 << g.below(8);
        let at = g.below(32) as usize;
        let mut foreign = false;
        let name = match g.below(9) {
            0 => {
                bad.root[at] ^= bit;
                "transactions root"
            }
            1 => {
                bad.raw[at] ^= bit;
                "raw transactions root"
            }
            2 => {
                bad.wit[at] ^= bit;
                "witnesses root"
            }
            3 => {
                let i = g.below(bad.leaves.len() as u64) as usize;
                bad.leaves[i][at] ^= bit;
                "leaf"
            }
            4 if !bad.lemmas.is_empty() => {
                let i = g.below(bad.lemmas.len() as u64) as usize;
                bad.lemmas[i][at] ^= bit;
                "lemma"
            }
            5 if !bad.lemmas.is_empty() => {
                bad.lemmas.pop();
                "missing lemma"
            }
            6 => {
                bad.leaves.pop();
                "missing leaf"
            }
            7 => {
                bad.ty = if ty == 0 { 1 } else { 0 };
                "type"
            }
            _ => {
                // one more leaf, which is not in the tree
                bad.indices.push(g.below(2 * n as u64 + 2) as u32);
                bad.leaves.push(refs::keccak(&g.entropy(9)));
                if g.bool() {
                    bad.indices.sort();
                }
                if g.bool() {
                    bad.lemmas = t.iter().skip(1).take(g.usize(0, 3)).cloned().collect();
                }
                foreign = true;
                "additional leaf"
            }
        };
        g.label(name);
        let r = expect(g, w, to, &bad.data(), None, name);
        if r.is_err() && foreign {
            return g.known(Err(fail("cbmt-foreign-leaf", "a proof naming a leaf that is not in the tree is accepted".to_string())));
        }
        r?;
        let d = good.data();
        let n = g.below(d.len() as u64) as usize;
        expect(g, w, to, &d[..n], None, "a cut payload")
    })
}

// ---- CKB programs in image cells

struct Image(Vec<u8>);

impl ckb_traits::CellDataProvider for Image {
    fn get_cell_data(&self, _: &ckb_types::packed::OutPoint) -> Option<Bytes> {
        Some(self.0.clone().into())
    }
    fn get_cell_data_hash(&self, _: &ckb_types::packed::OutPoint) -> Option<ckb_types::packed::Byte32> {
        None
    }
}

fn programs(g: &mut Gen) -> Res {
    let (mut w, vs) = world(g, true)?;
    let (p, args) = crate::vm::generate(g);
    let elf = p.elf(0x10000);
    let at_cell = (gens::h256(g).0, g.u32());
    let script = Token::Tuple(vec![b32(&[1; 32]), Token::Uint(0.into()), Token::Bytes(vec![])]);
    let op = |p: &([u8; 32], u32)| Token::Tuple(vec![b32(&p.0), Token::Uint(p.1.into())]);
    let cell = Token::Tuple(vec![op(&at_cell), Token::Tuple(vec![Token::Uint(1.into()), script, Token::Array(vec![])]), Token::Bytes(elf.clone())]);
    let block = Token::Tuple(vec![Token::Uint(1.into()), Token::Array(vec![]), Token::Array(vec![cell])]);
    let s = "(bytes32,uint8,bytes)";
    let sig = format!("update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,{s},{s}[]),bytes)[])[])");
    w.next_block(g)?;
    w.env.ctx.extra_data = vec![];
    {
        let _rt = runtime().enter();
        let mut a = w.adapter()?;
        let tx = call(sys(3), w.users[0], U256::zero(), data_of(&sig, &[Token::Array(vec![block])]), 100_000);
        let r = AxonExecutor.exec(&mut a, &[tx], &vs);
        check!(r.tx_resp[0].exit_reason.is_succeed(), "image", "a cell is refused: {:?}", r.tx_resp[0]);
        w.root = r.state_root;
    }
    if g.bool() {
        w.trie = Arc::new(RocksTrieDB::new_evm(Arc::clone(&w.db), 10));
    }
    let dep = CellDep { tx_hash: H256(at_cell.0), index: at_cell.1, dep_type: g.byte() };
    let vm = InteroperationImpl::call_ckb_vm(Context::new(), &Image(elf), dep.clone(), &args, u64::MAX).map_err(|x| fail("vm", x.to_string()))?;
    let payload = |p: &([u8; 32], u32)| {
        let inputs = Token::Array(args.iter().map(|a| Token::Bytes(a.to_vec())).collect());
        ethers::abi::encode(&[Token::Tuple(vec![Token::Tuple(vec![op(p), Token::Uint(dep.dep_type.into())]), inputs])])
    };
    let code = p.run(&args).0;
    // enough gas for its cycles, rounded up; what is charged is rounded down
    let cost = (vm.cycles / 6000).max(500);
    let data = payload(&at_cell);
    g.hit();
    g.note(|| format!("{} cycles, exit code {}", vm.cycles, code));
    let base = intrinsic(&data);
    let _rt = runtime().enter();
    let a = w.adapter()?;
    for gas in [cost + 1, cost.max((vm.cycles + 5999) / 6000), 1_000_000 + g.below(1 << 40)] {
        let r = AxonExecutor.call(&a, base + gas, None, Some(at(1, 4)), U256::zero(), data.clone(), false);
        check_eq!(r.exit_reason, ExitReason::Succeed(ExitSucceed::Returned), "exit", "a program of {} cycles with {} gas", vm.cycles, gas);
        check_eq!(r.ret, code.to_le_bytes().to_vec(), "output", "exit code of a program");
        check_eq!(r.gas_used, base + cost, "gas", "gas of a program of {} cycles", vm.cycles);
    }
    let less = cost - 1 - g.below(cost.min(100));
    let r = AxonExecutor.call(&a, base + less, None, Some(at(1, 4)), U256::zero(), data, false);
    check!(!r.exit_reason.is_succeed(), "exit", "a program of {} cycles with {} gas", vm.cycles, less);
    let other = (refs::keccak(&at_cell.0), at_cell.1);
    for p in [other, (at_cell.0, at_cell.1 ^ 1)] {
        let r = AxonExecutor.call(&a, 10_000_000, None, Some(at(1, 4)), U256::zero(), payload(&p), false);
        check!(!r.exit_reason.is_succeed(), "absent", "a program that is not there is run: {:?}", r);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id:     "P35",
        rule:   "hashes of something; valid curve points; proofs in trees of two or more leaves; numbers that are all there; every CKB program",
        assume: vec!["the big integers and the curve's first group behind modexp, ecadd and ecmul are stand-ins (the C library and crate are not here)"],
        facets: vec![
            Facet::new("hashes", 6000, hashes),
            Facet::new("blake2f", 3000, blake2f),
            Facet::new("ecrecover", 4000, ecrecover),
            Facet::new("modexp", 4000, modexp),
            Facet::new("curve", 2000, curve),
            Facet::new("cbmt", 3000, cbmt),
            Facet::new("programs", 300, programs),
        ],
    }]
}
