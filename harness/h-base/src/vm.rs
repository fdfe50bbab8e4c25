//! P18 CKB VM programs: generated RISC-V programs against an interpreter of their own.
use std::collections::HashMap;

use ckb_traits::CellDataProvider;
use ckb_types::packed;
use ckb_types::prelude::*;
use core_interoperation::{cycle_to_gas, gas_to_cycle, BlockchainType, InteroperationImpl};
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::traits::{Context, Interoperation};
use protocol::types::{Bytes, CellDep, VMResp, H256};

struct Cells(HashMap<(Vec<u8>, u32), Bytes>);
impl CellDataProvider for Cells {
    fn get_cell_data(&self, o: &packed::OutPoint) -> Option<Bytes> {
        self.0.get(&(o.tx_hash().raw_data().to_vec(), o.index().unpack())).cloned()
    }
    fn get_cell_data_hash(&self, o: &packed::OutPoint) -> Option<packed::Byte32> {
        self.get_cell_data(o).map(|d| packed::CellOutput::calc_data_hash(&d))
    }
}

/// Register-register operations: funct7, funct3, opcode 0x33 or 0x3b.
const RR: &[(&str, u32, u32, u32)] = &[
    ("add", 0, 0, 0x33), ("sub", 0x20, 0, 0x33), ("sll", 0, 1, 0x33), ("slt", 0, 2, 0x33), ("sltu", 0, 3, 0x33), ("xor", 0, 4, 0x33),
    ("srl", 0, 5, 0x33), ("sra", 0x20, 5, 0x33), ("or", 0, 6, 0x33), ("and", 0, 7, 0x33), ("addw", 0, 0, 0x3b), ("subw", 0x20, 0, 0x3b),
    ("mul", 1, 0, 0x33), ("mulh", 1, 1, 0x33), ("mulhu", 1, 3, 0x33), ("div", 1, 4, 0x33), ("divu", 1, 5, 0x33), ("rem", 1, 6, 0x33), ("remu", 1, 7, 0x33),
    // B extension
    ("andn", 0x20, 7, 0x33), ("orn", 0x20, 6, 0x33), ("xnor", 0x20, 4, 0x33), ("sh1add", 0x10, 2, 0x33), ("sh3add", 0x10, 6, 0x33),
    ("rol", 0x30, 1, 0x33), ("ror", 0x30, 5, 0x33), ("max", 5, 6, 0x33), ("minu", 5, 5, 0x33), ("bset", 0x14, 1, 0x33), ("bext", 0x24, 5, 0x33),
];
fn rr(n: &str, a: u64, b: u64) -> u64 {
    let s = (b & 63) as u32;
    let (x, y) = (a as i64, b as i64);
    match n {
        "add" => a.wrapping_add(b),
        "sub" => a.wrapping_sub(b),
        "sll" => a << s,
        "slt" => (x < y) as u64,
        "sltu" => (a < b) as u64,
        "xor" => a ^ b,
        "srl" => a >> s,
        "sra" => (x >> s) as u64,
        "or" => a | b,
        "and" => a & b,
        "addw" => (a as i32).wrapping_add(b as i32) as i64 as u64,
        "subw" => (a as i32).wrapping_sub(b as i32) as i64 as u64,
        "mul" => a.wrapping_mul(b),
        "mulh" => ((x as i128 * y as i128) >> 64) as u64,
        "mulhu" => ((a as u128 * b as u128) >> 64) as u64,
        "div" => if y == 0 { u64::MAX } else { x.wrapping_div(y) as u64 },
        "divu" => if b == 0 { u64::MAX } else { a / b },
        "rem" => if y == 0 { a } else { x.wrapping_rem(y) as u64 },
        "remu" => if b == 0 { a } else { a % b },
        "andn" => a & !b,
        "orn" => a | !b,
        "xnor" => !(a ^ b),
        "sh1add" => (a << 1).wrapping_add(b),
        "sh3add" => (a << 3).wrapping_add(b),
        "rol" => a.rotate_left(s),
        "ror" => a.rotate_right(s),
        "max" => x.max(y) as u64,
        "minu" => a.min(b),
        "bset" => a | (1 << s),
        "bext" => (a >> s) & 1,
        _ => unreachable!(),
    }
}
/// Single-register operations: imm12, funct3, opcode 0x13.
const UN: &[(&str, u32, u32)] = &[("clz", 0x600, 1), ("ctz", 0x601, 1), ("cpop", 0x602, 1), ("sext.b", 0x604, 1), ("rev8", 0x6b8, 5)];
fn un(n: &str, a: u64) -> u64 {
    match n {
        "clz" => a.leading_zeros() as u64,
        "ctz" => a.trailing_zeros() as u64,
        "cpop" => a.count_ones() as u64,
        "sext.b" => a as u8 as i8 as i64 as u64,
        "rev8" => a.swap_bytes(),
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Rr(usize, u32, u32, u32),
    Un(usize, u32, u32),
    Addi(u32, u32, i32),
    Slli(u32, u32, u32),
    /// rd = argc
    Argc(u32),
    /// rd = byte j of argument i
    Arg(u32, usize, usize),
    /// if r1 != r2 skip the next n instructions (words, all 4 bytes)
    Skip(u32, u32, u32),
}
const REGS: &[u32] = &[5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 28, 29, 30];

fn enc_i(imm: i32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    ((imm as u32 & 0xfff) << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op
}
fn enc_b(off: i32, rs1: u32, rs2: u32, f3: u32) -> u32 {
    let o = off as u32;
    ((o >> 12 & 1) << 31) | ((o >> 5 & 0x3f) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((o >> 1 & 0xf) << 8) | ((o >> 11 & 1) << 7) | 0x63
}
impl Op {
    fn enc(&self, out: &mut Vec<u32>) {
        match self {
            Op::Rr(k, d, a, b) => {
                let (_, f7, f3, op) = RR[*k];
                out.push((f7 << 25) | (b << 20) | (a << 15) | (f3 << 12) | (d << 7) | op);
            }
            Op::Un(k, d, a) => {
                let (_, imm, f3) = UN[*k];
                out.push(enc_i(imm as i32, *a, f3, *d, 0x13));
            }
            Op::Addi(d, a, i) => out.push(enc_i(*i, *a, 0, *d, 0x13)),
            Op::Slli(d, a, s) => out.push(enc_i(*s as i32, *a, 1, *d, 0x13)),
            Op::Argc(d) => out.push(enc_i(0, 2, 3, *d, 3)),
            Op::Arg(d, i, j) => {
                out.push(enc_i(8 * (*i as i32 + 1), 2, 3, *d, 3));
                out.push(enc_i(*j as i32, *d, 4, *d, 3));
            }
            Op::Skip(a, b, n) => out.push(enc_b(4 * (*n as i32 + 1), *a, *b, 1)),
        }
    }
    fn words(&self) -> usize {
        if let Op::Arg(..) = self { 2 } else { 1 }
    }
}

pub struct Program {
    pre:   Vec<Op>,
    body:  Vec<Op>,
    times: u32,
    post:  Vec<Op>,
}
/// x9 counts the loop; the result is in x10.
impl Program {
    fn code(&self) -> Vec<u32> {
        let mut w = vec![];
        self.pre.iter().for_each(|o| o.enc(&mut w));
        w.push(enc_i(self.times as i32, 0, 0, 9, 0x13));
        let top = w.len();
        self.body.iter().for_each(|o| o.enc(&mut w));
        w.push(enc_i(-1, 9, 0, 9, 0x13));
        w.push(enc_b((top as i32 - w.len() as i32) * 4, 9, 0, 1));
        self.post.iter().for_each(|o| o.enc(&mut w));
        w.push(enc_i(93, 0, 0, 17, 0x13));
        w.push(0x73);
        w
    }
    pub fn elf(&self, vaddr: u64) -> Vec<u8> {
        let code: Vec<u8> = self.code().iter().flat_map(|w| w.to_le_bytes()).collect();
        let mut e = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        e.extend(2u16.to_le_bytes());
        e.extend(243u16.to_le_bytes());
        e.extend(1u32.to_le_bytes());
        e.extend((vaddr + 120).to_le_bytes());
        e.extend(64u64.to_le_bytes());
        e.extend(0u64.to_le_bytes());
        e.extend(0u32.to_le_bytes());
        for x in [64u16, 56, 1, 64, 0, 0] {
            e.extend(x.to_le_bytes());
        }
        let n = 120 + code.len() as u64;
        e.extend(1u32.to_le_bytes());
        e.extend(5u32.to_le_bytes());
        for x in [0, vaddr, vaddr, n, n, 4096] {
            e.extend(x.to_le_bytes());
        }
        e.extend(code);
        e
    }
    /// Exit code and number of instructions executed.
    pub fn run(&self, args: &[Bytes]) -> (i8, u64) {
        let mut r = [0u64; 32];
        let mut n = 0;
        run(&self.pre, &mut r, &mut n, args);
        n += 1;
        for _ in 0..self.times {
            run(&self.body, &mut r, &mut n, args);
            n += 2;
        }
        run(&self.post, &mut r, &mut n, args);
        (r[10] as i8, n + 2)
    }
}
fn run(ops: &[Op], r: &mut [u64; 32], n: &mut u64, args: &[Bytes]) {
    let mut i = 0;
    while i < ops.len() {
        *n += ops[i].words() as u64;
        match &ops[i] {
            Op::Rr(k, d, a, b) => r[*d as usize] = rr(RR[*k].0, r[*a as usize], r[*b as usize]),
            Op::Un(k, d, a) => r[*d as usize] = un(UN[*k].0, r[*a as usize]),
            Op::Addi(d, a, x) => r[*d as usize] = r[*a as usize].wrapping_add(*x as i64 as u64),
            Op::Slli(d, a, s) => r[*d as usize] = r[*a as usize] << s,
            Op::Argc(d) => r[*d as usize] = args.len() as u64,
            Op::Arg(d, k, j) => r[*d as usize] = args[*k][*j] as u64,
            Op::Skip(a, b, w) => {
                if r[*a as usize] != r[*b as usize] {
                    let mut left = *w as usize;
                    while left > 0 {
                        i += 1;
                        left -= ops[i].words();
                    }
                }
            }
        }
        i += 1;
    }
}

fn ops(g: &mut Gen, max: usize, args: &[Bytes]) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let n = g.usize(0, max);
    let reg = |g: &mut Gen| *g.pick(REGS);
    for _ in 0..n {
        let o = match g.below(10) {
            0 => Op::Addi(reg(g), reg(g), g.below(4096) as i32 - 2048),
            1 => Op::Slli(reg(g), reg(g), g.below(64) as u32),
            2 => Op::Un(g.below(UN.len() as u64) as usize, reg(g), reg(g)),
            3 => Op::Argc(reg(g)),
            4 => {
                let c: Vec<usize> = (0..args.len()).filter(|&i| !args[i].is_empty()).collect();
                if c.is_empty() {
                    Op::Argc(reg(g))
                } else {
                    let i = *g.pick(&c);
                    Op::Arg(reg(g), i, g.below(args[i].len().min(2000) as u64) as usize)
                }
            }
            _ => Op::Rr(g.below(RR.len() as u64) as usize, reg(g), reg(g), reg(g)),
        };
        v.push(o);
    }
    // branches over some of what follows
    if v.len() > 2 && g.bool() {
        let at = g.below(v.len() as u64 - 1) as usize;
        let k = 1 + g.below((v.len() - at - 1).min(3) as u64) as usize;
        let w: usize = v[at..at + k].iter().map(|o| o.words()).sum();
        v.insert(at, Op::Skip(reg(g), reg(g), w as u32));
    }
    v
}

fn call(cells: &Cells, dep: &CellDep, args: &[Bytes], max: u64) -> Result<Result<VMResp, String>, pbt::Stop> {
    no_panic(|| InteroperationImpl::call_ckb_vm(Context::new(), cells, dep.clone(), args, max).map_err(|e| e.to_string())).map_err(|p| fail("vm-panic", p))
}

/// A program whose exit code is 0 if its two arguments begin with the same byte.
pub fn comparer() -> Program {
    let xor = RR.iter().position(|r| r.0 == "xor").unwrap();
    Program { pre: vec![Op::Arg(10, 0, 0), Op::Arg(11, 1, 0), Op::Rr(xor, 10, 10, 11)], body: vec![], times: 1, post: vec![] }
}

/// A program that ends, and its arguments.
pub fn generate(g: &mut Gen) -> (Program, Vec<Bytes>) {
    let args: Vec<Bytes> = g.vec(4, |g| Bytes::from(g.bytes(40)));
    let mut pre: Vec<Op> = vec![];
    for r in REGS {
        if g.bool() {
            pre.push(Op::Addi(*r, 0, g.below(4096) as i32 - 2048));
        } else {
            pre.push(Op::Argc(*r));
        }
    }
    pre.extend(ops(g, 12, &args));
    let body = ops(g, 12, &args);
    let times = 1 + g.below(20) as u32 * g.below(100) as u32;
    let mut post = ops(g, 6, &args);
    // fold what was computed into the exit code
    for r in REGS {
        post.push(Op::Rr(5, 10, 10, *r));
    }
    post.pop();
    if g.bool() {
        post.push(Op::Slli(5, 10, 8));
        post.push(Op::Un(2, 5, 10));
        post.push(Op::Rr(5, 10, 10, 5));
    }
    (Program { pre, body, times, post }, args)
}

fn program(g: &mut Gen) -> Res {
    let (p, args) = generate(g);
    let times = p.times;
    let elf = Bytes::from(p.elf(*g.pick(&[0x10000u64, 0x1000, 0x200000])));
    let dep = CellDep { tx_hash: crate::gens::h256(g), index: g.u32(), dep_type: g.byte() };
    let mut cells = Cells(HashMap::new());
    cells.0.insert((dep.tx_hash.0.to_vec(), dep.index), elf.clone());
    // a neighbour that must not be taken for it
    let other = CellDep { tx_hash: dep.tx_hash, index: dep.index ^ 1, dep_type: dep.dep_type };
    cells.0.insert((other.tx_hash.0.to_vec(), other.index), Bytes::from(vec![0u8; 10]));
    let (code, n) = p.run(&args);
    if !args.is_empty() || times > 1 {
        g.hit();
    }
    g.note(|| format!("{} instructions run, exit code {}, {} arguments", n, code, args.len()));
    // bounded by the limit: fewer cycles than instructions cannot do (two can be fused into one)
    let low = g.below(n / 2) + 499;
    let r = call(&cells, &dep, &args, low.min(n / 2 + 499))?;
    check!(r.is_err(), "vm-limit", "a program that runs {} instructions and a system call ends within {} cycles: {:?}", n, low, r);
    let limit = match g.below(3) {
        0 => u64::MAX,
        1 => gas_to_cycle(1_000_000 + g.u32() as u64),
        _ => 100_000_000,
    };
    let r = call(&cells, &dep, &args, limit)?.map_err(|e| fail("vm-run", format!("a valid program fails: {}", e)))?;
    check_eq!(r.exit_code, code, "vm-exit-code", "exit code");
    check!(r.cycles <= limit && r.cycles >= n / 2 + 500, "vm-cycles", "{} cycles for {} instructions and a system call", r.cycles, n);
    let again = call(&cells, &dep, &args, r.cycles)?;
    check_eq!(again, Ok(r.clone()), "vm-limit", "the program run with exactly the cycles it needs");
    let less = call(&cells, &dep, &args, r.cycles - 1 - g.below(r.cycles.min(1000)).min(r.cycles - 1))?;
    check!(less.is_err(), "vm-limit", "a program that needs {} cycles ends with fewer: {:?}", r.cycles, less);
    // twice the loop, more cycles
    if times < 1000 {
        let q = Program { pre: p.pre.clone(), body: p.body.clone(), times: times * 2, post: p.post.clone() };
        cells.0.insert((dep.tx_hash.0.to_vec(), dep.index), Bytes::from(q.elf(0x10000)));
        let s = call(&cells, &dep, &args, u64::MAX)?.map_err(|e| fail("vm-run", e))?;
        check_eq!(s.exit_code, q.run(&args).0, "vm-exit-code", "exit code with twice the iterations");
        check!(s.cycles >= r.cycles + times as u64, "vm-cycles", "{} cycles for {} iterations, {} for twice as many", r.cycles, times, s.cycles);
    }
    // programs that are not there, or no programs
    let absent = CellDep { tx_hash: H256(refs::keccak(&dep.tx_hash.0)), ..dep.clone() };
    check!(call(&cells, &absent, &args, u64::MAX)?.is_err(), "vm-absent", "a program that does not exist is run");
    check!(call(&cells, &other, &args, u64::MAX)?.is_err(), "vm-absent", "ten zero bytes are run");
    let cut = 4 * g.below(16) as usize;
    cells.0.insert((dep.tx_hash.0.to_vec(), dep.index), elf.slice(..cut + g.below(100) as usize % 60));
    check!(call(&cells, &dep, &args, 1_000_000)?.is_err(), "vm-absent", "a truncated program is run");
    // gas and cycles
    let gas = g.u64() % (u64::MAX / 6000 + 1);
    check_eq!(gas_to_cycle(gas), gas * 6000, "gas", "cycles of {} gas", gas);
    check_eq!(cycle_to_gas(gas_to_cycle(gas)), gas, "gas", "gas of its cycles");
    let c = g.u64();
    check_eq!(cycle_to_gas(c), c / 6000, "gas", "gas of {} cycles", c);
    let b = g.byte();
    check_eq!(BlockchainType::try_from(b).ok().map(|x| x as u8), (b < 2).then_some(b), "blockchain", "block chain kind {}", b);
    Ok(())
}

fn deps(g: &mut Gen) -> Res {
    let d = CellDep { tx_hash: crate::gens::h256(g), index: g.u32(), dep_type: g.byte() };
    let p: packed::CellDep = (&d).into();
    g.hit();
    let mut want = d.tx_hash.0.to_vec();
    want.extend(d.index.to_le_bytes());
    want.push(d.dep_type);
    check_eq!(refs::hex(p.as_slice()), refs::hex(&want), "molecule", "CKB form of a cell dependency");
    let o = protocol::types::OutPoint::from(&p.out_point());
    check_eq!((o.tx_hash, o.index), (d.tx_hash, d.index), "molecule", "out point");
    let s = protocol::types::Script { code_hash: crate::gens::h256(g), args: Bytes::from(g.bytes(60)), hash_type: g.byte() };
    let p: packed::Script = (&s).into();
    // molecule table: size, three offsets, code hash, hash type, length-prefixed args
    let n = 16 + 32 + 1 + 4 + s.args.len();
    let mut want = (n as u32).to_le_bytes().to_vec();
    for x in [16u32, 48, 49] {
        want.extend(x.to_le_bytes());
    }
    want.extend(s.code_hash.0);
    want.push(s.hash_type);
    want.extend((s.args.len() as u32).to_le_bytes());
    want.extend(&s.args);
    check_eq!(refs::hex(p.as_slice()), refs::hex(&want), "molecule", "CKB form of a script");
    check_eq!(s.len(), 33 + s.args.len(), "molecule", "occupied bytes of a script");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P18",
        rule: "a generated program of arithmetic, bit operations, branches and a loop that reads its arguments; non-trivial: it has arguments or loops",
        assume: vec!["the interpreter in this file executes the RISC-V operations it uses as specified"],
        facets: vec![Facet::new("program", 4_000, program), Facet::new("cell-dep", 60_000, deps)],
    }]
}
