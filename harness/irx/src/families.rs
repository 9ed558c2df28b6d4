//! Per-property case families: finite grids (enumerated completely) and seeded random generators.

use crate::{e2e::Case, r#gen::*};
use revm_bytecode::opcode::{self as op, OPCODE_INFO};
use revm_primitives::{U256, hardfork::SpecId};

fn p2(k: usize) -> U256 {
    U256::from(1) << k
}
/// Boundary operands.
pub fn boundary() -> Vec<U256> {
    let mut v: Vec<U256> = [0u64, 1, 2, 3, 5, 7, 8, 15, 16, 30, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256, 257, 1000]
        .into_iter()
        .map(U256::from)
        .collect();
    for k in [63, 64, 127, 128, 160, 254, 255] {
        v.push(p2(k));
        v.push(p2(k) - U256::from(1));
    }
    v.extend([U256::MAX, U256::MAX - U256::from(1), p2(255) + U256::from(1), U256::MAX - U256::from(255)]);
    v.push(U256::from_limbs([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x8000_0000_0000_0001, 0x7fff_0000_ffff_8001]));
    v.push(U256::from_limbs([0xffff_ffff_0000_0000, 0, u64::MAX, 0x8080_8080_8080_8080]));
    v
}

pub const PURE: &[u8] = &[
    op::ADD, op::MUL, op::SUB, op::DIV, op::SDIV, op::MOD, op::SMOD, op::EXP, op::SIGNEXTEND, op::LT, op::GT, op::SLT,
    op::SGT, op::EQ, op::AND, op::OR, op::XOR, op::BYTE, op::SHL, op::SHR, op::SAR, op::ISZERO, op::NOT, op::CLZ,
    op::ADDMOD, op::MULMOD,
];

fn ret_top(p: &mut Prog) {
    p.push(U256::ZERO);
    p.op(op::MSTORE);
    p.push(U256::from(32));
    p.push(U256::ZERO);
    p.op(op::RETURN);
}

/// `op` applied to `args` (first = top of stack); bit i of `form` makes operand i a run-time value; `mat` forces the
/// operands through the in-memory stack with a block boundary.
pub fn pure_case(o: u8, args: &[U256], form: u32, mat: bool) -> Case {
    let mut p = Prog::new(1);
    let mut cd = vec![];
    for (i, a) in args.iter().enumerate().rev() {
        if form >> i & 1 == 1 {
            p.push(U256::from(cd.len()));
            p.op(op::CALLDATALOAD);
            cd.extend(a.to_be_bytes::<32>());
        } else {
            p.push(*a);
        }
    }
    if mat {
        p.op(op::JUMPDEST);
    }
    p.op(o);
    ret_top(&mut p);
    let mut c = Case::new(p.finish(), *specs().last().unwrap());
    c.calldata = cd;
    c
}

/// Operands of the host-facing operations, chosen around each operand's own boundaries.
#[derive(Clone, Copy)]
enum Arg {
    Addr,
    Key,
    Val,
    Off,
    Len,
    Src,
    Num,
    Idx,
    Gas,
    Value,
    InitLen,
    Word,
    NoLen,
    Huge,
}
thread_local! {
    /// Addresses are mostly those of the other contracts.
    static TXN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn host_arg(r: &mut Rng, p: &mut Prog, cd: &mut Vec<u8>, a: Arg) {
    let u = |x: u64| U256::from(x);
    let big = |r: &mut Rng| r.pick(&[u(1 << 32), u(u64::MAX), u(u64::MAX - 31), p2(64), p2(64) + u(32), p2(63), U256::MAX, p2(160), p2(255)]);
    let v = match a {
        Arg::Addr => {
            let low = if TXN.with(|t| t.get()) && r.chance(75) { 16 + r.below(8) } else { r.below(28) };
            let low = U256::from(low);
            let x = match r.below(8) {
                0 => U256::from_be_slice(crate::host::SELF.as_slice()),
                1 => U256::from_be_slice(crate::host::CALLER.as_slice()),
                2 => (r.word() << 16) | low,
                _ => low,
            };
            // Bits above the address must not matter.
            if r.chance(15) { x | (r.word() << 160) } else { x & (p2(160) - u(1)) }
        }
        Arg::Key => match r.below(8) {
            0 => r.word(),
            1 => r.pick(&[u(u64::MAX), p2(63), p2(64), p2(63) - u(1), u(1 << 31), u(1 << 32), U256::MAX]),
            _ => r.pick(&[u(0), u(0), u(1), u(2), u(5), u(0x20), u(69)]),
        },
        Arg::Val => {
            if r.chance(25) {
                r.word()
            } else {
                r.pick(&[u(0), u(0), u(1), u(2), u(0x55), u(7)])
            }
        }
        Arg::Off => {
            if r.chance(6) {
                big(r)
            } else {
                u(r.pick(&[0u64, 0, 1, 31, 32, 33, 64, 95, 96, 100, 500]))
            }
        }
        Arg::Len => {
            if r.chance(4) {
                big(r)
            } else {
                u(r.pick(&[0u64, 0, 1, 4, 31, 32, 33, 64, 65, 70, 71, 96, 130]))
            }
        }
        Arg::Src => {
            if r.chance(20) {
                big(r)
            } else {
                u(r.pick(&[0u64, 0, 1, 2, 5, 6, 7, 31, 32, 33, 69, 70, 71, 100]))
            }
        }
        Arg::Num => {
            if r.chance(15) {
                r.word()
            } else {
                let base = r.pick(&[500u64, 500, 500, 200, 256, 0]);
                let d = r.pick(&[0u64, 1, 2, 3, 254, 255, 256, 257, 258, 499, 500]);
                let x = if r.chance(10) { u(base) + u(d) } else { u(base.wrapping_sub(d).min(600)) };
                if r.chance(10) { x + p2(64) } else { x }
            }
        }
        Arg::Idx => r.pick(&[u(0), u(1), u(2), u(3), p2(64), p2(64) + u(1), U256::MAX]),
        Arg::Gas => match r.below(6) {
            0 => r.word(),
            1 => U256::MAX,
            2 => u(0),
            3 => p2(64) + u(100),
            _ => u(r.below(100_000)),
        },
        Arg::Value => {
            if r.chance(50) {
                u(0)
            } else {
                r.pick(&[u(1), u(2), p2(64), U256::MAX])
            }
        }
        Arg::InitLen => {
            if r.chance(15) {
                u(r.pick(&[24576u64, 24577, 49120, 49151, 49152, 49153, 65536]))
            } else {
                u(r.pick(&[0u64, 1, 31, 32, 33, 64]))
            }
        }
        Arg::Word => r.word(),
        Arg::NoLen => u(0),
        Arg::Huge => big(r),
    };
    match r.below(10) {
        0..=2 if cd.len() < 1000 => {
            p.push(U256::from(cd.len()));
            p.op(op::CALLDATALOAD);
            cd.extend(v.to_be_bytes::<32>());
        }
        3 if matches!(a, Arg::Num) => {
            p.push(U256::from(r.pick(&[0u64, 1, 255, 256, 257])));
            p.op(op::NUMBER);
            p.op(op::SUB);
        }
        4 if matches!(a, Arg::Gas) => p.op(op::GAS),
        4 if matches!(a, Arg::Addr) => p.op(r.pick(&[op::ADDRESS, op::CALLER, op::COINBASE, op::ORIGIN])),
        _ => p.push(v),
    }
}
fn host_ops(r: &mut Rng, calls: bool) -> Case {
    use Arg::*;
    let mut p = Prog::new(0);
    let mut cd = vec![];
    let state: &[(u8, &[Arg])] = &[
        (op::SSTORE, &[Val, Key]),
        (op::SSTORE, &[Val, Key]),
        (op::SSTORE, &[Val, Key]),
        (op::SLOAD, &[Key]),
        (op::SLOAD, &[Key]),
        (op::TSTORE, &[Val, Key]),
        (op::TLOAD, &[Key]),
        (op::BALANCE, &[Addr]),
        (op::EXTCODESIZE, &[Addr]),
        (op::EXTCODEHASH, &[Addr]),
        (op::EXTCODECOPY, &[Len, Src, Off, Addr]),
        (op::BLOCKHASH, &[Num]),
        (op::BLOBHASH, &[Idx]),
        (op::LOG0, &[Len, Off]),
        (op::LOG1, &[Word, Len, Off]),
        (op::LOG2, &[Word, Word, Len, Off]),
        (op::LOG3, &[Word, Word, Word, Len, Off]),
        (op::LOG4, &[Word, Word, Word, Word, Len, Off]),
        (op::SELFBALANCE, &[]),
        (op::KECCAK256, &[Len, Off]),
        (op::CALLDATACOPY, &[Len, Src, Off]),
        (op::CODECOPY, &[Len, Src, Off]),
        (op::CALLDATACOPY, &[Len, Src, Off]),
        (op::MCOPY, &[Len, Off, Off]),
        (op::CALLDATALOAD, &[Src]),
        (op::CALLDATALOAD, &[Src]),
        (op::MSTORE, &[Word, Off]),
        (op::MSTORE8, &[Word, Off]),
        (op::MLOAD, &[Off]),
    ];
    let frames: &[(u8, &[Arg])] = &[
        (op::CALL, &[Len, Off, Len, Off, Value, Addr, Gas]),
        (op::CALL, &[Len, Off, Len, Off, Value, Addr, Gas]),
        (op::CALLCODE, &[Len, Off, Len, Off, Value, Addr, Gas]),
        (op::DELEGATECALL, &[Len, Off, Len, Off, Addr, Gas]),
        (op::STATICCALL, &[Len, Off, Len, Off, Addr, Gas]),
        (op::CREATE, &[InitLen, Off, Value]),
        (op::CREATE2, &[Word, InitLen, Off, Value]),
        (op::RETURNDATASIZE, &[]),
        (op::RETURNDATACOPY, &[Len, Src, Off]),
        (op::MSTORE, &[Word, Off]),
        (op::MLOAD, &[Off]),
        (op::GAS, &[]),
        (op::MSIZE, &[]),
    ];
    if r.chance(30) {
        // Something to copy and hash.
        p.push(r.word());
        p.push(U256::from(r.below(70)));
        p.op(op::MSTORE);
    }
    for _ in 0..1 + r.below(5) {
        let pool = if calls && r.chance(70) { frames } else { state };
        let (o, args) = r.pick(pool);
        // With a zero length no offset matters.
        let none = r.chance(8);
        for &a in args {
            match a {
                Len if none => host_arg(r, &mut p, &mut cd, NoLen),
                Off if none && r.chance(60) => host_arg(r, &mut p, &mut cd, Huge),
                _ => host_arg(r, &mut p, &mut cd, a),
            }
        }
        p.op(o);
        if r.chance(10) {
            p.op(op::GAS);
        }
    }
    match r.below(8) {
        0 => {
            host_arg(r, &mut p, &mut cd, Addr);
            p.op(op::SELFDESTRUCT);
        }
        1 | 2 => {
            host_arg(r, &mut p, &mut cd, Len);
            host_arg(r, &mut p, &mut cd, Off);
            p.op(r.pick(&[op::RETURN, op::REVERT]));
        }
        3 => ret_top(&mut p),
        _ => {}
    }
    let mut c = Case::new(p.finish(), some_spec(r));
    vary(r, &mut c);
    c.calldata = cd;
    if r.chance(50) {
        c.gas = 3_000_000;
    }
    c
}

/// A finite family, or `None` past its end.
pub fn grid(name: &str, i: u64) -> Option<Case> {
    let b = boundary();
    let n = b.len() as u64;
    match name {
        // Every pure opcode, every pair of boundary operands, every operand form.
        "pure" => {
            let (o, i) = (i % PURE.len() as u64, i / PURE.len() as u64);
            let o = PURE[o as usize];
            let (x, i) = (i % n, i / n);
            let (y, i) = (i % n, i / n);
            let ins = OPCODE_INFO[o as usize].unwrap().inputs() as u32;
            let forms = [(0u32, false), (1, false), (2, false), (3, false), (3, true), (1, true), (2, true), (0, true)];
            let (form, mat) = *forms.get(i as usize)?;
            // The last form: constant operands without compile-time evaluation.
            let nofold = i as usize == forms.len() - 1;
            let mat = mat && !nofold;
            let (x, y) = (b[x as usize], b[y as usize]);
            let z = b[((x ^ y).as_limbs()[0] % n) as usize];
            let mut c = match ins {
                1 => pure_case(o, &[x], form & 1, mat),
                2 => pure_case(o, &[x, y], form, mat),
                _ => pure_case(o, &[z, x, y], form << 1 | (form & 1), mat),
            };
            if nofold {
                c.fold = Some(0);
            }
            Some(c)
        }
        // Every opcode on every fork around its stack requirements, split into sections in three ways.
        "bounds" => {
            let sp = [SpecId::FRONTIER, SpecId::BYZANTIUM, SpecId::CANCUN, *specs().last().unwrap()];
            let depths: Vec<u64> = (0..=18).chain([236, 1006, 1007, 1008, 1009, 1021, 1022, 1023, 1024]).collect();
            let (o, i) = ((i % 256) as u8, i / 256);
            let (s, i) = (i % 3, i / 3);
            let (d, i) = (i % depths.len() as u64, i / depths.len() as u64);
            let spec = *sp.get(i as usize)?;
            let d = depths[d as usize];
            if d > 20 && i % 2 == 0 {
                return Some(Case::new(vec![o], spec));
            }
            let mut code = vec![];
            for k in 0..d {
                code.extend([op::PUSH1, (k % 3) as u8]);
            }
            match s {
                1 => code.push(op::JUMPDEST),
                2 if d < 1024 => code.extend([op::GAS, op::POP]),
                _ => {}
            }
            code.push(o);
            if (op::DUPN..=op::EXCHANGE).contains(&o) {
                code.push([0x80, 0x00, 0x8e][s as usize]);
            }
            let mut c = Case::new(code, spec);
            c.inspect = d % 2 == 0;
            Some(c)
        }
        // Every opcode on every fork with plausible operands.
        "ops" => {
            let sp = specs();
            let (o, i) = ((i % 256) as u8, i / 256);
            let (v, i) = (i % 6, i / 6);
            let spec = *sp.get(i as usize)?;
            let mut p = Prog::new(0);
            for k in 0..8u64 {
                match v {
                    0 => p.push(U256::from([0u64, 32, 0, 1][k as usize % 4])),
                    1 => p.push(U256::from(k)),
                    2 => {
                        p.push(U256::from(k * 4));
                        p.op(op::CALLDATALOAD);
                    }
                    3 => p.push(U256::ZERO),
                    4 => p.push(U256::from(64 - 8 * k)),
                    _ => {
                        p.push(U256::from(k % 3 * 32));
                        p.op(op::CALLDATALOAD);
                        p.push(U256::from(0x3f));
                        p.op(op::AND);
                    }
                }
            }
            p.op(o);
            if (op::DUPN..=op::EXCHANGE).contains(&o) {
                p.code.push(0x80);
            }
            p.op(op::GAS);
            p.op(op::MSIZE);
            let mut c = Case::new(p.finish(), spec);
            c.inspect = v % 2 == 0;
            c.gas = 1_000_000;
            c.calldata = (0..96u8).map(|x| if x % 32 < 28 { 0 } else { x }).collect();
            if spec as u8 >= SpecId::AMSTERDAM as u8 {
                c.reservoir = if v % 2 == 0 { 0 } else { 400_000 };
            }
            Some(c)
        }
        _ => panic!("unknown grid {name}"),
    }
}

fn latest() -> SpecId {
    *specs().last().unwrap()
}
fn some_spec(r: &mut Rng) -> SpecId {
    let all = specs();
    if r.chance(50) { latest() } else { r.pick(&all) }
}

/// Straight byte soup around instruction boundaries, jumped into from everywhere.
fn decode(r: &mut Rng) -> Case {
    let spec = some_spec(r);
    let n = 1 + r.below(24) as usize;
    let body: Vec<u8> = (0..n)
        .map(|_| match r.below(12) {
            0..=4 => op::JUMPDEST,
            5 => op::PUSH1 + r.below(32) as u8,
            6 => op::PUSH1 + r.below(4) as u8,
            7 => r.pick(&[op::DUPN, op::SWAPN, op::EXCHANGE]),
            8 => 0,
            9 => r.pick(&[0x5f, 0x80, 0x51, 0x52, 0x5a, 0x7f, 0x60, op::PC, op::POP]),
            _ => r.next() as u8,
        })
        .collect();
    let mut p = Prog::new(0);
    let depth = r.pick(&[0u64, 1, 3, 20, 40]);
    for i in 0..depth {
        p.push(U256::from(i + 1));
    }
    let dynamic = r.chance(40);
    let base = p.code.len() + if dynamic { 4 } else { 3 };
    let mut t = U256::from(base as u64 + r.below(n as u64 + 2));
    if r.chance(4) {
        t += p2(r.pick(&[8usize, 16, 32, 64, 128, 255]));
    }
    let mut cd = vec![];
    match r.below(10) {
        0 => {}
        _ if dynamic => {
            p.push(U256::ZERO);
            p.op(op::CALLDATALOAD);
            p.op(op::JUMP);
            cd = t.to_be_bytes::<32>().to_vec();
        }
        _ if t < U256::from(256) => {
            p.code.extend([op::PUSH1, t.to::<u64>() as u8, op::JUMP]);
        }
        _ => {}
    }
    p.code.extend(&body);
    let mut c = Case::new(p.finish(), spec);
    c.calldata = cd;
    c.inspect = r.chance(70);
    c.debug = r.chance(50);
    c.single_error = r.chance(70);
    c
}

/// Blocks instantiated several times with small differences, dispatched on calldata.
fn dups(r: &mut Rng) -> Case {
    let spec = some_spec(r);
    let kinds = 1 + r.below(3) as usize;
    let copies = 2 + r.below(4) as usize;
    let n = kinds * copies;
    let mut p = Prog::new(n + 3);
    let pre = r.below(5);
    for i in 0..pre {
        if r.chance(50) {
            p.push(U256::from(i));
        } else {
            p.push(U256::from(i * 32));
            p.op(op::CALLDATALOAD);
        }
    }
    let style = r.below(3);
    if style == 0 {
        p.push(U256::ZERO);
        p.op(op::CALLDATALOAD);
        p.op(op::JUMP);
    } else {
        for i in 0..n {
            p.push(U256::ZERO);
            p.op(op::CALLDATALOAD);
            p.push(U256::from(i as u64));
            p.op(op::EQ);
            p.push_label(i);
            p.op(op::JUMPI);
        }
        if r.chance(50) {
            p.push_label(r.below(n as u64) as usize);
            p.op(op::JUMP);
        }
    }
    let mix = r.pick(&[Mix::Pure, Mix::Stack, Mix::Memory, Mix::Storage, Mix::All]);
    let mut templates = vec![];
    for _ in 0..kinds {
        templates.push((r.next(), r.below(4), r.below(7)));
    }
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut starts = vec![0; n];
    for &i in &order {
        let (seed, len, term) = templates[i % kinds];
        starts[i] = p.code.len();
        p.place(i);
        p.depth = 3;
        let from = p.code.len();
        let mut q = Rng(seed);
        for _ in 0..len {
            p.snippet(&mut q, mix);
        }
        // Mutate one byte of this copy from time to time.
        if r.chance(25) && p.code.len() > from {
            let at = from + r.below((p.code.len() - from) as u64) as usize;
            p.code[at] ^= 1 << r.below(3);
        }
        let alt = r.chance(15);
        match term {
            0 => p.op(op::STOP),
            1 | 2 => {
                p.push(U256::from(if alt { 64u64 } else { 32 }));
                p.push(U256::ZERO);
                p.op(if term == 1 { op::RETURN } else { op::REVERT });
            }
            3 => p.op(op::INVALID),
            4 => {
                p.push_label(n + alt as usize);
                p.op(op::JUMP);
            }
            5 => {
                p.push_label(n + (q.next() & 1) as usize);
                p.op(op::JUMPI);
                p.op(op::STOP);
            }
            _ => {}
        }
    }
    for l in [n, n + 1, n + 2] {
        p.place(l);
        p.push(U256::from(l as u64));
        p.push(U256::from(64));
        p.op(op::MSTORE);
        if r.chance(50) {
            p.push(U256::from(128));
            p.push(U256::ZERO);
            p.op(op::RETURN);
        }
    }
    let k = r.below(n as u64 + 1);
    let sel = if style == 0 && (k as usize) < n { starts[k as usize] as u64 } else { k };
    let mut c = Case::new(p.finish(), spec);
    vary(r, &mut c);
    c.calldata = U256::from(sel).to_be_bytes::<32>().to_vec();
    c.calldata.extend((0..96u8).map(|x| if x % 32 == 31 { x } else { 0 }));
    c.is_static = false;
    c.dedup = true;
    c
}

/// Jump-heavy programs: subroutine calls with return addresses, computed and constant conditions.
fn jumps(r: &mut Rng) -> Case {
    let spec = some_spec(r);
    let mut cd = vec![];
    let nsub = 1 + r.below(3) as usize;
    let ncall = 1 + r.below(4) as usize;
    let end = nsub + ncall;
    let mut p = Prog::new(end + 4);
    for i in 0..r.below(3) {
        p.push(U256::from(i));
    }
    for k in 0..ncall {
        // call sub s with a return address
        let s = r.below(nsub as u64) as usize;
        match r.below(8) {
            0 => {
                p.push(U256::from(cd.len()));
                p.op(op::CALLDATALOAD);
                cd.extend(r.pick(&[U256::ZERO, U256::from(1), U256::MAX]).to_be_bytes::<32>());
                p.push_label(end);
                p.op(op::JUMPI);
            }
            1 => {
                let v = r.pick(&[U256::ZERO, U256::from(1), p2(255), p2(64)]);
                p.push(v);
                p.push_label(end);
                p.op(op::JUMPI);
            }
            2 => {
                // table of two labels selected by calldata
                p.push_label(nsub + k);
                p.push_label(end);
                p.push(U256::from(cd.len()));
                p.op(op::CALLDATALOAD);
                cd.extend(U256::from(r.below(2)).to_be_bytes::<32>());
                p.push(U256::from(1));
                p.op(op::AND);
                p.push_label(end + 1);
                p.op(op::JUMPI);
                p.op(op::SWAP1);
                p.op(op::POP);
                p.push_label(s);
                p.op(op::JUMP);
            }
            _ => {}
        }
        p.push_label(nsub + k);
        if r.chance(40) {
            p.value_pub(r);
            p.op(op::SWAP1);
        }
        match r.below(6) {
            0 => {
                // obfuscated target
                p.push_label(s);
                p.push(U256::from(r.below(4)));
                p.op(op::ADD);
                p.push(U256::from(r.below(4)));
                p.op(op::SWAP1);
                p.op(op::SUB);
            }
            1 => {
                // target widened beyond 64 bits
                p.push_label(s);
                p.push(if r.chance(40) { p2(r.pick(&[32usize, 63, 64, 65, 128, 255])) } else { U256::ZERO });
                p.op(op::OR);
            }
            _ => p.push_label(s),
        }
        if r.chance(20) {
            let v = r.pick(&[U256::ZERO, U256::from(1), p2(128)]);
            p.push(v);
            p.op(op::SWAP1);
            p.op(op::JUMPI);
        } else {
            p.op(op::JUMP);
        }
        p.place(nsub + k);
        if r.chance(50) {
            p.depth = p.depth.clamp(1, 10);
            p.snippet(r, Mix::Stack);
        }
    }
    p.push_label(end);
    p.op(op::JUMP);
    for s in 0..nsub {
        p.place(s);
        p.depth = 2;
        for _ in 0..r.below(3) {
            let d = p.depth;
            p.snippet(r, Mix::Pure);
            while p.depth > d {
                p.op(op::POP);
            }
        }
        if r.chance(15) && s + 1 < nsub {
            p.push_label(s + 1);
            p.op(op::JUMP);
        } else {
            p.op(op::JUMP);
        }
    }
    p.place(end + 1);
    p.op(op::POP);
    p.op(op::JUMP);
    p.place(end);
    if r.chance(60) {
        p.push(U256::ZERO);
        p.op(op::MSTORE);
        p.push(U256::from(32));
        p.push(U256::ZERO);
        p.op(op::RETURN);
    }
    let mut c = Case::new(p.finish(), spec);
    vary(r, &mut c);
    c.is_static = false;
    c.calldata = cd;
    c
}

/// Memory programs with mostly constant offsets over several blocks.
fn memory(r: &mut Rng) -> Case {
    if r.chance(40) {
        return random_case(r, Mix::Memory);
    }
    let spec = some_spec(r);
    let nl = 1 + r.below(4) as usize;
    let mut p = Prog::new(nl + 1);
    for l in 0..=nl {
        if l > 0 {
            if r.chance(40) {
                p.push(U256::from(r.below(64)));
                p.op(op::CALLDATALOAD);
                p.push_label(r.below(nl as u64) as usize + 1);
                p.op(op::JUMPI);
            }
            if r.chance(10) {
                p.push(U256::from(r.below(64)));
                p.op(op::CALLDATALOAD);
                p.op(op::JUMP);
            }
            p.place(l);
            p.depth = p.depth.max(0);
        }
        for _ in 0..1 + r.below(5) {
            p.mem_snippet(r);
        }
    }
    p.op(op::MSIZE);
    p.push(U256::ZERO);
    p.op(r.pick(&[op::RETURN, op::REVERT, op::KECCAK256]));
    let mut c = Case::new(p.finish(), spec);
    vary(r, &mut c);
    c.gas = r.pick(&[3_000u64, 50_000, 200_000, 5_000_000]);
    c
}

/// Stack shuffles with dead and overwritten values.
fn shuffle(r: &mut Rng) -> Case {
    let spec = some_spec(r);
    let blocks = 1 + r.below(4) as usize;
    let mut p = Prog::new(blocks + 1);
    for _ in 0..r.below(22) {
        p.value_pub(r);
    }
    for b in 0..blocks {
        if b > 0 {
            if r.chance(50) {
                p.push(U256::from(r.below(64)));
                p.op(op::CALLDATALOAD);
                p.push_label(1 + r.below(blocks as u64) as usize);
                p.op(op::JUMPI);
            }
            p.place(b);
        }
        for _ in 0..r.below(14) {
            match r.below(14) {
                0..=2 => p.value_pub(r),
                3 | 4 if p.depth > 0 => p.op(op::POP),
                5 | 6 if p.depth > 0 => {
                    let n = 1 + r.below(p.depth.min(16) as u64) as u8;
                    p.op(op::DUP1 + n - 1)
                }
                7..=9 if p.depth > 1 => {
                    let n = 1 + r.below((p.depth - 1).min(16) as u64) as u8;
                    p.op(op::SWAP1 + n - 1)
                }
                10 if p.depth > 1 => p.op(r.pick(&[op::ADD, op::SUB, op::DIV, op::LT, op::MSTORE, op::SSTORE])),
                11 if p.depth > 0 => p.op(r.pick(&[op::ISZERO, op::MLOAD, op::SLOAD, op::CALLDATALOAD])),
                12 if p.depth > 17 => {
                    let o = r.pick(&[op::DUPN, op::SWAPN, op::EXCHANGE]);
                    p.op(o);
                    p.code.push(if o == op::EXCHANGE { r.pick(&[0x8e, 0x8f, 0x9e, 0x50, 0x00]) } else { r.pick(&[0x80, 0x81, 0x82]) });
                }
                13 if p.depth > 2 && r.chance(20) => {
                    p.push(U256::from(r.below(200)));
                    p.op(op::GAS);
                    p.op(op::POP);
                }
                _ => {}
            }
        }
    }
    p.place(blocks);
    match r.below(4) {
        0 => {
            p.op(op::PUSH1);
            p.code.push(0);
            p.op(op::MSTORE);
            p.push(U256::from(96));
            p.push(U256::ZERO);
            p.op(op::RETURN);
        }
        1 => p.op(op::INVALID),
        _ => {}
    }
    let mut c = Case::new(p.finish(), spec);
    vary(r, &mut c);
    c.is_static = false;
    c
}

/// Copies of subroutines called from several sites that continue in copies of the same code.
fn subs(r: &mut Rng) -> Case {
    let spec = some_spec(r);
    let nsub = 1 + r.below(3) as usize;
    let ncall = 2 + r.below(4) as usize;
    let (site, ret, end, split) = (nsub, nsub + ncall, nsub + 2 * ncall, nsub + 2 * ncall + 2);
    let mut p = Prog::new(split + nsub + 1);
    for i in 0..r.below(3) {
        p.push(U256::from(i + 5));
    }
    for i in 0..ncall {
        p.push(U256::ZERO);
        p.op(op::CALLDATALOAD);
        p.push(U256::from(i as u64));
        p.op(op::EQ);
        p.push_label(site + i);
        p.op(op::JUMPI);
    }
    if r.chance(50) {
        p.op(op::STOP);
    }
    let body = r.next();
    let body_len = r.below(3);
    let style = r.below(4);
    let mut order: Vec<(u8, usize)> = (0..ncall).flat_map(|i| [(0, i), (1, i)]).chain((0..nsub).map(|s| (2, s))).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let tails = [r.next(), r.next()];
    let tail_kind = [r.below(6), r.below(6)];
    let same_arg = r.chance(50);
    let one_tail = r.chance(60);
    let ret_of = |i: usize, r: &mut Rng| if r.chance(88) { i } else { r.below(ncall as u64) as usize };
    for (k, i) in order {
        match k {
            0 => {
                p.place(site + i);
                p.push_label(ret + ret_of(i, r));
                if same_arg {
                    p.push(U256::from(9));
                } else {
                    p.push(U256::from(i as u64 * 7));
                }
                p.push_label(if r.chance(50) { i % nsub } else { r.below(nsub as u64) as usize });
                p.op(op::JUMP);
            }
            1 => {
                p.place(ret + i);
                p.depth = 3;
                let t = if one_tail { 0 } else { i % 2 };
                let mut q = Rng(tails[t]);
                for _ in 0..q.below(3) {
                    p.snippet(&mut q, Mix::Pure);
                }
                match tail_kind[t] {
                    0 => p.op(op::STOP),
                    1 => p.op(op::INVALID),
                    2 => {
                        p.push_label(end + (r.chance(10) as usize));
                        p.op(op::JUMP);
                    }
                    3 => {
                        // returns to an address below
                        p.op(op::POP);
                        p.push_label(end);
                        p.op(op::JUMP);
                    }
                    _ => ret_top(&mut p),
                }
            }
            _ => {
                // [.. ret arg]
                p.place(i);
                p.depth = 2;
                let mut q = Rng(body);
                for _ in 0..body_len {
                    let d = p.depth;
                    p.snippet(&mut q, Mix::Pure);
                    while p.depth > d {
                        p.op(op::POP);
                    }
                }
                if style & 1 == 1 {
                    p.push(U256::from(32));
                    p.op(op::CALLDATALOAD);
                    p.push_label(split + if style & 2 == 2 { 0 } else { i });
                    p.op(op::JUMPI);
                }
                p.op(op::SWAP1);
                p.op(op::JUMP);
                if style & 1 == 1 && (style & 2 == 0 || i == 0) {
                    p.place(split + i);
                    p.op(op::SWAP1);
                    p.op(op::JUMP);
                }
            }
        }
    }
    for l in [end, end + 1] {
        p.place(l);
        p.push(U256::from(l as u64));
        p.push(U256::from(32));
        p.op(op::MSTORE);
        ret_top(&mut p);
    }
    let mut c = Case::new(p.finish(), spec);
    vary(r, &mut c);
    c.calldata = U256::from(r.below(ncall as u64 + 1)).to_be_bytes::<32>().to_vec();
    c.calldata.extend(U256::from(r.below(2)).to_be_bytes::<32>());
    c.is_static = false;
    c.db_error_at = None;
    c
}

/// Acyclic control flow with well-matched stacks, up to a few hundred words deep; words may be jump destinations.
fn flow(r: &mut Rng, deep: bool) -> Case {
    let spec = if r.chance(60) { latest() } else { some_spec(r) };
    let nb = 3 + r.below(6) as usize;
    let mut p = Prog::new(nb + 1);
    let mut cd: Vec<U256> = vec![];
    // Possible labels of each stack word, bottom first.
    type Shape = Vec<Vec<usize>>;
    let mut shape: Vec<Option<Shape>> = vec![None; nb + 1];
    shape[0] = Some(vec![]);
    let eip8024 = spec as u8 >= SpecId::AMSTERDAM as u8;
    let run = |r: &mut Rng| {
        if deep && r.chance(35) { r.pick(&[16u64, 30, 40, 60, 62, 63, 64, 65, 66, 70, 90, 128]) } else { r.below(5) }
    };
    let mut live: Option<Shape> = Some(vec![]);
    fn meet(shape: &mut Option<Shape>, st: &Shape) {
        match shape {
            None => *shape = Some(st.clone()),
            Some(s) => {
                for (a, b) in s.iter_mut().rev().zip(st.iter().rev()) {
                    for l in b {
                        if !a.contains(l) {
                            a.push(*l);
                        }
                    }
                }
            }
        }
    }
    for i in 0..nb {
        // Falls into block i from above when `live`.
        if let Some(st) = &mut live {
            if let Some(s) = &shape[i] {
                fit(&mut p, r, st, s.len(), i, nb);
            }
            meet(&mut shape[i], st);
        }
        if i > 0 {
            if shape[i].is_none() {
                shape[i] = Some(vec![vec![]; r.below(3) as usize]);
            }
            p.place(i);
        }
        let mut st = shape[i].clone().unwrap();
        for _ in 0..r.below(7) {
            let n = st.len();
            match r.below(13) {
                0..=2 => {
                    for _ in 0..run(r) {
                        grow(&mut p, r, &mut st, i, nb, &mut cd);
                    }
                }
                3..=5 => {
                    for _ in 0..run(r).min(st.len() as u64) {
                        p.op(op::POP);
                        st.pop();
                    }
                }
                6 if n > 0 => {
                    let k = r.below(n.min(16) as u64) as usize;
                    p.op(op::DUP1 + k as u8);
                    st.push(st[n - 1 - k].clone());
                }
                7 | 8 if n > 1 => {
                    let k = 1 + r.below((n - 1).min(16) as u64) as usize;
                    p.op(op::SWAP1 + k as u8 - 1);
                    st.swap(n - 1, n - 1 - k);
                }
                9 if n > 1 => {
                    p.op(r.pick(&[op::ADD, op::SUB, op::EQ, op::MSTORE8, op::AND]));
                    st.pop();
                    st.pop();
                    if *p.code.last().unwrap() != op::MSTORE8 {
                        st.push(vec![]);
                    }
                }
                10 if n > 18 && eip8024 => {
                    let k = 17 + r.below((n - 17).min(219) as u64) as usize;
                    if k < n {
                        let imm = (k as u8).wrapping_sub(145);
                        if r.chance(50) {
                            p.op(op::DUPN);
                            st.push(st[n - k].clone());
                        } else {
                            p.op(op::SWAPN);
                            st.swap(n - 1, n - 1 - k);
                        }
                        p.code.push(imm);
                    }
                }
                11 | 12 if n > 30 && eip8024 => {
                    let b = r.pick(&[0u8, 1, 7, 0x10, 0x22, 0x33, 0x4f, 0x51, 0x80, 0x8e, 0x8f, 0x9e, 0xc5, 0xff]);
                    // positions by EIP-8024
                    let k = (b ^ 143) as usize;
                    let (q, m) = (k / 16, k % 16);
                    let (x, y) = if q < m { (q + 1, m + 1) } else { (m + 1, 29 - q) };
                    p.op(op::EXCHANGE);
                    p.code.push(b);
                    st.swap(n - 1 - x, n - 1 - y);
                }
                _ => {}
            }
            if st.len() > 700 {
                break;
            }
        }
        // The end of block i.
        live = None;
        let usable = |v: &Vec<usize>| !v.is_empty() && v.iter().all(|&l| l > i);
        let at = (0..st.len().min(17)).find(|&k| usable(&st[st.len() - 1 - k]));
        match r.below(10) {
            0..=3 if at.is_some() => {
                let k = at.unwrap();
                if k > 0 {
                    p.op(op::SWAP1 + k as u8 - 1);
                    let n = st.len();
                    st.swap(n - 1, n - 1 - k);
                }
                let ls = st.pop().unwrap();
                if r.chance(25) {
                    // conditional return
                    p.push(U256::from(32 * cd.len() as u64));
                    p.op(op::CALLDATALOAD);
                    p.op(op::SWAP1);
                    cd.push(U256::from(r.below(2)));
                    p.op(op::JUMPI);
                    live = Some(st.clone());
                } else {
                    p.op(op::JUMP);
                }
                for l in ls {
                    meet(&mut shape[l], &st);
                }
            }
            4..=6 => {
                let t = i + 1 + r.below((nb - i) as u64) as usize;
                if r.chance(93) && let Some(s) = &shape[t] {
                    fit(&mut p, r, &mut st, s.len(), i, nb);
                }
                let c = r.below(10);
                if c < 6 {
                    p.push(U256::from(32 * cd.len() as u64));
                    p.op(op::CALLDATALOAD);
                    cd.push(U256::from(r.below(2)));
                } else if c < 8 {
                    p.push(U256::from(c - 6));
                }
                p.push_label(t);
                p.op(if c < 8 { op::JUMPI } else { op::JUMP });
                meet(&mut shape[t], &st);
                if c < 8 {
                    live = Some(st);
                }
            }
            7 if r.chance(20) => p.op(r.pick(&[op::STOP, op::INVALID])),
            _ => live = Some(st),
        }
    }
    p.place(nb);
    for k in 0..r.below(4) {
        p.push(U256::from(32 * k));
        p.op(op::MSTORE);
    }
    if r.chance(60) {
        p.push(U256::from(96));
        p.push(U256::ZERO);
        p.op(op::RETURN);
    }
    let mut c = Case::new(p.finish(), spec);
    vary(r, &mut c);
    c.calldata = cd.iter().flat_map(|w| w.to_be_bytes::<32>()).collect();
    c.is_static = false;
    c.db_error_at = None;
    c
}
fn grow(p: &mut Prog, r: &mut Rng, st: &mut Vec<Vec<usize>>, i: usize, nb: usize, cd: &mut Vec<U256>) {
    if r.chance(20) {
        let l = i + 1 + r.below((nb - i) as u64) as usize;
        p.push_label(l);
        st.push(vec![l]);
    } else if r.chance(10) {
        p.push(U256::from(32 * cd.len() as u64));
        p.op(op::CALLDATALOAD);
        cd.push(U256::from(r.below(4)));
        st.push(vec![]);
    } else {
        p.push(U256::from(r.below(200)));
        st.push(vec![]);
    }
}
fn fit(p: &mut Prog, r: &mut Rng, st: &mut Vec<Vec<usize>>, n: usize, i: usize, nb: usize) {
    while st.len() > n {
        p.op(op::POP);
        st.pop();
    }
    while st.len() < n {
        let mut none = vec![];
        grow_const(p, r, st, i, nb, &mut none);
    }
}
fn grow_const(p: &mut Prog, r: &mut Rng, st: &mut Vec<Vec<usize>>, i: usize, nb: usize, _cd: &mut Vec<U256>) {
    if r.chance(30) && i < nb {
        let l = i + 1 + r.below((nb - i) as u64) as usize;
        p.push_label(l);
        st.push(vec![l]);
    } else {
        p.push(U256::from(r.below(200)));
        st.push(vec![]);
    }
}

pub fn random(name: &str, r: &mut Rng) -> Case {
    let mut c = match name {
        "all" => {
            let k = r.below(17);
            match k {
                16 => random("txn", r),
                12 => random("fold", r),
                13 => random("shuffle8024", r),
                14 => random("purer", r),
                15 => random("purechain", r),
                0 => decode(r),
                1 => if r.chance(60) { dups(r) } else { subs(r) },
                2 => if r.chance(50) { jumps(r) } else { let deep = r.chance(50); flow(r, deep) },
                3 => memory(r),
                4 => shuffle(r),
                5 => { let calls = r.chance(50); host_ops(r, calls) }
                _ => {
                    let m = r.pick(&[Mix::All, Mix::Pure, Mix::Memory, Mix::Storage, Mix::Calls, Mix::Stack]);
                    random_case(r, m)
                }
            }
        }
        "purer" => {
            let o = r.pick(PURE);
            let ins = OPCODE_INFO[o as usize].unwrap().inputs() as usize;
            let mut args: Vec<U256> = (0..ins).map(|_| r.word()).collect();
            if r.chance(10) {
                args[ins - 1] = args[0];
            }
            let mut c = pure_case(o, &args, r.next() as u32, r.chance(30));
            if r.chance(25) {
                c.fold = Some(0);
            }
            c
        }
        "purechain" => {
            let mut c = random_case(r, Mix::Pure);
            if r.chance(25) {
                c.fold = Some(0);
            }
            c.db_error_at = None;
            c
        }
        "fold" => {
            // Constant expressions, also in parts.
            let mut p = Prog::new(0);
            for _ in 0..1 + r.below(5) {
                let o = r.pick(PURE);
                let ins = OPCODE_INFO[o as usize].unwrap().inputs();
                while p.depth < ins as i32 || r.chance(30) {
                    if r.chance(8) {
                        p.op(r.pick(&[op::PC, op::CODESIZE, op::CALLVALUE]));
                    } else if r.chance(8) && p.depth > 0 {
                        let n = 1 + r.below(p.depth.min(16) as u64) as u8;
                        p.op(op::DUP1 + n - 1)
                    } else {
                        let w = r.word();
                        p.push(w);
                    }
                }
                p.op(o);
            }
            let mut c = Case::new(vec![], some_spec(r));
            if r.chance(50) {
                ret_top(&mut p);
            }
            c.code = p.finish();
            c.inspect = r.chance(70);
            if r.chance(15) {
                c.fold = Some(r.below(200));
            }
            c
        }
        "decode" => decode(r),
        "dups" => if r.chance(60) { dups(r) } else { subs(r) },
        "flow" => flow(r, false),
        "deep" => flow(r, true),
        "subs" => subs(r),
        "jumps" => {
            if r.chance(40) {
                jumps(r)
            } else if r.chance(25) {
                subs(r)
            } else if r.chance(60) {
                let deep = r.chance(50);
                flow(r, deep)
            } else {
                let code = blocks(r, Mix::Stack, 8, 4);
                let mut c = Case::new(code, some_spec(r));
                vary(r, &mut c);
                c
            }
        }
        "memory" => memory(r),
        "shuffle" => shuffle(r),
        "shuffle8024" => {
            // Deep stacks and EIP-8024 shuffles with arbitrary immediates.
            let mut p = Prog::new(0);
            let d = r.pick(&[3u64, 17, 18, 19, 30, 40, 100, 236, 240]);
            for i in 0..d {
                if r.chance(6) {
                    p.push(U256::from(i % 3 * 32));
                    p.op(op::CALLDATALOAD);
                } else {
                    p.push(U256::from(i + 1));
                }
            }
            for _ in 0..1 + r.below(4) {
                p.op(r.pick(&[op::DUPN, op::SWAPN, op::EXCHANGE]));
                let imm = match r.below(4) {
                    0 => r.next() as u8,
                    1 => 0x80 + r.below(8) as u8,
                    2 => r.pick(&[0u8, 1, 0x51, 0x52, 0x5a, 0x5b, 0x60, 0x7f, 0x80, 0x8e, 0x8f, 0x9e, 0xfe, 0xff]),
                    _ => (r.below(d) as u8).wrapping_sub(145),
                };
                p.code.push(imm);
                if r.chance(20) {
                    p.op(op::POP);
                }
            }
            let mut c = Case::new(p.finish(), latest());
            vary(r, &mut c);
            c.is_static = false;
            c.inspect = r.chance(85);
            c
        }
        "config" => {
            let base = r.pick(&["all", "all", "dups", "shuffle", "jumps", "memory", "fold", "calls", "storage"]);
            let mut c = random(base, r);
            c.inspect = r.chance(50);
            c.debug = r.chance(50);
            c.single_error = r.chance(50);
            c.dedup = r.chance(50);
            c.dse = r.chance(50);
            c.fold = if r.chance(50) { None } else { Some(r.pick(&[0u64, 1, 10, 100, 1000])) };
            c
        }
        "txn" => {
            let mut c = random("txn1", r);
            for _ in 0..1 + r.below(4) {
                let x = random("txn1", r).code;
                if x.len() < 3000 {
                    c.extra.push(x);
                }
            }
            c.tx = if r.chance(12) { 2 } else { 1 };
            c.is_static = false;
            c.db_error_at = None;
            c.reservoir = 0;
            c.gas = r.pick(&[100_000u64, 300_000, 1_000_000, 3_000_000, 3_000_000]);
            c
        }
        "txn1" => {
            TXN.with(|t| t.set(true));
            let c = match r.below(10) {
                0..=4 => host_ops(r, true),
                5 => host_ops(r, false),
                6 => random_case(r, Mix::Calls),
                7 => memory(r),
                8 => random_case(r, Mix::Storage),
                _ => random_case(r, Mix::All),
            };
            TXN.with(|t| t.set(false));
            c
        }
        "storage" => if r.chance(50) { random_case(r, Mix::Storage) } else { host_ops(r, false) },
        "calls" => if r.chance(50) { random_case(r, Mix::Calls) } else { host_ops(r, true) },
        "stack" => random_case(r, Mix::Stack),
        _ => panic!("unknown family {name}"),
    };
    match name {
        "dups" => c.dedup = true,
        "shuffle" => c.dse = r.chance(85),
        _ => {}
    }
    c
}
