//! Program generators. All randomness comes from the given seed.

use crate::e2e::Case;
use revm_bytecode::opcode::{self as op, OPCODE_INFO};
use revm_primitives::{U256, hardfork::SpecId};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Clone>(&mut self, x: &[T]) -> T {
        x[self.below(x.len() as u64) as usize].clone()
    }
    pub fn word(&mut self) -> U256 {
        let r = U256::from_limbs([self.next(), self.next(), self.next(), self.next()]);
        let k = self.below(257) as usize;
        let sh = |k: usize| if k >= 256 { U256::ZERO } else { U256::from(1) << k };
        match self.below(14) {
            0 => U256::ZERO,
            1 => U256::from(1),
            2 => U256::from(self.below(34)),
            3 => U256::MAX,
            4 => U256::MAX - U256::from(self.below(34)),
            5 => sh(k),
            6 => sh(k).wrapping_sub(U256::from(1)),
            7 => sh(k).wrapping_add(U256::from(1)),
            8 => U256::ZERO.wrapping_sub(sh(k)),
            9 => r >> k.min(255),
            10 => U256::from(self.below(300)),
            11 => self.pick(&[31u64, 32, 33, 63, 64, 65, 255, 256, 257]).try_into().unwrap(),
            12 => sh(self.pick(&[8usize, 16, 31, 32, 63, 64, 128, 160, 255])),
            _ => r,
        }
    }
}

/// Every fork revm knows, oldest first.
pub fn specs() -> Vec<SpecId> {
    (0..=u8::MAX).map_while(SpecId::try_from_u8).collect()
}

pub fn push(code: &mut Vec<u8>, v: U256) {
    let b: [u8; 32] = v.to_be_bytes();
    let n = 32 - v.leading_zeros() / 8;
    if n == 0 {
        code.extend([op::PUSH1, 0]);
    } else {
        code.push(op::PUSH1 + n as u8 - 1);
        code.extend(&b[32 - n..]);
    }
}

pub struct Prog {
    pub code: Vec<u8>,
    pub depth: i32,
    fix: Vec<(usize, usize)>,
    labels: Vec<usize>,
}

const PURE2: &[u8] = &[
    op::ADD, op::MUL, op::SUB, op::DIV, op::SDIV, op::MOD, op::SMOD, op::EXP, op::SIGNEXTEND, op::LT, op::GT, op::SLT,
    op::SGT, op::EQ, op::AND, op::OR, op::XOR, op::BYTE, op::SHL, op::SHR, op::SAR,
];
const PURE1: &[u8] = &[op::ISZERO, op::NOT, op::CLZ];
const ENV0: &[u8] = &[
    op::ADDRESS, op::ORIGIN, op::CALLER, op::CALLVALUE, op::CALLDATASIZE, op::CODESIZE, op::GASPRICE, op::RETURNDATASIZE,
    op::COINBASE, op::TIMESTAMP, op::NUMBER, op::DIFFICULTY, op::GASLIMIT, op::CHAINID, op::SELFBALANCE, op::BASEFEE,
    op::BLOBBASEFEE, op::PC, op::MSIZE, op::GAS, op::PUSH0, 0x4b,
];

impl Prog {
    pub fn new(nlabels: usize) -> Self {
        Self { code: vec![], depth: 0, fix: vec![], labels: vec![0; nlabels] }
    }
    pub fn op(&mut self, o: u8) {
        self.code.push(o);
        let (i, out) = match o {
            op::DUPN | op::SWAPN | op::EXCHANGE => (0, (o == op::DUPN) as i32),
            _ => OPCODE_INFO[o as usize].map_or((0, 0), |x| (x.inputs() as i32, x.outputs() as i32)),
        };
        self.depth += out - i;
    }
    pub fn push(&mut self, v: U256) {
        push(&mut self.code, v);
        self.depth += 1;
    }
    pub fn push_label(&mut self, l: usize) {
        self.code.push(op::PUSH2);
        self.fix.push((self.code.len(), l));
        self.code.extend([0, 0]);
        self.depth += 1;
    }
    pub fn place(&mut self, l: usize) {
        self.labels[l] = self.code.len();
        self.op(op::JUMPDEST);
    }
    pub fn finish(mut self) -> Vec<u8> {
        for (at, l) in self.fix {
            let p = self.labels[l] as u16;
            self.code[at..at + 2].copy_from_slice(&p.to_be_bytes());
        }
        self.code
    }
    fn value(&mut self, r: &mut Rng) {
        match r.below(12) {
            0 if self.depth > 0 => {
                let n = 1 + r.below(self.depth.min(16) as u64) as u8;
                self.op(op::DUP1 + n - 1);
            }
            1 => {
                self.push(U256::from(r.below(70)));
                self.op(op::CALLDATALOAD);
            }
            2 => self.op(r.pick(ENV0)),
            3 if self.depth > 0 && r.chance(70) => {}
            _ => {
                let w = r.word();
                self.push(w)
            }
        }
    }
    /// Pushes an operand that is small with high probability (memory offsets, sizes, keys).
    fn small(&mut self, r: &mut Rng) {
        match r.below(16) {
            0 => self.value(r),
            1 => {
                // A dynamic small value.
                self.push(U256::from(r.below(70)));
                self.op(op::CALLDATALOAD);
                self.push(U256::from(0x7f));
                self.op(op::AND);
            }
            2 if self.depth > 0 => {
                let n = 1 + r.below(self.depth.min(16) as u64) as u8;
                self.op(op::DUP1 + n - 1);
            }
            3 => self.push(U256::from(r.below(3000))),
            _ => {
                let v = r.pick(&[0u64, 0, 0, 1, 2, 4, 5, 31, 32, 32, 33, 64, 64, 69, 96, 100, 128]);
                self.push(U256::from(v))
            }
        }
    }
    pub fn value_pub(&mut self, r: &mut Rng) {
        self.value(r);
    }
    /// A memory access, usually at a constant offset.
    pub fn mem_snippet(&mut self, r: &mut Rng) {
        let off = |s: &mut Self, r: &mut Rng| {
            if r.chance(12) {
                s.push(U256::from(r.below(70)));
                s.op(op::CALLDATALOAD);
                s.push(U256::from(0xff));
                s.op(op::AND);
            } else {
                let v = r.pick(&[0u64, 0, 1, 31, 32, 32, 33, 63, 64, 95, 96, 128, 160, 200, 255, 256, 1000]);
                let v = if r.chance(2) { r.pick(&[1 << 32, u64::MAX, u64::MAX - 31, 1 << 63]) } else { v };
                s.push(U256::from(v));
            }
        };
        let len = |s: &mut Self, r: &mut Rng| {
            if r.chance(15) {
                off(s, r)
            } else {
                let v = r.pick(&[0u64, 0, 1, 2, 31, 32, 33, 64, 65]);
                s.push(U256::from(v));
            }
        };
        match r.below(14) {
            0..=2 => {
                self.value(r);
                off(self, r);
                self.op(op::MSTORE);
            }
            3 => {
                self.value(r);
                off(self, r);
                self.op(op::MSTORE8);
            }
            4..=6 => {
                off(self, r);
                self.op(op::MLOAD);
            }
            7 => {
                len(self, r);
                off(self, r);
                self.op(op::KECCAK256);
            }
            8 => {
                len(self, r);
                off(self, r);
                off(self, r);
                self.op(r.pick(&[op::CALLDATACOPY, op::CODECOPY, op::MCOPY, op::MCOPY]));
            }
            9 => {
                self.push(U256::ZERO);
                self.push(U256::ZERO);
                off(self, r);
                self.op(op::RETURNDATACOPY);
            }
            10 => {
                let n = r.below(5) as u8;
                for _ in 0..n {
                    let v = r.below(300);
                    self.push(U256::from(v));
                }
                len(self, r);
                off(self, r);
                self.op(op::LOG0 + n);
            }
            11 => {
                len(self, r);
                self.push(U256::from(r.below(40)));
                off(self, r);
                self.push(U256::from(r.below(9)));
                self.op(op::EXTCODECOPY);
            }
            12 => {
                len(self, r);
                off(self, r);
                len(self, r);
                off(self, r);
                let o = r.pick(&[op::CALL, op::CALLCODE, op::DELEGATECALL, op::STATICCALL]);
                if matches!(o, op::CALL | op::CALLCODE) {
                    self.push(U256::ZERO);
                }
                self.push(U256::from(r.below(9)));
                self.op(op::GAS);
                self.op(o);
            }
            _ => self.op(op::MSIZE),
        }
    }
    pub fn snippet(&mut self, r: &mut Rng, mix: Mix) {
        let k = match mix {
            Mix::All => r.below(24),
            Mix::Pure => r.below(9),
            Mix::Memory => r.pick(&[0, 3, 4, 5, 9, 9, 10, 10, 10, 11, 12, 13, 14, 15]),
            Mix::Storage => r.pick(&[0, 3, 4, 5, 6, 16, 16, 16, 17, 10]),
            Mix::Calls => r.pick(&[0, 3, 4, 5, 9, 10, 19, 20, 20, 21, 12, 22]),
            Mix::Stack => r.pick(&[0, 1, 4, 4, 5, 5, 6, 7, 8, 8]),
        };
        match k {
            0 | 1 => {
                for _ in 0..2 {
                    self.value(r);
                }
                let o = r.pick(PURE2);
                if o == op::EXP && r.chance(50) {
                    self.push(U256::from(r.below(300)));
                }
                self.op(o);
            }
            2 => {
                self.value(r);
                self.op(r.pick(PURE1));
            }
            3 => self.value(r),
            4 if self.depth > 0 || r.chance(3) => {
                let n = 1 + r.below((self.depth + 1).clamp(1, 16) as u64) as u8;
                self.op(op::DUP1 + n.min(16) - 1);
            }
            5 if self.depth > 1 || r.chance(3) => {
                let n = 1 + r.below((self.depth - 1).clamp(1, 16) as u64) as u8;
                self.op(op::SWAP1 + n - 1);
            }
            6 if self.depth > 0 || r.chance(3) => self.op(op::POP),
            7 => {
                for _ in 0..3 {
                    self.value(r);
                }
                self.op(r.pick(&[op::ADDMOD, op::MULMOD]));
            }
            8 if self.depth > 17 => {
                let o = r.pick(&[op::DUPN, op::SWAPN, op::EXCHANGE]);
                self.op(o);
                let imm = if o == op::EXCHANGE {
                    r.pick(&[0x8eu8, 0x8f, 0x9d, 0x01, 0x12, 0x8d, 0x50, 0x51, 0x52])
                } else {
                    r.pick(&[0x80u8, 0x81, 0x5b, 0x00, 0x7f, 0xff])
                };
                self.code.push(imm);
            }
            8 => {
                for _ in 0..r.below(20) {
                    self.value(r);
                }
            }
            9 => {
                self.value(r);
                self.small(r);
                self.op(r.pick(&[op::MSTORE, op::MSTORE, op::MSTORE8]));
            }
            10 => {
                if r.chance(60) {
                    self.value(r);
                    self.small(r);
                    self.op(r.pick(&[op::MSTORE, op::MSTORE8]));
                }
                self.small(r);
                self.op(op::MLOAD);
            }
            11 => {
                self.small(r);
                self.small(r);
                self.op(op::KECCAK256);
            }
            12 => {
                for _ in 0..3 {
                    self.small(r);
                }
                self.op(r.pick(&[op::CALLDATACOPY, op::CODECOPY, op::RETURNDATACOPY, op::MCOPY]));
            }
            13 => {
                self.small(r);
                self.op(op::CALLDATALOAD);
            }
            14 => self.op(op::MSIZE),
            15 => {
                let n = r.below(5) as u8;
                for _ in 0..n {
                    self.value(r);
                }
                self.small(r);
                self.small(r);
                self.op(op::LOG0 + n);
            }
            16 => {
                if r.chance(60) {
                    self.value(r);
                    self.small(r);
                    self.op(r.pick(&[op::SSTORE, op::SSTORE, op::TSTORE]));
                } else {
                    self.small(r);
                    self.op(r.pick(&[op::SLOAD, op::SLOAD, op::TLOAD]));
                }
            }
            17 => {
                self.small(r);
                self.op(r.pick(&[
                    op::BALANCE, op::EXTCODESIZE, op::EXTCODEHASH, op::BLOCKHASH, op::BLOBHASH, op::CALLDATALOAD,
                ]));
            }
            18 => {
                for _ in 0..4 {
                    self.small(r);
                }
                self.op(op::EXTCODECOPY);
            }
            19 | 20 => {
                let o = r.pick(&[op::CALL, op::CALLCODE, op::DELEGATECALL, op::STATICCALL]);
                for _ in 0..4 {
                    self.small(r);
                }
                if matches!(o, op::CALL | op::CALLCODE) {
                    let v = if r.chance(70) { U256::ZERO } else { U256::from(r.below(3)) };
                    self.push(v);
                }
                self.small(r);
                match r.below(3) {
                    0 => self.op(op::GAS),
                    1 => self.push(U256::from(r.below(5000))),
                    _ => self.value(r),
                }
                // `value` may not push; top up.
                self.op(o);
            }
            21 => {
                let two = r.chance(50);
                if two {
                    self.value(r);
                }
                self.small(r);
                self.small(r);
                self.push(U256::from(r.below(2)));
                self.op(if two { op::CREATE2 } else { op::CREATE });
            }
            22 => self.op(r.pick(ENV0)),
            23 => {
                let o = r.next() as u8;
                if r.chance(20) {
                    self.op(o);
                }
            }
            _ => self.value(r),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mix {
    All,
    Pure,
    Memory,
    Storage,
    Calls,
    Stack,
}

/// A program of several labelled blocks with static, conditional, computed and returned-to jumps.
pub fn blocks(r: &mut Rng, mix: Mix, max_blocks: u64, max_len: u64) -> Vec<u8> {
    let n = 1 + r.below(max_blocks) as usize;
    let mut p = Prog::new(n + 8);
    let mut next_label = n;
    if r.chance(12) {
        let d = r.pick(&[1u64, 2, 3, 5, 16, 17, 1000, 1008, 1016, 1020, 1022, 1023, 1024]);
        for i in 0..d {
            p.push(U256::from(i % 7));
        }
        p.depth = p.depth.min(20);
        if r.chance(50) {
            p.op(op::JUMPDEST);
        }
    }
    for b in 0..n {
        if b > 0 {
            p.place(b);
            if r.chance(60) {
                p.depth = p.depth.max(0);
            }
        }
        for _ in 0..r.below(max_len) {
            p.snippet(r, mix);
        }
        let t = r.below(n as u64) as usize;
        let u = r.below(n as u64) as usize;
        let (t, u) = (if t == 0 { n - 1 } else { t }, if u == 0 { n - 1 } else { u });
        match r.below(17) {
            0 => p.op(op::STOP),
            1 => {
                p.small(r);
                p.small(r);
                p.op(r.pick(&[op::RETURN, op::RETURN, op::REVERT]));
            }
            2 | 3 => {
                p.push_label(t);
                p.op(op::JUMP);
            }
            4..=6 => {
                // Condition first, then the target.
                p.value(r);
                p.push_label(t);
                p.op(op::JUMPI);
            }
            7 => {
                // target = cond ? t : u, computed.
                p.push_label(t);
                p.push_label(u);
                p.push(U256::from(r.below(70)));
                p.op(op::CALLDATALOAD);
                p.push(U256::from(1));
                p.op(op::AND);
                p.push_label(next_label.min(n + 7));
                p.op(op::JUMPI);
                p.op(op::SWAP1);
                if next_label < n + 8 {
                    p.place(next_label);
                    next_label += 1;
                }
                p.op(op::POP);
                p.op(op::JUMP);
            }
            8 => {
                // Fully dynamic jump.
                p.push(U256::from(r.below(70)));
                p.op(op::CALLDATALOAD);
                if r.chance(50) {
                    p.push(U256::from(1 + r.below(64)));
                    p.op(op::SWAP1);
                    p.op(op::MOD);
                }
                p.op(op::JUMP);
            }
            9 | 10 => {
                // Call an internal function: push return label, jump; the callee returns with JUMP.
                let ret = next_label.min(n + 7);
                p.push_label(ret);
                if r.chance(50) {
                    p.value(r);
                }
                p.push_label(t);
                p.op(op::JUMP);
                if next_label < n + 8 {
                    p.place(next_label);
                    next_label += 1;
                }
            }
            11 if p.depth > 0 => {
                // Return to a label left on the stack.
                if r.chance(50) {
                    p.op(op::SWAP1);
                }
                p.op(op::JUMP);
            }
            12 => {
                p.value(r);
                p.op(r.pick(&[op::SELFDESTRUCT, op::INVALID, op::JUMP, op::STOP]));
            }
            13 => {
                // Loop with a counter kept on the stack.
                p.push(U256::from(1 + r.below(5)));
                let l = next_label.min(n + 7);
                if next_label < n + 8 {
                    p.place(next_label);
                    next_label += 1;
                }
                for _ in 0..r.below(3) {
                    let d = p.depth;
                    p.snippet(r, mix);
                    while p.depth > d {
                        p.op(op::POP);
                    }
                }
                p.push(U256::from(1));
                p.op(op::SWAP1);
                p.op(op::SUB);
                p.op(op::DUP1);
                p.push_label(l);
                p.op(op::JUMPI);
            }
            14 => {
                p.push_label(t);
                p.value(r);
                p.op(op::SWAP1);
                p.op(op::JUMPI);
            }
            _ => {}
        }
    }
    let mut c = p.finish();
    if r.chance(5) && !c.is_empty() {
        c.truncate(1 + r.below(c.len() as u64) as usize);
    }
    c
}

pub fn random_case(r: &mut Rng, mix: Mix) -> Case {
    let all = specs();
    let spec = if r.chance(50) { *all.last().unwrap() } else { r.pick(&all) };
    let code = match r.below(20) {
        0 => (0..r.below(60)).map(|_| r.next() as u8).collect(),
        1..=5 => blocks(r, mix, 1, 14),
        6..=9 => blocks(r, mix, 3, 7),
        _ => blocks(r, mix, 8, 4),
    };
    let mut c = Case::new(code, spec);
    vary(r, &mut c);
    c
}
pub fn vary(r: &mut Rng, c: &mut Case) {
    c.inspect = r.chance(55);
    c.debug = r.chance(70);
    c.single_error = r.chance(70);
    c.is_static = r.chance(8);
    c.seed = r.below(1000);
    c.dedup = r.chance(90);
    c.dse = r.chance(90);
    let n = r.pick(&[0usize, 3, 32, 64, 68, 100]);
    c.calldata = (0..n).map(|_| if r.chance(40) { 0 } else { r.next() as u8 }).collect();
    if r.chance(50) {
        for b in c.calldata.iter_mut() {
            if r.chance(85) {
                *b = 0;
            }
        }
    }
    if c.spec as u8 >= SpecId::AMSTERDAM as u8 && r.chance(50) {
        c.reservoir = r.below(300_000);
    }
    if r.chance(3) {
        c.db_error_at = Some(1 + r.below(3) as u32);
    }
}
