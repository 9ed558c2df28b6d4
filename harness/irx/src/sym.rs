//! Path-exploring symbolic execution of (a) the code emitted by the real translator and (b) the EVM specification,
//! over the same symbolic inputs, and the verification conditions that relate them.
//!
//! Builtins are seen through contracts: a builtin applied to the words it is handed performs the EVM operation it is
//! named after (`Ex::host_op`), the same specification function that the EVM side applies to its operands.

use crate::{e2e::Case, ir::*, ir, term::*};
use revm_context_interface::cfg::GasParams;
use revm_interpreter::{InputsImpl, instructions::gas_table_spec};
use revm_primitives::hardfork::SpecId;
use revmc_backend::{IntCC, U256};
use revmc_context::EvmContext;
use std::{collections::BTreeMap, mem::offset_of};

#[derive(Clone, Debug)]
pub struct Event {
    pub name: String,
    pub args: Vec<Id>,
}

#[derive(Clone, Debug)]
pub enum End {
    Halt,
    /// Normal completion: kind and the observed values.
    Done { kind: String, obs: Vec<Id> },
    /// Undefined behaviour at LLVM level, or a panic: the path must be infeasible.
    Ub(String),
    /// Outside the modelled fragment.
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Path {
    pub pc: Vec<Id>,
    pub end: End,
    pub events: Vec<Event>,
    /// Obligations raised along the path: (path condition, what, must-be-false condition).
    pub obl: Vec<(Vec<Id>, String, Id)>,
}

pub struct Ex {
    script: Vec<bool>,
    pos: usize,
    pending: Vec<Vec<bool>>,
    pc: Vec<Id>,
    /// Per gas variable, the total of the charges known to be covered.
    passed: BTreeMap<Id, Id>,
    spec: SpecId,
    gp: GasParams,
    pub gas: Id,
    pub mem: Id,
    pub mlen: Id,
    pub rdlen: Id,
    events: Vec<Event>,
    obl: Vec<(Vec<Id>, String, Id)>,
    work: u32,
}
type R<T> = Result<T, End>;

fn uns<T>(s: impl Into<String>) -> R<T> {
    Err(End::Unsupported(s.into()))
}
fn w256(v: u64) -> Id {
    cu(256, v)
}

/// Explores every path of `f`.
pub fn explore(spec: SpecId, mut f: impl FnMut(&mut Ex) -> End) -> Vec<Path> {
    let mut todo = vec![vec![]];
    let mut out = vec![];
    while let Some(script) = todo.pop() {
        let mut ex = Ex::new(spec, script);
        let end = f(&mut ex);
        todo.append(&mut ex.pending);
        let uns = matches!(end, End::Unsupported(_));
        let pc = ex.conds();
        out.push(Path { pc, end, events: ex.events, obl: ex.obl });
        if uns {
            break;
        }
        if out.len() + todo.len() > 160 {
            out.push(Path { pc: vec![], end: End::Unsupported("too many paths".into()), events: vec![], obl: vec![] });
            break;
        }
    }
    out
}

impl Ex {
    fn new(spec: SpecId, script: Vec<bool>) -> Self {
        let g0 = var(64, "g0");
        Self {
            script,
            pos: 0,
            pending: vec![],
            pc: vec![],
            passed: BTreeMap::new(),
            spec,
            gp: GasParams::new_spec(spec),
            gas: g0,
            mem: mzero(),
            mlen: cu(64, 0),
            rdlen: var(64, "rdlen"),
            events: vec![],
            obl: vec![],
            work: 0,
        }
    }
    /// The path condition.
    fn conds(&self) -> Vec<Id> {
        let mut v = vec![];
        for (b, t) in &self.passed {
            v.push(not(ult(*b, *t)));
        }
        for c in &self.pc {
            if !v.contains(c) {
                v.push(*c);
            }
        }
        v
    }
    fn tick(&mut self) -> R<()> {
        self.work += 1;
        if self.work > 6000 { uns("step budget") } else { Ok(()) }
    }
    /// A comparison `gas < cost`, where `gas` is what is left of a gas variable `b` after the charges made so far, says
    /// `b < charges + cost`: no sum of charges wraps (`COST`). Charges only grow, so the last such comparison that was
    /// passed implies all earlier ones.
    fn gas_form(&self, cond: Id) -> (Id, Option<(Id, Id)>) {
        let n = node(cond);
        if n.k != K::Ult || width(n.a[0]) != 64 {
            return (cond, None);
        }
        let (m, _) = lin(n.a[0]);
        let mut bases = m.iter().filter(|(x, _)| is_gas_var(**x));
        let (Some((b, k)), None) = (bases.next(), bases.next()) else { return (cond, None) };
        if *k != U256::from(1) {
            return (cond, None);
        }
        let (cm, ck) = lin(n.a[1]);
        let narrow = |x: &Id| {
            let t = node(*x);
            t.k == K::Zext && width(t.a[0]) <= COST
        };
        // The constant of a difference of charges may be a small negative number.
        if !cm.keys().all(narrow) || ck >= U256::from(1u64 << 40) && ck < U256::from(u64::MAX - 64) {
            return (cond, None);
        }
        let b = *b;
        let spent = sub(b, n.a[0]);
        let passed = self.passed.get(&b).copied().unwrap_or_else(|| cu(64, 0));
        let total = add(spent, n.a[1]);
        if let (Some(p), Some(s), Some(t)) = (cv(passed), cv(spent), cv(total)) {
            if s > p || t > U256::from(1u64 << 40) {
                return (cond, None);
            }
            return if t <= p { (ff(), None) } else { (ult(b, total), Some((b, total))) };
        }
        if total == passed {
            return (ff(), None);
        }
        if spent == passed { (ult(b, total), Some((b, total))) } else { (cond, None) }
    }
    pub fn branch(&mut self, cond: Id) -> R<bool> {
        let mut flip = false;
        let mut base = cond;
        // Normalise the polarity.
        let n = node(base);
        if n.k == K::Xor && n.w == 1 && cv(n.a[1]) == Some(U256::from(1)) {
            base = n.a[0];
            flip = true;
        }
        let (base, charge) = self.gas_form(base);
        if let Some(v) = cv(base) {
            return Ok(v.is_zero() == flip);
        }
        if self.pc.contains(&base) {
            return Ok(!flip);
        }
        if self.pc.contains(&not(base)) {
            return Ok(flip);
        }
        let take = if self.pos < self.script.len() {
            self.script[self.pos]
        } else {
            let mut alt = self.script.clone();
            alt.push(true);
            self.pending.push(alt);
            self.script.push(false);
            false
        };
        self.pos += 1;
        if self.pos > 70 {
            return uns("too many branches");
        }
        if let (false, Some((b, total))) = (take, charge) {
            self.passed.insert(b, total);
        } else {
            self.pc.push(if take { base } else { not(base) });
        }
        Ok(take != flip)
    }
    pub fn charge(&mut self, cost: Id) -> R<()> {
        if self.branch(ult(self.gas, cost))? {
            return Err(End::Halt);
        }
        self.gas = sub(self.gas, cost);
        Ok(())
    }
    fn must_not(&mut self, what: &str, bad: Id) {
        if cv(bad).is_some_and(|v| v.is_zero()) {
            return;
        }
        self.obl.push((self.conds(), what.to_string(), bad));
    }
    /// A word used as a memory offset or length.
    fn to_usize(&mut self, x: Id) -> R<Id> {
        if self.branch(ult(c(256, U256::from(u64::MAX)), x))? {
            return Err(End::Halt);
        }
        Ok(extract(0, 64, x))
    }
    fn memcost(&self, words: Id) -> Id {
        match cv(words) {
            Some(w) => {
                let w = w.to::<u64>();
                let v = self.gp.memory_cost(w as usize);
                MEMCOST_POINTS.with(|p| p.borrow_mut().insert(w, v));
                cu(64, v)
            }
            None => cost_uf("memcost", vec![words]),
        }
    }
    /// Expands memory to cover `[off, off + len)` (revm's `resize_memory`).
    fn expand(&mut self, off: Id, len: Id) -> R<()> {
        let s = add(off, len);
        let end = ite(ult(s, off), c(64, U256::from(u64::MAX)), s);
        let part = zext(64, not(eq(and(end, cu(64, 31)), cu(64, 0))));
        let words = add(shift(K::LShr, end, cu(64, 5)), part);
        let cur = shift(K::LShr, self.mlen, cu(64, 5));
        if self.branch(ult(cur, words))? {
            let cost = sub(self.memcost(words), self.memcost(cur));
            self.charge(cost)?;
            self.mlen = shift(K::Shl, words, cu(64, 5));
        }
        Ok(())
    }
    /// `len != 0` with both converted; `None` for an empty range.
    fn range(&mut self, off: Id, len: Id) -> R<Option<(Id, Id)>> {
        let len = self.to_usize(len)?;
        if self.branch(eq(len, cu(64, 0)))? {
            return Ok(None);
        }
        let off = self.to_usize(off)?;
        self.expand(off, len)?;
        Ok(Some((off, len)))
    }
    fn cost(&self, name: &'static str, x: Id, f: impl Fn(u64) -> u64) -> Id {
        match cv(x) {
            Some(v) => cu(64, f(v.to::<u64>())),
            None => cost_uf(name, vec![x]),
        }
    }
    fn event(&mut self, name: &str, mut args: Vec<Id>, mem: bool, gas: bool) -> String {
        if mem {
            args.push(self.mem);
        }
        if gas {
            args.push(self.gas);
        }
        let k = format!("ev{}_", self.events.len());
        self.events.push(Event { name: name.into(), args });
        k
    }
    fn host(&mut self, name: &str, args: Vec<Id>, gas: bool, cost: bool, fallible: bool) -> R<Id> {
        let k = self.event(name, args, false, gas);
        if fallible && self.branch(var(1, format!("{k}halt")))? {
            return Err(End::Halt);
        }
        if cost {
            self.charge(zext(64, var(COST, format!("{k}cost"))))?;
        }
        Ok(var(256, format!("{k}r")))
    }

    /// The EVM operations that reach the host or memory beyond a word. `a[0]` is the top of the stack.
    /// Returns the pushed word, if any.
    pub fn host_op(&mut self, name: &str, a: &[Id]) -> R<Option<Id>> {
        let sh = |p: SpecId, s: &Ex| s.spec.is_enabled_in(p);
        Ok(match name {
            "ORIGIN" | "GASPRICE" | "COINBASE" | "TIMESTAMP" | "NUMBER" | "DIFFICULTY" | "GASLIMIT" | "CHAINID"
            | "BASEFEE" | "BLOBBASEFEE" | "SLOTNUM" => Some(match name {
                "ORIGIN" | "COINBASE" => zext(256, var(160, format!("env_{name}"))),
                _ => var(256, format!("env_{name}")),
            }),
            "CALLDATALOAD" => Some(match cv(a[0]) {
                Some(o) if o < U256::from(1u64 << 32) => var(256, format!("cd_{o}")),
                _ => uf("calldata", 256, vec![a[0]]),
            }),
            "BLOBHASH" => Some(uf("blobhash", 256, vec![a[0]])),
            "SELFBALANCE" => Some(self.host(name, vec![], false, false, true)?),
            "BALANCE" | "EXTCODESIZE" | "EXTCODEHASH" | "SLOAD" => {
                let arg = if name == "SLOAD" { a[0] } else { extract(0, 160, a[0]) };
                Some(self.host(name, vec![arg], false, true, true)?)
            }
            "BLOCKHASH" => Some(self.host(name, vec![a[0]], false, false, true)?),
            "TLOAD" => Some(self.host(name, vec![a[0]], false, false, false)?),
            "TSTORE" => {
                self.host(name, vec![a[0], a[1]], false, false, true)?;
                None
            }
            "SSTORE" => {
                // The remaining gas matters since EIP-2200.
                let gas = sh(SpecId::ISTANBUL, self);
                self.host(name, vec![a[0], a[1]], gas, true, true)?;
                None
            }
            "EXPGAS" => {
                let k = match cv(a[0]) {
                    Some(e) => cu(64, self.gp.exp_cost(e)),
                    None => cost_uf("exp_cost", vec![a[0]]),
                };
                self.charge(k)?;
                None
            }
            "KECCAK256" => {
                let len = self.to_usize(a[1])?;
                if self.branch(eq(len, cu(64, 0)))? {
                    return Ok(Some(c(256, U256::from_be_bytes(revm_primitives::KECCAK_EMPTY.0))));
                }
                let gp = self.gp.clone();
                let k = self.cost("keccak_cost", len, |l| gp.keccak256_cost(l as usize));
                self.charge(k)?;
                let off = self.to_usize(a[0])?;
                self.expand(off, len)?;
                Some(uf("keccak", 256, vec![self.mem, off, len]))
            }
            "CALLDATACOPY" | "CODECOPY" | "MCOPY" => {
                let len = self.to_usize(a[2])?;
                if self.branch(eq(len, cu(64, 0)))? {
                    return Ok(None);
                }
                let gp = self.gp.clone();
                let k = self.cost("copy_cost", len, |l| gp.copy_cost(l as usize));
                self.charge(k)?;
                let dst = self.to_usize(a[0])?;
                if name == "MCOPY" {
                    let src = self.to_usize(a[1])?;
                    let hi = ite(ult(dst, src), src, dst);
                    self.expand(hi, len)?;
                    self.mem = uf("mcopy", MEM, vec![self.mem, dst, src, len]);
                } else {
                    self.expand(dst, len)?;
                    let f = if name == "CODECOPY" { "codecopy" } else { "calldatacopy" };
                    self.mem = uf(f, MEM, vec![self.mem, dst, a[1], len]);
                }
                None
            }
            "RETURNDATACOPY" => {
                let len = self.to_usize(a[2])?;
                let big = ult(c(256, U256::from(u64::MAX)), a[1]);
                let off = ite(big, c(64, U256::from(u64::MAX)), extract(0, 64, a[1]));
                let s = add(off, len);
                let end = ite(ult(s, off), c(64, U256::from(u64::MAX)), s);
                if self.branch(ult(self.rdlen, end))? {
                    return Err(End::Halt);
                }
                let gp = self.gp.clone();
                let k = self.cost("copy_cost", len, |l| gp.copy_cost(l as usize));
                self.charge(k)?;
                if self.branch(eq(len, cu(64, 0)))? {
                    return Ok(None);
                }
                let dst = self.to_usize(a[0])?;
                self.expand(dst, len)?;
                self.mem = uf("returndatacopy", MEM, vec![self.mem, dst, off, len, cu(64, self.events.len() as u64)]);
                None
            }
            "EXTCODECOPY" => {
                let len = self.to_usize(a[3])?;
                let gp = self.gp.clone();
                let k = self.cost("extcodecopy_cost", len, |l| gp.extcodecopy(l as usize));
                self.charge(k)?;
                let empty = self.branch(eq(len, cu(64, 0)))?;
                let mut dst = cu(64, 0);
                if !empty {
                    dst = self.to_usize(a[1])?;
                    self.expand(dst, len)?;
                }
                let r = self.host(name, vec![extract(0, 160, a[0])], false, true, true)?;
                if !empty {
                    self.mem = uf("extcodecopy", MEM, vec![self.mem, dst, a[2], len, r]);
                }
                None
            }
            "LOG0" | "LOG1" | "LOG2" | "LOG3" | "LOG4" => {
                let n = name.as_bytes()[3] - b'0';
                let len = self.to_usize(a[1])?;
                let gp = self.gp.clone();
                let k = match cv(len) {
                    Some(l) => cu(64, gp.log_cost(n, l.to::<u64>())),
                    None => cost_uf("log_cost", vec![cu(8, n as u64), len]),
                };
                self.charge(k)?;
                let mut args = vec![len];
                if !self.branch(eq(len, cu(64, 0)))? {
                    let off = self.to_usize(a[0])?;
                    self.expand(off, len)?;
                    args.push(off);
                    args.push(self.mem);
                }
                args.extend_from_slice(&a[2..]);
                let k = self.event(name, args, false, false);
                if self.branch(var(1, format!("{k}halt")))? {
                    return Err(End::Halt);
                }
                None
            }
            "CREATE" | "CREATE2" => {
                let mut args = a.to_vec();
                // Size limit and per-word cost are functions of the length.
                let len = self.to_usize(a[2])?;
                if !self.branch(eq(len, cu(64, 0)))? {
                    if sh(SpecId::SHANGHAI, self) {
                        self.charge(cost_uf("initcode_cost", vec![len]))?;
                    }
                    let off = self.to_usize(a[1])?;
                    self.expand(off, len)?;
                } else {
                    args[1] = w256(0);
                }
                self.frame(name, args)?;
                None
            }
            "CALL" | "CALLCODE" | "DELEGATECALL" | "STATICCALL" => {
                let k = if name.len() > 8 { 2 } else { 3 };
                let mut args = a.to_vec();
                args[1] = zext(256, extract(0, 160, a[1]));
                if self.range(a[k], a[k + 1])?.is_none() {
                    args[k] = w256(0);
                }
                if self.range(a[k + 2], a[k + 3])?.is_none() {
                    args[k + 2] = w256(0);
                }
                self.frame(name, args)?;
                None
            }
            _ => return uns(format!("operation {name}")),
        })
    }
    /// The part of CALL/CREATE before the frame runs.
    fn frame(&mut self, name: &str, mut args: Vec<Id>) -> R<()> {
        args.push(self.mlen);
        let k = self.event(name, args, true, true);
        if self.branch(var(1, format!("{k}halt")))? {
            return Err(End::Halt);
        }
        self.gas = var(64, format!("{k}midgas"));
        Ok(())
    }
    /// The suspension: everything the caller sees, then the frame's effects. Returns the pushed word.
    fn suspend(&mut self, stack: Vec<Id>) -> R<Id> {
        let i = self.events.len() - 1;
        let mut args = stack;
        args.push(self.gas);
        args.push(self.mem);
        args.push(self.mlen);
        self.events.push(Event { name: "suspend".into(), args });
        self.gas = var(64, format!("ev{i}_gas"));
        self.mem = var(MEM, format!("ev{i}_mem"));
        self.rdlen = var(64, format!("ev{i}_rdlen"));
        Ok(var(256, format!("ev{i}_r")))
    }
    /// RETURN / REVERT.
    fn ret(&mut self, kind: &str, off: Id, len: Id) -> End {
        match self.range(off, len) {
            Err(e) => e,
            Ok(r) => {
                let (off, len) = r.unwrap_or((cu(64, 0), cu(64, 0)));
                End::Done { kind: kind.into(), obs: vec![off, len, self.gas, self.mem, self.mlen] }
            }
        }
    }
    fn selfdestruct(&mut self, target: Id) -> End {
        match self.host("SELFDESTRUCT", vec![extract(0, 160, target)], false, true, true) {
            Err(e) => e,
            Ok(_) => End::Done { kind: "selfdestruct".into(), obs: vec![self.gas, self.mem, self.mlen] },
        }
    }
}

// -- Pure operations ------------------------------------------------------------------------------------------------

/// The specification of every opcode that maps words to a word (`a[0]` is the top of the stack).
pub fn pure(name: &str, a: &[Id]) -> Option<Id> {
    let z = w256(0);
    let one = w256(1);
    let b2w = |b: Id| zext(256, b);
    let is0 = |x: Id| eq(x, z);
    let negative = |x: Id| slt(x, z);
    let abs = |x: Id| ite(negative(x), neg(x), x);
    Some(match name {
        "ADD" => add(a[0], a[1]),
        "MUL" => mul(a[0], a[1]),
        "SUB" => sub(a[0], a[1]),
        "DIV" => ite(is0(a[1]), z, udiv(a[0], a[1])),
        "MOD" => ite(is0(a[1]), z, urem(a[0], a[1])),
        "SDIV" => {
            let q = udiv(abs(a[0]), abs(a[1]));
            ite(is0(a[1]), z, ite(xor(negative(a[0]), negative(a[1])), neg(q), q))
        }
        "SMOD" => {
            let q = urem(abs(a[0]), abs(a[1]));
            ite(is0(a[1]), z, ite(negative(a[0]), neg(q), q))
        }
        "ADDMOD" | "MULMOD" => {
            let n = cv(a[2]);
            if n.is_some_and(|n| n <= U256::from(1)) {
                return Some(z);
            }
            if let (Some(x), Some(y), Some(n)) = (cv(a[0]), cv(a[1]), n) {
                return Some(c(256, if name == "ADDMOD" { x.add_mod(y, n) } else { x.mul_mod(y, n) }));
            }
            let zero = |x: Id| cv(x).is_some_and(|v| v.is_zero());
            let (x, y) = if a[0] <= a[1] { (a[0], a[1]) } else { (a[1], a[0]) };
            if name == "ADDMOD" {
                if zero(x) && zero(y) {
                    return Some(z);
                }
                ite(is0(a[2]), z, uf("addmod", 256, vec![x, y, a[2]]))
            } else {
                if zero(x) || zero(y) {
                    return Some(z);
                }
                ite(is0(a[2]), z, uf("mulmod", 256, vec![x, y, a[2]]))
            }
        }
        "EXP" => match (cv(a[0]), cv(a[1])) {
            (Some(b), Some(e)) => c(256, b.pow(e)),
            (_, Some(e)) if e.is_zero() => one,
            (_, Some(e)) if e == U256::from(1) => a[0],
            (_, Some(e)) if e == U256::from(2) => mul(a[0], a[0]),
            (Some(b), None) if b.is_zero() => ite(is0(a[1]), one, z),
            (Some(b), None) if b == U256::from(1) => one,
            (Some(b), None) if b == U256::MAX => ite(eq(extract(0, 1, a[1]), ff()), one, c(256, U256::MAX)),
            // (2^k)^e = 2^(k*e), zero once k*e reaches 256.
            (Some(b), None) if b.is_power_of_two() => {
                let k = b.trailing_zeros() as u64;
                ite(ult(a[1], w256(256u64.div_ceil(k))), shift(K::Shl, one, mul(a[1], w256(k))), z)
            }
            _ => ite(is0(a[1]), one, uf("exp", 256, vec![a[0], a[1]])),
        },
        "SIGNEXTEND" => {
            let s = shift(K::Shl, sub(w256(31), a[0]), w256(3));
            ite(ult(a[0], w256(31)), shift(K::AShr, shift(K::Shl, a[1], s), s), a[1])
        }
        "LT" => b2w(ult(a[0], a[1])),
        "GT" => b2w(ult(a[1], a[0])),
        "SLT" => b2w(slt(a[0], a[1])),
        "SGT" => b2w(slt(a[1], a[0])),
        "EQ" => b2w(eq(a[0], a[1])),
        "ISZERO" => b2w(is0(a[0])),
        "AND" => and(a[0], a[1]),
        "OR" => or(a[0], a[1]),
        "XOR" => xor(a[0], a[1]),
        "NOT" => not(a[0]),
        "BYTE" => {
            let s = shift(K::Shl, sub(w256(31), a[0]), w256(3));
            ite(ult(a[0], w256(32)), and(shift(K::LShr, a[1], s), w256(0xff)), z)
        }
        "SHL" => shift(K::Shl, a[1], a[0]),
        "SHR" => shift(K::LShr, a[1], a[0]),
        "SAR" => shift(K::AShr, a[1], a[0]),
        "CLZ" => clz(a[0]),
        _ => return None,
    })
}

// -- The EVM specification --------------------------------------------------------------------------------------------

/// (name, pops, pushes, first fork)
fn op_info(op: u8) -> Option<(String, usize, usize, SpecId)> {
    use SpecId::*;
    let t = |n: &str, i, o, s| Some((n.to_string(), i, o, s));
    match op {
        0x00 => t("STOP", 0, 0, FRONTIER),
        0x01 => t("ADD", 2, 1, FRONTIER),
        0x02 => t("MUL", 2, 1, FRONTIER),
        0x03 => t("SUB", 2, 1, FRONTIER),
        0x04 => t("DIV", 2, 1, FRONTIER),
        0x05 => t("SDIV", 2, 1, FRONTIER),
        0x06 => t("MOD", 2, 1, FRONTIER),
        0x07 => t("SMOD", 2, 1, FRONTIER),
        0x08 => t("ADDMOD", 3, 1, FRONTIER),
        0x09 => t("MULMOD", 3, 1, FRONTIER),
        0x0a => t("EXP", 2, 1, FRONTIER),
        0x0b => t("SIGNEXTEND", 2, 1, FRONTIER),
        0x10 => t("LT", 2, 1, FRONTIER),
        0x11 => t("GT", 2, 1, FRONTIER),
        0x12 => t("SLT", 2, 1, FRONTIER),
        0x13 => t("SGT", 2, 1, FRONTIER),
        0x14 => t("EQ", 2, 1, FRONTIER),
        0x15 => t("ISZERO", 1, 1, FRONTIER),
        0x16 => t("AND", 2, 1, FRONTIER),
        0x17 => t("OR", 2, 1, FRONTIER),
        0x18 => t("XOR", 2, 1, FRONTIER),
        0x19 => t("NOT", 1, 1, FRONTIER),
        0x1a => t("BYTE", 2, 1, FRONTIER),
        0x1b => t("SHL", 2, 1, PETERSBURG),
        0x1c => t("SHR", 2, 1, PETERSBURG),
        0x1d => t("SAR", 2, 1, PETERSBURG),
        0x1e => t("CLZ", 1, 1, OSAKA),
        0x20 => t("KECCAK256", 2, 1, FRONTIER),
        0x30 => t("ADDRESS", 0, 1, FRONTIER),
        0x31 => t("BALANCE", 1, 1, FRONTIER),
        0x32 => t("ORIGIN", 0, 1, FRONTIER),
        0x33 => t("CALLER", 0, 1, FRONTIER),
        0x34 => t("CALLVALUE", 0, 1, FRONTIER),
        0x35 => t("CALLDATALOAD", 1, 1, FRONTIER),
        0x36 => t("CALLDATASIZE", 0, 1, FRONTIER),
        0x37 => t("CALLDATACOPY", 3, 0, FRONTIER),
        0x38 => t("CODESIZE", 0, 1, FRONTIER),
        0x39 => t("CODECOPY", 3, 0, FRONTIER),
        0x3a => t("GASPRICE", 0, 1, FRONTIER),
        0x3b => t("EXTCODESIZE", 1, 1, FRONTIER),
        0x3c => t("EXTCODECOPY", 4, 0, FRONTIER),
        0x3d => t("RETURNDATASIZE", 0, 1, BYZANTIUM),
        0x3e => t("RETURNDATACOPY", 3, 0, BYZANTIUM),
        0x3f => t("EXTCODEHASH", 1, 1, PETERSBURG),
        0x40 => t("BLOCKHASH", 1, 1, FRONTIER),
        0x41 => t("COINBASE", 0, 1, FRONTIER),
        0x42 => t("TIMESTAMP", 0, 1, FRONTIER),
        0x43 => t("NUMBER", 0, 1, FRONTIER),
        0x44 => t("DIFFICULTY", 0, 1, FRONTIER),
        0x45 => t("GASLIMIT", 0, 1, FRONTIER),
        0x46 => t("CHAINID", 0, 1, ISTANBUL),
        0x47 => t("SELFBALANCE", 0, 1, ISTANBUL),
        0x48 => t("BASEFEE", 0, 1, LONDON),
        0x49 => t("BLOBHASH", 1, 1, CANCUN),
        0x4a => t("BLOBBASEFEE", 0, 1, CANCUN),
        0x4b => t("SLOTNUM", 0, 1, AMSTERDAM),
        0x50 => t("POP", 1, 0, FRONTIER),
        0x51 => t("MLOAD", 1, 1, FRONTIER),
        0x52 => t("MSTORE", 2, 0, FRONTIER),
        0x53 => t("MSTORE8", 2, 0, FRONTIER),
        0x54 => t("SLOAD", 1, 1, FRONTIER),
        0x55 => t("SSTORE", 2, 0, FRONTIER),
        0x56 => t("JUMP", 1, 0, FRONTIER),
        0x57 => t("JUMPI", 2, 0, FRONTIER),
        0x58 => t("PC", 0, 1, FRONTIER),
        0x59 => t("MSIZE", 0, 1, FRONTIER),
        0x5a => t("GAS", 0, 1, FRONTIER),
        0x5b => t("JUMPDEST", 0, 0, FRONTIER),
        0x5c => t("TLOAD", 1, 1, CANCUN),
        0x5d => t("TSTORE", 2, 0, CANCUN),
        0x5e => t("MCOPY", 3, 0, CANCUN),
        0x5f => t("PUSH0", 0, 1, SHANGHAI),
        0x60..=0x7f => t("PUSH", 0, 1, FRONTIER),
        0x80..=0x8f => t("DUP", (op - 0x7f) as usize, (op - 0x7e) as usize, FRONTIER),
        0x90..=0x9f => t("SWAP", (op - 0x8e) as usize, (op - 0x8e) as usize, FRONTIER),
        0xa0..=0xa4 => t(&format!("LOG{}", op - 0xa0), (op - 0xa0) as usize + 2, 0, FRONTIER),
        0xe6 => t("DUPN", 0, 0, AMSTERDAM),
        0xe7 => t("SWAPN", 0, 0, AMSTERDAM),
        0xe8 => t("EXCHANGE", 0, 0, AMSTERDAM),
        0xf0 => t("CREATE", 3, 1, FRONTIER),
        0xf1 => t("CALL", 7, 1, FRONTIER),
        0xf2 => t("CALLCODE", 7, 1, FRONTIER),
        0xf3 => t("RETURN", 2, 0, FRONTIER),
        0xf4 => t("DELEGATECALL", 6, 1, HOMESTEAD),
        0xf5 => t("CREATE2", 4, 1, PETERSBURG),
        0xfa => t("STATICCALL", 6, 1, BYZANTIUM),
        0xfd => t("REVERT", 2, 0, BYZANTIUM),
        0xff => t("SELFDESTRUCT", 1, 0, FRONTIER),
        _ => None,
    }
}

/// Valid jump destinations (yellow paper: JUMPDEST bytes outside PUSH data).
fn dests(code: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < code.len() {
        match code[i] {
            0x5b => v.push(i),
            0x60..=0x7f => i += (code[i] - 0x5f) as usize,
            _ => {}
        }
        i += 1;
    }
    v
}

pub fn run_spec(ex: &mut Ex, case: &Case) -> End {
    match spec_inner(ex, case) {
        Ok(e) => e,
        Err(e) => e,
    }
}

fn input_word(field: usize, bits: u32) -> Id {
    let v = var(bits, format!("in_{field}_{bits}"));
    if bits == 160 { zext(256, bswap(v)) } else { v }
}

fn spec_inner(ex: &mut Ex, case: &Case) -> R<End> {
    let code = &case.code;
    let gt = gas_table_spec(case.spec);
    let jd = dests(code);
    let mut st: Vec<Id> = vec![];
    let mut pc = 0usize;
    loop {
        ex.tick()?;
        let op = code.get(pc).copied().unwrap_or(0);
        let Some((name, pops, pushes, fork)) = op_info(op) else { return Ok(End::Halt) };
        if !case.spec.is_enabled_in(fork) {
            return Ok(End::Halt);
        }
        ex.charge(cu(64, gt[op as usize] as u64))?;
        if st.len() < pops || st.len() + pushes - pops > 1024 {
            return Ok(End::Halt);
        }
        let mut next = pc + 1;
        let n = name.as_str();
        match n {
            "STOP" => {
                let mut obs = vec![ex.gas, ex.mem, ex.mlen];
                if case.inspect {
                    obs.extend_from_slice(&st);
                }
                return Ok(End::Done { kind: format!("stop{}", obs.len()), obs });
            }
            "JUMPDEST" => {}
            "POP" => {
                st.pop();
            }
            "PUSH0" => st.push(w256(0)),
            "PUSH" => {
                let k = (op - 0x5f) as usize;
                let mut by = [0u8; 32];
                for i in 0..k {
                    by[32 - k + i] = code.get(pc + 1 + i).copied().unwrap_or(0);
                }
                st.push(c(256, U256::from_be_bytes(by)));
                next += k;
            }
            "DUP" => st.push(st[st.len() - pops]),
            "SWAP" => {
                let l = st.len();
                st.swap(l - 1, l - pops);
            }
            "DUPN" | "SWAPN" | "EXCHANGE" => {
                let imm = code.get(pc + 1).copied().unwrap_or(0);
                next += 1;
                let l = st.len();
                if n == "EXCHANGE" {
                    // EIP-8024 decode_pair.
                    if (82..=127).contains(&imm) {
                        return Ok(End::Halt);
                    }
                    let k = imm ^ 143;
                    let (q, r) = ((k / 16) as usize, (k % 16) as usize);
                    let (a, b) = if q < r { (q + 1, r + 1) } else { (r + 1, 29 - q) };
                    if l < b + 1 {
                        return Ok(End::Halt);
                    }
                    st.swap(l - 1 - a, l - 1 - b);
                } else {
                    if (91..=127).contains(&imm) {
                        return Ok(End::Halt);
                    }
                    let k = (imm.wrapping_add(145)) as usize;
                    if n == "DUPN" {
                        if l < k || l >= 1024 {
                            return Ok(End::Halt);
                        }
                        st.push(st[l - k]);
                    } else {
                        if l < k + 1 {
                            return Ok(End::Halt);
                        }
                        st.swap(l - 1, l - 1 - k);
                    }
                }
            }
            "PC" => st.push(w256(pc as u64)),
            "GAS" => st.push(zext(256, ex.gas)),
            "MSIZE" => st.push(zext(256, ex.mlen)),
            "CODESIZE" => st.push(w256(code.len() as u64)),
            "CALLDATASIZE" => st.push(zext(256, var(64, "cdsize"))),
            "RETURNDATASIZE" => st.push(zext(256, ex.rdlen)),
            "ADDRESS" => st.push(input_word(offset_of!(InputsImpl, target_address), 160)),
            "CALLER" => st.push(input_word(offset_of!(InputsImpl, caller_address), 160)),
            "CALLVALUE" => st.push(input_word(offset_of!(InputsImpl, call_value), 256)),
            "MLOAD" => {
                let o = st.pop().unwrap();
                let o = ex.to_usize(o)?;
                ex.expand(o, cu(64, 32))?;
                st.push(bswap(mload(ex.mem, o, 256)));
            }
            "MSTORE" | "MSTORE8" => {
                let o = st.pop().unwrap();
                let v = st.pop().unwrap();
                let o = ex.to_usize(o)?;
                if n == "MSTORE" {
                    ex.expand(o, cu(64, 32))?;
                    ex.mem = mstore(ex.mem, o, bswap(v));
                } else {
                    ex.expand(o, cu(64, 1))?;
                    ex.mem = mstore(ex.mem, o, extract(0, 8, v));
                }
            }
            "JUMP" | "JUMPI" => {
                let d = st.pop().unwrap();
                let go = if n == "JUMPI" {
                    let k = st.pop().unwrap();
                    !ex.branch(eq(k, w256(0)))?
                } else {
                    true
                };
                if go {
                    next = match cv(d) {
                        Some(v) => {
                            let t = if v < U256::from(code.len()) { v.to::<u64>() as usize } else { usize::MAX };
                            if !jd.contains(&t) {
                                return Ok(End::Halt);
                            }
                            t
                        }
                        None => {
                            let mut to = None;
                            for t in &jd {
                                if ex.branch(eq(d, w256(*t as u64)))? {
                                    to = Some(*t);
                                    break;
                                }
                            }
                            match to {
                                Some(t) => t,
                                None => return Ok(End::Halt),
                            }
                        }
                    };
                }
            }
            "RETURN" | "REVERT" => {
                let (o, l) = (st[st.len() - 1], st[st.len() - 2]);
                return Ok(ex.ret(if n == "RETURN" { "return" } else { "revert" }, o, l));
            }
            "SELFDESTRUCT" => return Ok(ex.selfdestruct(st[st.len() - 1])),
            _ => {
                let args: Vec<Id> = (0..pops).map(|i| st[st.len() - 1 - i]).collect();
                st.truncate(st.len() - pops);
                if n == "EXP" {
                    ex.host_op("EXPGAS", &[args[1]])?;
                }
                if let Some(r) = pure(n, &args) {
                    st.push(r);
                } else {
                    let r = ex.host_op(n, &args)?;
                    if matches!(n, "CREATE" | "CREATE2" | "CALL" | "CALLCODE" | "DELEGATECALL" | "STATICCALL") {
                        let r = ex.suspend(st.clone())?;
                        st.push(r);
                    } else if let Some(r) = r {
                        st.push(r);
                    }
                }
            }
        }
        pc = next;
    }
}

// -- The emitted code ---------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Obj {
    Ecx,
    Stack,
    StackLen,
    Slot(usize, usize),
    Mem,
    Input,
    Text,
    Null,
}
#[derive(Clone, Copy, Debug)]
enum Sv {
    I { v: Id, p: Id },
    P { o: Obj, off: Id },
    Undef,
}

struct Machine<'a> {
    m: &'a Module,
    ex: &'a mut Ex,
    ecx: BTreeMap<u64, (u32, Sv)>,
    stack: BTreeMap<u64, Sv>,
    stack_len: Sv,
    slots: BTreeMap<(usize, usize, u64), (u32, Sv)>,
    frames: usize,
    pending: bool,
    gas_off: u64,
}

/// Offset of the remaining gas inside the context, found by observation.
fn gas_offset() -> u64 {
    use revm_interpreter::Gas;
    let size = size_of::<Gas>();
    let bytes = |g: &Gas| unsafe { std::slice::from_raw_parts(g as *const Gas as *const u8, size).to_vec() };
    let a = Gas::new(0x1122_3344_5566);
    let mut b = Gas::new(0x1122_3344_5566);
    let _ = b.record_regular_cost(0x1111);
    let (x, y) = (bytes(&a), bytes(&b));
    let i = (0..size / 8).find(|i| x[8 * i..8 * i + 8] != y[8 * i..8 * i + 8]).expect("gas");
    (offset_of!(EvmContext<'static>, gas) + 8 * i) as u64
}

pub fn run_ir(ex: &mut Ex, m: &Module, f: usize, case: &Case) -> End {
    let mut mc = Machine {
        m,
        ex,
        ecx: BTreeMap::new(),
        stack: BTreeMap::new(),
        stack_len: Sv::I { v: cu(64, 0), p: ff() },
        slots: BTreeMap::new(),
        frames: 0,
        pending: false,
        gas_off: gas_offset(),
    };
    match mc.program(f, case) {
        Ok(e) => e,
        Err(e) => e,
    }
}

impl Machine<'_> {
    fn program(&mut self, f: usize, case: &Case) -> R<End> {
        // First entry: no resume point.
        self.ecx.insert(offset_of!(EvmContext<'static>, resume_at) as u64, (64, int(cu(64, 0))));
        loop {
            let z = cu(64, 0);
            let args = [Sv::P { o: Obj::Ecx, off: z }, Sv::P { o: Obj::Stack, off: z }, Sv::P { o: Obj::StackLen, off: z }];
            let r = self.call(f, &args)?;
            let Some(Sv::I { v, p }) = r else { return uns("result is not an integer") };
            self.ex.must_not("the result code is poison", p);
            let Some(code) = cv(v) else { return uns("symbolic result code") };
            let code = code.to::<u64>() as u8;
            if self.pending {
                self.pending = false;
                let n = self.len()?;
                let mut st = vec![];
                for i in 0..n {
                    st.push(self.word(i as u64)?);
                }
                let r = self.ex.suspend(st)?;
                self.stack.insert(n as u64, int(r));
                self.stack_len = int(cu(64, n as u64 + 1));
                continue;
            }
            let Some(code) = crate::interp::result_code(code) else { return Ok(End::Ub(format!("result code {code}"))) };
            if code.is_halt() {
                return Ok(End::Halt);
            }
            if code != revm_interpreter::InstructionResult::Stop {
                return Ok(End::Ub(format!("returned {code:?} directly")));
            }
            let mut obs = vec![self.ex.gas, self.ex.mem, self.ex.mlen];
            if case.inspect {
                let n = self.len()?;
                for i in 0..n {
                    obs.push(self.word(i as u64)?);
                }
            }
            return Ok(End::Done { kind: format!("stop{}", obs.len()), obs });
        }
    }
    fn len(&mut self) -> R<usize> {
        let Sv::I { v, .. } = self.stack_len else { return uns("stack length") };
        match cv(v) {
            Some(v) if v <= U256::from(1024) => Ok(v.to::<u64>() as usize),
            _ => uns("symbolic stack length"),
        }
    }
    /// Word `i` of the stack as an observer or builtin reads it.
    fn word(&mut self, i: u64) -> R<Id> {
        match self.stack.get(&i) {
            Some(Sv::I { v, p }) => {
                let (v, p) = (*v, *p);
                self.ex.must_not("a poison word is observed", p);
                Ok(v)
            }
            // Never written: an arbitrary word.
            None => Ok(var(256, format!("junk_{i}"))),
            _ => uns("pointer on the stack"),
        }
    }

    fn call(&mut self, f: usize, args: &[Sv]) -> R<Option<Sv>> {
        let fun = &self.m.funcs[f];
        self.frames += 1;
        let frame = self.frames;
        let mut vals: Vec<Sv> = vec![Sv::Undef; fun.nodes.len()];
        for (i, n) in fun.nodes.iter().enumerate() {
            vals[i] = match &n.op {
                Op::Param(p) => args[*p],
                Op::Const(_) if n.ty == Ty::Ptr => Sv::P { o: Obj::Null, off: cu(64, 0) },
                Op::Const(k) => int(c(n.ty.bits(), *k)),
                Op::Str(_) => Sv::P { o: Obj::Text, off: cu(64, 0) },
                Op::SlotAddr(s) => Sv::P { o: Obj::Slot(frame, *s), off: cu(64, 0) },
                _ => Sv::Undef,
            };
        }
        let (mut cur, mut prev): (Bl, Bl) = (0, 0);
        loop {
            self.ex.tick()?;
            let b = &fun.blocks[cur as usize];
            let mut i = 0;
            let mut phis = vec![];
            while i < b.insts.len() {
                let Op::Phi(inc) = &fun.nodes[b.insts[i] as usize].op else { break };
                let Some((v, _)) = inc.iter().find(|x| x.1 == prev) else { return Err(End::Ub("phi without entry".into())) };
                phis.push((b.insts[i], vals[*v as usize]));
                i += 1;
            }
            for (d, v) in phis {
                vals[d as usize] = v;
            }
            for &id in &b.insts[i..] {
                let r = self.step(fun, &fun.nodes[id as usize], &vals)?;
                vals[id as usize] = r;
            }
            prev = cur;
            match b.term.as_ref() {
                Some(Term::Br(t)) => cur = *t,
                Some(Term::BrIf(k, x, y)) => {
                    let k = self.cond(vals[*k as usize])?;
                    cur = if self.ex.branch(k)? { *x } else { *y };
                }
                Some(Term::Switch(k, d, t)) => {
                    let k = self.cond(vals[*k as usize])?;
                    let mut to = *d;
                    for (v, b) in t {
                        if self.ex.branch(eq(k, cu(width(k), *v)))? {
                            to = *b;
                            break;
                        }
                    }
                    cur = to;
                }
                Some(Term::Ret(v)) => return Ok(v.map(|v| vals[v as usize])),
                Some(Term::Unreachable) => return Err(End::Ub(format!("`unreachable` in block {cur} {}", b.name))),
                None => return Err(End::Ub("block without terminator".into())),
            }
        }
    }
    fn cond(&mut self, v: Sv) -> R<Id> {
        match v {
            Sv::I { v, p } => {
                self.ex.must_not("branch on poison", p);
                Ok(v)
            }
            _ => uns("branch on a pointer"),
        }
    }
    fn step(&mut self, f: &Func, n: &Node, vals: &[Sv]) -> R<Sv> {
        let bits = |v: V| f.nodes[v as usize].ty.bits();
        let g = |v: V| -> R<(Id, Id)> {
            match vals[v as usize] {
                Sv::I { v, p } => Ok((v, p)),
                Sv::P { .. } => uns("pointer arithmetic"),
                Sv::Undef => uns("undefined value"),
            }
        };
        Ok(match &n.op {
            Op::Param(_) | Op::Const(_) | Op::Str(_) | Op::SlotAddr(_) | Op::Phi(_) => unreachable!(),
            Op::Bin(op, a, b) => {
                let ((x, px), (y, py)) = (g(*a)?, g(*b)?);
                let w = width(x);
                let mut p = or(px, py);
                let v = match op {
                    Bin::Add => add(x, y),
                    Bin::Sub => sub(x, y),
                    Bin::Mul => mul(x, y),
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                        self.ex.must_not("division by poison", py);
                        self.ex.must_not("division by zero", eq(y, cu(w, 0)));
                        let z = cu(w, 0);
                        let (nx, ny) = (slt(x, z), slt(y, z));
                        let ab = |v: Id, n: Id| ite(n, neg(v), v);
                        match op {
                            Bin::UDiv => udiv(x, y),
                            Bin::URem => urem(x, y),
                            Bin::SDiv => {
                                let q = udiv(ab(x, nx), ab(y, ny));
                                let min = c(w, U256::from(1) << (w as usize - 1));
                                self.ex.must_not("signed division overflow", and(eq(x, min), eq(y, c(w, U256::MAX))));
                                ite(xor(nx, ny), neg(q), q)
                            }
                            _ => {
                                let q = urem(ab(x, nx), ab(y, ny));
                                ite(nx, neg(q), q)
                            }
                        }
                    }
                    Bin::And => and(x, y),
                    Bin::Or => or(x, y),
                    Bin::Xor => xor(x, y),
                    Bin::Shl | Bin::LShr | Bin::AShr => {
                        p = or(p, not(ult(y, cu(w, w as u64))));
                        shift(
                            match op {
                                Bin::Shl => K::Shl,
                                Bin::LShr => K::LShr,
                                _ => K::AShr,
                            },
                            x,
                            y,
                        )
                    }
                    Bin::UMax => ite(ult(x, y), y, x),
                    Bin::UMin => ite(ult(x, y), x, y),
                    Bin::UAddSat => {
                        let s = add(x, y);
                        ite(ult(s, x), c(w, U256::MAX), s)
                    }
                    Bin::UAddO => ult(add(x, y), x),
                    Bin::USubO => ult(x, y),
                };
                Sv::I { v, p }
            }
            Op::Cmp(cc, a, b) => {
                if let (Sv::P { o: Obj::Null, .. }, Sv::P { o, .. }) | (Sv::P { o, .. }, Sv::P { o: Obj::Null, .. }) =
                    (vals[*a as usize], vals[*b as usize])
                {
                    let same = o == Obj::Null;
                    return Ok(int(cu(1, (same == (*cc == IntCC::Equal)) as u64)));
                }
                let ((x, px), (y, py)) = (g(*a)?, g(*b)?);
                let v = match cc {
                    IntCC::Equal => eq(x, y),
                    IntCC::NotEqual => not(eq(x, y)),
                    IntCC::UnsignedLessThan => ult(x, y),
                    IntCC::UnsignedGreaterThan => ult(y, x),
                    IntCC::UnsignedGreaterThanOrEqual => not(ult(x, y)),
                    IntCC::UnsignedLessThanOrEqual => not(ult(y, x)),
                    IntCC::SignedLessThan => slt(x, y),
                    IntCC::SignedGreaterThan => slt(y, x),
                    IntCC::SignedGreaterThanOrEqual => not(slt(x, y)),
                    IntCC::SignedLessThanOrEqual => not(slt(y, x)),
                };
                Sv::I { v, p: or(px, py) }
            }
            Op::Select(k, a, b) => {
                let (k, pk) = g(*k)?;
                if let Some(v) = cv(k)
                    && cv(pk).is_some_and(|v| v.is_zero())
                {
                    return Ok(vals[if v.is_zero() { *b } else { *a } as usize]);
                }
                let ((x, px), (y, py)) = (g(*a)?, g(*b)?);
                Sv::I { v: ite(k, x, y), p: or(pk, ite(k, px, py)) }
            }
            Op::Bswap(a) => {
                let (x, p) = g(*a)?;
                Sv::I { v: bswap(x), p }
            }
            Op::Clz(a) => {
                let (x, p) = g(*a)?;
                Sv::I { v: clz(x), p }
            }
            Op::Zext(a) => {
                let (x, p) = g(*a)?;
                Sv::I { v: zext(n.ty.bits(), x), p }
            }
            Op::Sext(a) => {
                let (x, p) = g(*a)?;
                Sv::I { v: sext(n.ty.bits(), x), p }
            }
            Op::Trunc(a) => {
                let (x, p) = g(*a)?;
                Sv::I { v: extract(0, n.ty.bits(), x), p }
            }
            Op::IntToPtr(_) => return uns("inttoptr"),
            Op::Gep { ptr, scale, idx } => {
                let Sv::P { o, off } = vals[*ptr as usize] else { return uns("gep") };
                let (i, p) = g(*idx)?;
                self.ex.must_not("poison pointer", p);
                let i = if bits(*idx) < 64 { sext(64, i) } else { extract(0, 64, i) };
                Sv::P { o, off: add(off, mul(i, cu(64, *scale as u64))) }
            }
            Op::Load(p) => self.load(vals[*p as usize], n.ty)?,
            Op::Store { val, ptr } => {
                self.store(vals[*ptr as usize], vals[*val as usize], f.nodes[*val as usize].ty)?;
                Sv::Undef
            }
            Op::Memcpy { dst, src, len } => {
                // Whole words between the stack argument and the local copy of the stack.
                let (l, _) = g(*len)?;
                let Some(l) = cv(l) else { return uns("memcpy length") };
                let (Sv::P { o: d, off: doff }, Sv::P { o: s, off: soff }) = (vals[*dst as usize], vals[*src as usize]) else {
                    return uns("memcpy");
                };
                let (Some(doff), Some(soff)) = (cv(doff), cv(soff)) else { return uns("memcpy offset") };
                let (l, doff, soff) = (l.to::<u64>(), doff.to::<u64>(), soff.to::<u64>());
                if l % 32 != 0 || doff % 32 != 0 || soff % 32 != 0 {
                    return uns("memcpy of partial words");
                }
                if l / 32 > 1024 {
                    return Err(End::Ub("memcpy beyond the stack".into()));
                }
                for i in 0..l / 32 {
                    let v = self.load(Sv::P { o: s, off: cu(64, soff + 32 * i) }, Ty::Int(256))?;
                    self.store(Sv::P { o: d, off: cu(64, doff + 32 * i) }, v, Ty::Int(256))?;
                }
                Sv::Undef
            }
            Op::Assume(a) => {
                let (x, p) = g(*a)?;
                self.ex.must_not("assume of poison", p);
                self.ex.must_not("false assumption", not(x));
                Sv::Undef
            }
            Op::Call { f, args } => {
                let av: Vec<Sv> = args.iter().map(|a| vals[*a as usize]).collect();
                let cf = &self.m.funcs[*f];
                if cf.addr.is_none() && !cf.blocks.is_empty() {
                    self.call(*f, &av)?.unwrap_or(Sv::Undef)
                } else {
                    self.builtin(cf, &av)?;
                    Sv::Undef
                }
            }
        })
    }
    fn load(&mut self, p: Sv, ty: Ty) -> R<Sv> {
        let Sv::P { o, off } = p else { return uns("load through an integer") };
        if o == Obj::Mem {
            let nb = ty.bytes() as u64;
            self.bounds("load", off, nb);
            return Ok(int(mload(self.ex.mem, off, ty.bits())));
        }
        let Some(off) = cv(off) else { return uns("symbolic offset") };
        let off = off.to::<u64>();
        let w = ty.bits();
        match o {
            Obj::Ecx => {
                if off == offset_of!(EvmContext<'static>, mem_base) as u64 {
                    return Ok(Sv::P { o: Obj::Mem, off: cu(64, 0) });
                }
                if off == offset_of!(EvmContext<'static>, input) as u64 && ty == Ty::Ptr {
                    return Ok(Sv::P { o: Obj::Input, off: cu(64, 0) });
                }
                if w != 64 && w != 8 && w != 1 {
                    return uns("context field");
                }
                if off == self.gas_off {
                    return Ok(int(self.ex.gas));
                }
                if off == offset_of!(EvmContext<'static>, mem_len) as u64 {
                    return Ok(int(self.ex.mlen));
                }
                if off == offset_of!(EvmContext<'static>, return_data) as u64 + 8 {
                    return Ok(int(self.ex.rdlen));
                }
                if off == offset_of!(EvmContext<'static>, calldatasize) as u64 {
                    return Ok(int(var(64, "cdsize")));
                }
                match self.ecx.get(&off) {
                    Some((w2, v)) if *w2 == w => Ok(*v),
                    Some(_) => uns("context field width"),
                    None => uns(format!("context field {off}")),
                }
            }
            Obj::Input => {
                if w != 160 && w != 256 {
                    return uns(format!("input field of {w} bits"));
                }
                Ok(int(var(w, format!("in_{off}_{w}"))))
            }
            Obj::Stack => {
                if off % 32 != 0 || w > 256 {
                    return uns("partial stack word");
                }
                if off / 32 >= 1024 {
                    return Err(End::Ub("load outside the stack".into()));
                }
                let v = match self.stack.get(&(off / 32)) {
                    Some(v) => *v,
                    None => int(var(256, format!("junk_{}", off / 32))),
                };
                low(v, w)
            }
            Obj::StackLen => Ok(self.stack_len),
            Obj::Slot(a, b) => match self.slots.get(&(a, b, off)) {
                Some((w2, v)) if *w2 == w => Ok(*v),
                Some((w2, v)) if *w2 > w => low(*v, w),
                Some(_) => uns("slot width"),
                None => Ok(Sv::I { v: var(w, "undef_slot"), p: tt() }),
            },
            _ => uns("load from an unknown object"),
        }
    }
    fn bounds(&mut self, what: &str, off: Id, nb: u64) {
        // off + nb <= mlen without overflow.
        let n = cu(64, nb);
        let bad = or(ult(self.ex.mlen, n), ult(sub(self.ex.mlen, n), off));
        self.ex.must_not(&format!("{what} outside EVM memory"), bad);
    }
    fn store(&mut self, p: Sv, v: Sv, ty: Ty) -> R<()> {
        let Sv::P { o, off } = p else { return uns("store through an integer") };
        if o == Obj::Mem {
            let Sv::I { v, p } = v else { return uns("pointer stored to memory") };
            self.ex.must_not("poison stored to memory", p);
            self.bounds("store", off, ty.bytes() as u64);
            self.ex.mem = mstore(self.ex.mem, off, v);
            return Ok(());
        }
        let Some(off) = cv(off) else { return uns("symbolic offset") };
        let off = off.to::<u64>();
        let w = ty.bits();
        match o {
            Obj::Ecx if off == self.gas_off => {
                let Sv::I { v, .. } = v else { return uns("gas") };
                self.ex.gas = v;
            }
            Obj::Ecx if off == offset_of!(EvmContext<'static>, resume_at) as u64 => {
                self.ecx.insert(off, (w, v));
            }
            Obj::Ecx => return uns(format!("store to context field {off}")),
            Obj::Stack => {
                if off % 32 != 0 || w != 256 {
                    return uns("partial stack word");
                }
                if off / 32 >= 1024 {
                    return Err(End::Ub("store outside the stack".into()));
                }
                self.stack.insert(off / 32, v);
            }
            Obj::StackLen => self.stack_len = v,
            Obj::Slot(a, b) => {
                self.slots.insert((a, b, off), (w, v));
            }
            _ => return uns("store to an unknown object"),
        }
        Ok(())
    }
    /// Word `i` of the buffer a builtin is handed.
    fn operand(&mut self, name: &str, o: Obj, i: u64) -> R<Id> {
        match o {
            Obj::Slot(a, b) => match self.slots.get(&(a, b, 32 * i)) {
                Some((256, Sv::I { v, p })) => {
                    let (v, p) = (*v, *p);
                    self.ex.must_not("a poison word is handed to a builtin", p);
                    Ok(v)
                }
                None => Ok(var(256, format!("junk_{a}_{b}_{i}"))),
                _ => uns("builtin operand buffer"),
            },
            _ if i >= 1024 => Err(End::Ub(format!("{name}: operands outside the stack"))),
            _ => self.word(i),
        }
    }
    fn result(&mut self, name: &str, at: (Obj, u64), r: Id) -> R<()> {
        match at.0 {
            Obj::Slot(a, b) => {
                self.slots.insert((a, b, 32 * at.1), (256, int(r)));
            }
            _ if at.1 >= 1024 => return Err(End::Ub(format!("{name}: result outside the stack"))),
            _ => {
                self.stack.insert(at.1, int(r));
            }
        }
        Ok(())
    }
    fn builtin(&mut self, cf: &Func, av: &[Sv]) -> R<()> {
        let name = cf.name.strip_prefix("__revmc_builtin_").unwrap_or(&cf.name).to_string();
        let int_arg = |i: usize| -> R<Id> {
            match av.get(i) {
                Some(Sv::I { v, .. }) => Ok(*v),
                _ => uns("builtin argument"),
            }
        };
        let sp = |i: usize| -> R<(Obj, u64)> {
            match av.get(i) {
                Some(Sv::P { o: o @ (Obj::Stack | Obj::Slot(..)), off }) => match cv(*off) {
                    Some(k) if k.to::<u64>() % 32 == 0 => Ok((*o, k.to::<u64>() / 32)),
                    _ => uns("builtin stack pointer"),
                },
                _ => uns("builtin stack pointer object"),
            }
        };
        // In memory order reversed: the first element is the top of the stack.
        macro_rules! words {
            ($at:expr, $n:expr) => {{
                let ((o, at), n): ((Obj, u64), usize) = ($at, $n);
                let mut v = vec![];
                for i in (0..n as u64).rev() {
                    v.push(self.operand(&name, o, at + i)?);
                }
                v
            }};
        }
        let konst = |x: Id| -> R<u64> {
            match cv(x) {
                Some(v) => Ok(v.to::<u64>()),
                None => uns("symbolic builtin immediate"),
            }
        };
        match name.as_str() {
            "panic" => return Err(End::Ub("panic".into())),
            "assert_spec_id" => {}
            "div" | "sdiv" | "mod" | "smod" | "addmod" | "mulmod" => {
                let at = sp(0)?;
                let n = if name.len() == 6 { 3 } else { 2 };
                let a = words!(at, n);
                let r = pure(&name.to_uppercase(), &a).unwrap();
                self.result(&name, at, r)?;
            }
            "exp" => {
                let at = sp(1)?;
                let a = words!(at, 2);
                self.ex.host_op("EXPGAS", &[a[1]])?;
                let r = pure("EXP", &a).unwrap();
                self.result(&name, at, r)?;
            }
            "exp_gas" => {
                let at = sp(1)?;
                let a = words!(at, 1);
                self.ex.host_op("EXPGAS", &a)?;
            }
            "keccak256_cc" => {
                let at = sp(1)?;
                let (o, l) = (zext(256, int_arg(2)?), zext(256, int_arg(3)?));
                let r = self.ex.host_op("KECCAK256", &[o, l])?.unwrap();
                self.result(&name, at, r)?;
            }
            "calldataload_c" | "sload_c" => {
                let at = sp(1)?;
                let o = zext(256, int_arg(2)?);
                let op = if name == "sload_c" { "SLOAD" } else { "CALLDATALOAD" };
                let r = self.ex.host_op(op, &[o])?.unwrap();
                self.result(&name, at, r)?;
            }
            "mresize" => {
                let n = int_arg(1)?;
                self.ex.expand(n, cu(64, 0))?;
            }
            "log" => {
                let k = konst(int_arg(2)?)?;
                let at = sp(1)?;
                let a = words!(at, k as usize + 2);
                self.ex.host_op(&format!("LOG{k}"), &a)?;
            }
            "create" => {
                let k = konst(int_arg(2)?)?;
                let at = sp(1)?;
                let (n, op) = if k == 0 { (3, "CREATE") } else { (4, "CREATE2") };
                let a = words!(at, n);
                self.ex.host_op(op, &a)?;
                self.pending = true;
            }
            "call" => {
                let k = konst(int_arg(2)?)?;
                let at = sp(1)?;
                let (n, op) = [(7, "CALL"), (7, "CALLCODE"), (6, "DELEGATECALL"), (6, "STATICCALL")][k as usize & 3];
                let a = words!(at, n);
                self.ex.host_op(op, &a)?;
                self.pending = true;
            }
            "do_return" | "do_return_cc" => {
                let (o, l) = if name == "do_return" {
                    let at = sp(1)?;
                    let a = words!(at, 2);
                    (a[0], a[1])
                } else {
                    (zext(256, int_arg(1)?), zext(256, int_arg(2)?))
                };
                let code = konst(int_arg(if name == "do_return" { 2 } else { 3 })?)?;
                use revm_interpreter::InstructionResult as I;
                let kind = match code as u8 {
                    x if x == I::Return as u8 => "return",
                    x if x == I::Revert as u8 => "revert",
                    x => return Err(End::Ub(format!("return with code {x}"))),
                };
                return Err(self.ex.ret(kind, o, l));
            }
            "selfdestruct" => {
                let at = sp(1)?;
                let a = words!(at, 1);
                return Err(self.ex.selfdestruct(a[0]));
            }
            _ => {
                let (op, n, out) = match name.as_str() {
                    "keccak256" => ("KECCAK256", 2, 1),
                    "balance" => ("BALANCE", 1, 1),
                    "origin" => ("ORIGIN", 0, 1),
                    "calldataload" => ("CALLDATALOAD", 1, 1),
                    "calldatacopy" => ("CALLDATACOPY", 3, 0),
                    "codecopy" => ("CODECOPY", 3, 0),
                    "gas_price" => ("GASPRICE", 0, 1),
                    "extcodesize" => ("EXTCODESIZE", 1, 1),
                    "extcodecopy" => ("EXTCODECOPY", 4, 0),
                    "returndatacopy" => ("RETURNDATACOPY", 3, 0),
                    "extcodehash" => ("EXTCODEHASH", 1, 1),
                    "blockhash" => ("BLOCKHASH", 1, 1),
                    "coinbase" => ("COINBASE", 0, 1),
                    "timestamp" => ("TIMESTAMP", 0, 1),
                    "number" => ("NUMBER", 0, 1),
                    "difficulty" => ("DIFFICULTY", 0, 1),
                    "gaslimit" => ("GASLIMIT", 0, 1),
                    "chainid" => ("CHAINID", 0, 1),
                    "self_balance" => ("SELFBALANCE", 0, 1),
                    "basefee" => ("BASEFEE", 0, 1),
                    "blob_hash" => ("BLOBHASH", 1, 1),
                    "blob_base_fee" => ("BLOBBASEFEE", 0, 1),
                    "slot_num" => ("SLOTNUM", 0, 1),
                    "sload" => ("SLOAD", 1, 1),
                    "sstore" => ("SSTORE", 2, 0),
                    "tload" => ("TLOAD", 1, 1),
                    "tstore" => ("TSTORE", 2, 0),
                    "mcopy" => ("MCOPY", 3, 0),
                    _ => return uns(format!("builtin {name}")),
                };
                let at = sp(1)?;
                let a = words!(at, n);
                let r = self.ex.host_op(op, &a)?;
                if out == 1 {
                    self.result(&name, at, r.unwrap())?;
                }
            }
        }
        Ok(())
    }
}
/// The low bits of a value (a narrower load of it, little-endian).
fn low(v: Sv, w: u32) -> R<Sv> {
    match v {
        Sv::I { v, p } => Ok(Sv::I { v: extract(0, w, v), p }),
        _ => uns("partial pointer"),
    }
}
fn int(v: Id) -> Sv {
    Sv::I { v, p: ff() }
}

/// Compiles the case and returns the module and the index of the compiled function.
pub fn compile(case: &Case) -> Result<(std::rc::Rc<std::cell::RefCell<Module>>, usize), String> {
    use revmc_backend::Backend;
    let mut comp = revmc_codegen::EvmCompiler::new(ir::Irx::new());
    comp.inspect_stack(case.inspect);
    comp.debug_assertions(case.debug);
    comp.single_error(case.single_error);
    comp.set_dedup(case.dedup);
    comp.set_dse(case.dse);
    if let Some(l) = case.fold {
        comp.set_compiler_gas_limit(l);
    }
    unsafe { comp.jit("f", &case.code[..], case.spec) }.map_err(|e| format!("compilation failed: {e}"))?;
    comp.backend_mut().verify_module().map_err(|e| e.to_string())?;
    let m = comp.backend_mut().m.clone();
    let f = m.borrow().funcs.iter().position(|f| f.name == "f").ok_or("no function")?;
    Ok((m, f))
}
