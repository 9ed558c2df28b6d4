//! Executes recorded IR on concrete machine memory, calling the real builtins.
//!
//! LLVM-level undefined behaviour (an access outside every live object, a branch on poison, `unreachable`, a false
//! `assume`, division by zero) is reported through [`take_error`].

use crate::ir::*;
use revm_interpreter::{InputsImpl, InstructionResult};
use revmc_backend::{Attribute, FunctionAttributeLocation, IntCC, U256};
use revmc_context::{EvmContext, EvmStack};
use std::{
    cell::{Cell, RefCell},
    ptr::NonNull,
    rc::Rc,
};

thread_local! {
    static PROGS: RefCell<[Option<(Rc<RefCell<Module>>, usize)>; TRAMPOLINES]> = const { RefCell::new([const { None }; TRAMPOLINES]) };
    /// The trampoline the next compiled function gets.
    pub static SLOT: Cell<usize> = const { Cell::new(0) };
    static ERR: RefCell<Option<String>> = const { RefCell::new(None) };
    static VALS: RefCell<Vec<Box<Vec<Val>>>> = const { RefCell::new(Vec::new()) };
    static SLOTS: RefCell<Vec<Box<Vec<u128>>>> = const { RefCell::new(Vec::new()) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    pub static BUILTIN_CALLS: RefCell<std::collections::BTreeMap<String, u64>> = const { RefCell::new(std::collections::BTreeMap::new()) };
}

#[derive(Clone, Copy)]
struct Val {
    v: U256,
    poison: bool,
}
const JUNK: Val = Val { v: U256::ZERO, poison: true };

/// Selects the function that the trampoline runs and returns the trampoline's address.
pub fn install(m: Rc<RefCell<Module>>, id: usize) -> usize {
    let n = SLOT.with(|s| s.get());
    PROGS.with(|c| c.borrow_mut()[n] = Some((m, id)));
    macro_rules! pick {
        ($($i:literal)*) => { match n { $($i => trampoline::<$i> as *const () as usize,)* _ => unreachable!() } };
    }
    pick!(0 1 2 3 4 5 6 7 8 9 10 11)
}
pub fn take_error() -> Option<String> {
    ERR.with(|e| e.borrow_mut().take())
}
fn fail(s: String) -> Stop {
    ERR.with(|e| {
        e.borrow_mut().get_or_insert(s);
    });
    Stop
}
struct Stop;

/// How many compiled functions can be alive at once.
pub const TRAMPOLINES: usize = 12;

unsafe extern "C" fn trampoline<const N: usize>(
    ecx: NonNull<EvmContext<'_>>,
    stack: NonNull<EvmStack>,
    stack_len: NonNull<usize>,
) -> InstructionResult {
    DEPTH.with(|d| d.set(0));
    let (m, id): (*const Module, usize) = PROGS.with(|c| {
        let c = c.borrow();
        let (m, id) = c[N].as_ref().unwrap();
        (m.as_ptr() as *const Module, *id)
    });
    let m = unsafe { &*m };
    let args = [ecx.as_ptr() as u64, stack.as_ptr() as u64, stack_len.as_ptr() as u64];
    let world = World { ecx: ecx.as_ptr() as usize, stack: args[1] as usize, len: args[2] as usize };
    // What the compiled function declares about its own parameters must be true of every caller.
    let sizes = [size_of::<EvmContext<'_>>(), EvmStack::SIZE, size_of::<usize>()];
    for (loc, a) in &m.funcs[id].attrs {
        let FunctionAttributeLocation::Param(p) = *loc else { continue };
        let p = p as usize;
        let wrong = match a {
            _ if p >= 3 => true,
            Attribute::Dereferenceable(n) => *n as usize > sizes[p],
            Attribute::Align(n) => args[p] % *n != 0,
            Attribute::DeadOnReturn => p == 0,
            Attribute::ReadNone | Attribute::ReadOnly | Attribute::WriteOnly | Attribute::Initializes(_) => true,
            _ => false,
        };
        if wrong {
            fail(format!("the compiled function declares {a:?} of parameter {p}"));
            return InstructionResult::FatalExternalError;
        }
    }
    let entry_len = unsafe { *stack_len.as_ptr() };
    let r = exec(m, id, &args.map(|a| Val { v: U256::from(a), poison: false }), &world, &[]);
    let dead = |p: u32| m.funcs[id].attrs.contains(&(FunctionAttributeLocation::Param(p), Attribute::DeadOnReturn));
    if dead(1) {
        unsafe { std::ptr::write_bytes(stack.as_ptr() as *mut u8, 0xD7, EvmStack::SIZE) };
    }
    if dead(2) {
        unsafe { *stack_len.as_ptr() = entry_len };
    }
    match r {
        Ok(Some(v)) if !v.poison => {
            let b: u8 = v.v.to::<u64>() as u8;
            // SAFETY: checked against the known codes.
            match result_code(b) {
                Some(c) => c,
                None => {
                    fail(format!("returned the invalid result code {b}"));
                    InstructionResult::FatalExternalError
                }
            }
        }
        Ok(_) => {
            fail("returned poison".into());
            InstructionResult::FatalExternalError
        }
        Err(Stop) => InstructionResult::FatalExternalError,
    }
}

pub fn result_code(b: u8) -> Option<InstructionResult> {
    use InstructionResult::*;
    [
        Stop, Return, SelfDestruct, Revert, CallTooDeep, OutOfFunds, CreateInitCodeStartingEF00, InvalidEOFInitCode,
        InvalidExtDelegateCallTarget, OutOfGas, MemoryOOG, MemoryLimitOOG, PrecompileOOG, InvalidOperandOOG,
        ReentrancySentryOOG, OpcodeNotFound, CallNotAllowedInsideStatic, StateChangeDuringStaticCall,
        InvalidFEOpcode, InvalidJump, NotActivated, StackUnderflow, StackOverflow, OutOfOffset, CreateCollision,
        OverflowPayment, PrecompileError, NonceOverflow, CreateContractSizeLimit, CreateContractStartingWithEF,
        CreateInitCodeSizeLimit, FatalExternalError, InvalidImmediateEncoding,
    ]
    .into_iter()
    .find(|c| *c as u8 == b)
}

struct World {
    ecx: usize,
    stack: usize,
    len: usize,
}
impl World {
    /// Is `[a, a+n)` inside one live object?
    fn ok(&self, a: usize, n: usize, slots: &[(usize, usize)]) -> bool {
        let within = |b: usize, l: usize| a >= b && a.checked_add(n).is_some_and(|e| e <= b + l);
        if within(self.ecx, size_of::<EvmContext<'static>>())
            || within(self.stack, EvmStack::SIZE)
            || within(self.len, 8)
            || slots.iter().any(|(b, l)| within(*b, *l))
        {
            return true;
        }
        let ecx = unsafe { &*(self.ecx as *const EvmContext<'_>) };
        within(ecx.mem_base as usize, ecx.mem_len)
            || within(ecx.input as *const InputsImpl as usize, size_of::<InputsImpl>())
    }
}

fn exec(m: &Module, id: usize, args: &[Val], w: &World, outer: &[(usize, usize)]) -> Result<Option<Val>, Stop> {
    let f = &m.funcs[id];
    let depth = DEPTH.with(|d| {
        let v = d.get();
        d.set(v + 1);
        v
    });
    // Frames live in thread-local storage because a builtin may leave through `revmc_exit` without unwinding.
    let vals: &mut Vec<Val> = VALS.with(|v| {
        let mut v = v.borrow_mut();
        while v.len() <= depth {
            v.push(Box::default());
        }
        unsafe { &mut *(&mut *v[depth] as *mut Vec<Val>) }
    });
    vals.clear();
    vals.resize(f.nodes.len(), JUNK);
    let total: usize = f.slots.iter().map(|t| t.bytes().div_ceil(32) * 2 + 2).sum();
    let mem: &mut Vec<u128> = SLOTS.with(|v| {
        let mut v = v.borrow_mut();
        while v.len() <= depth {
            v.push(Box::default());
        }
        unsafe { &mut *(&mut *v[depth] as *mut Vec<u128>) }
    });
    mem.clear();
    mem.resize(total, 0xA5A5_A5A5_A5A5_A5A5_5A5A_5A5A_5A5A_5A5A);
    let mut slots: Vec<(usize, usize)> = Vec::with_capacity(f.slots.len());
    let base = mem.as_mut_ptr() as usize;
    let mut off = base;
    for t in &f.slots {
        slots.push((off, t.bytes()));
        off += (t.bytes().div_ceil(32) * 2 + 2) * 16;
    }
    let nslots = slots.len();
    slots.extend_from_slice(outer);
    for (i, n) in f.nodes.iter().enumerate() {
        let v = match &n.op {
            Op::Param(p) => args[*p],
            Op::Const(c) => Val { v: *c, poison: false },
            Op::Str(s) => Val { v: U256::from(s.as_ptr() as u64), poison: false },
            Op::SlotAddr(s) => Val { v: U256::from(slots[*s].0 as u64), poison: false },
            _ => continue,
        };
        vals[i] = v;
    }
    let _ = nslots;
    let mut cur: Bl = 0;
    let mut prev: Bl = 0;
    loop {
        let b = &f.blocks[cur as usize];
        let mut i = 0;
        // Phis read the values of the predecessor simultaneously.
        let mut phis: Vec<(V, Val)> = vec![];
        while i < b.insts.len() {
            let Op::Phi(inc) = &f.nodes[b.insts[i] as usize].op else { break };
            let Some((v, _)) = inc.iter().find(|x| x.1 == prev) else {
                return Err(fail(format!("phi of block {cur} has no entry for predecessor {prev}")));
            };
            phis.push((b.insts[i], vals[*v as usize]));
            i += 1;
        }
        for (d, v) in phis {
            vals[d as usize] = v;
        }
        for &id in &b.insts[i..] {
            let n = &f.nodes[id as usize];
            STEPS.with(|s| s.set(s.get() + 1));
            let r = step(m, f, n, vals, w, &slots)?;
            vals[id as usize] = r;
        }
        let go = |c: &Val| -> Result<U256, Stop> {
            if c.poison { Err(fail("branch on poison".into())) } else { Ok(c.v) }
        };
        prev = cur;
        match b.term.as_ref() {
            Some(Term::Br(t)) => cur = *t,
            Some(Term::BrIf(c, x, y)) => cur = if go(&vals[*c as usize])?.is_zero() { *y } else { *x },
            Some(Term::Switch(c, d, t)) => {
                let v = go(&vals[*c as usize])?;
                cur = t.iter().find(|(k, _)| U256::from(*k) == v).map_or(*d, |x| x.1);
            }
            Some(Term::Ret(v)) => {
                DEPTH.with(|d| d.set(depth));
                return Ok(v.map(|v| vals[v as usize]));
            }
            Some(Term::Unreachable) => return Err(fail(format!("reached `unreachable` in block {cur} {}", b.name))),
            None => return Err(fail(format!("block {cur} has no terminator"))),
        }
        if STEPS.with(|s| s.get()) > 20_000_000 {
            return Err(fail("step limit".into()));
        }
    }
}

fn sx(bits: u32, v: U256) -> U256 {
    if bits < 256 && v.bit(bits as usize - 1) { v | (U256::MAX << bits as usize) } else { v }
}

fn neg(v: U256) -> U256 {
    U256::ZERO.wrapping_sub(v)
}

pub fn bin(op: Bin, bits: u32, a: U256, b: U256) -> Option<U256> {
    let (sa, sb) = (sx(bits, a), sx(bits, b));
    let (na, nb) = (sa.bit(255), sb.bit(255));
    let abs = |v: U256| if v.bit(255) { neg(v) } else { v };
    Some(mask(
        bits,
        match op {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => a.checked_div(b)?,
            Bin::URem => a.checked_rem(b)?,
            Bin::SDiv => {
                let q = abs(sa).checked_div(abs(sb))?;
                if mask(bits, sb) == mask(bits, U256::MAX) && a == U256::from(1) << (bits as usize - 1) {
                    return None;
                }
                if na != nb { neg(q) } else { q }
            }
            Bin::SRem => {
                let q = abs(sa).checked_rem(abs(sb))?;
                if mask(bits, sb) == mask(bits, U256::MAX) && a == U256::from(1) << (bits as usize - 1) {
                    return None;
                }
                if na { neg(q) } else { q }
            }
            Bin::Or => a | b,
            Bin::And => a & b,
            Bin::Xor => a ^ b,
            Bin::Shl | Bin::LShr | Bin::AShr if b >= U256::from(bits) => return None,
            Bin::Shl => a << b.to::<usize>(),
            Bin::LShr => a >> b.to::<usize>(),
            Bin::AShr => sa.arithmetic_shr(b.to::<usize>()),
            Bin::UMax => a.max(b),
            Bin::UMin => a.min(b),
            Bin::UAddSat => {
                let (s, o) = a.overflowing_add(b);
                if o || mask(bits, s) != s { mask(bits, U256::MAX) } else { s }
            }
            Bin::UAddO => {
                let (s, o) = a.overflowing_add(b);
                return Some(U256::from(o || mask(bits, s) != s));
            }
            Bin::USubO => return Some(U256::from(a < b)),
        },
    ))
}

pub fn cmp(cc: IntCC, bits: u32, a: U256, b: U256) -> bool {
    let flip = |v: U256| sx(bits, v) ^ (U256::from(1) << 255);
    let (x, y) = (flip(a), flip(b));
    match cc {
        IntCC::Equal => a == b,
        IntCC::NotEqual => a != b,
        IntCC::SignedLessThan => x < y,
        IntCC::SignedGreaterThanOrEqual => x >= y,
        IntCC::SignedGreaterThan => x > y,
        IntCC::SignedLessThanOrEqual => x <= y,
        IntCC::UnsignedLessThan => a < b,
        IntCC::UnsignedGreaterThanOrEqual => a >= b,
        IntCC::UnsignedGreaterThan => a > b,
        IntCC::UnsignedLessThanOrEqual => a <= b,
    }
}

fn step(m: &Module, f: &Func, n: &Node, vals: &mut Vec<Val>, w: &World, slots: &[(usize, usize)]) -> Result<Val, Stop> {
    let g = |v: V| vals[v as usize];
    let ok = |v: U256| Ok(Val { v, poison: false });
    let bits = |v: V| f.nodes[v as usize].ty.bits();
    let addr = |v: Val, n: usize, what: &str| -> Result<usize, Stop> {
        if v.poison {
            return Err(fail(format!("{what} through a poison pointer")));
        }
        let a = v.v.to::<u64>() as usize;
        if !w.ok(a, n, slots) {
            return Err(fail(format!("{what} of {n} bytes outside every live object")));
        }
        Ok(a)
    };
    match &n.op {
        Op::Param(_) | Op::Const(_) | Op::Str(_) | Op::SlotAddr(_) | Op::Phi(_) => unreachable!(),
        Op::Bin(op, a, b) => {
            let (x, y) = (g(*a), g(*b));
            let div = matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem);
            if x.poison || y.poison {
                if div && y.poison {
                    return Err(fail("division by poison".into()));
                }
                return Ok(JUNK);
            }
            match bin(*op, bits(*a), x.v, y.v) {
                Some(v) => ok(v),
                None if div => Err(fail(format!("undefined {op:?}"))),
                None => Ok(JUNK),
            }
        }
        Op::Cmp(cc, a, b) => {
            let (x, y) = (g(*a), g(*b));
            if x.poison || y.poison {
                return Ok(JUNK);
            }
            ok(U256::from(cmp(*cc, bits(*a), x.v, y.v)))
        }
        Op::Select(c, a, b) => {
            let c = g(*c);
            Ok(if c.poison {
                JUNK
            } else if c.v.is_zero() {
                g(*b)
            } else {
                g(*a)
            })
        }
        Op::Bswap(a) => {
            let (x, nb) = (g(*a), bits(*a) as usize / 8);
            let mut by: [u8; 32] = x.v.to_le_bytes();
            by[..nb].reverse();
            Ok(Val { v: U256::from_le_bytes(by), ..x })
        }
        Op::Clz(a) => {
            let x = g(*a);
            Ok(Val { v: U256::from(x.v.leading_zeros() - (256 - bits(*a) as usize)), ..x })
        }
        Op::Zext(a) => Ok(g(*a)),
        Op::Sext(a) => Ok(Val { v: mask(n.ty.bits(), sx(bits(*a), g(*a).v)), ..g(*a) }),
        Op::Trunc(a) => Ok(Val { v: mask(n.ty.bits(), g(*a).v), ..g(*a) }),
        Op::IntToPtr(a) => Ok(Val { v: mask(64, g(*a).v), ..g(*a) }),
        Op::Load(p) => {
            let nb = n.ty.bytes();
            let a = addr(g(*p), nb, "load")?;
            let mut by = [0u8; 32];
            unsafe { std::ptr::copy(a as *const u8, by.as_mut_ptr(), nb) };
            ok(mask(n.ty.bits(), U256::from_le_bytes(by)))
        }
        Op::Store { val, ptr } => {
            let nb = f.nodes[*val as usize].ty.bytes();
            let a = addr(g(*ptr), nb, "store")?;
            let x = g(*val);
            let by: [u8; 32] = if x.poison { [0x5C; 32] } else { x.v.to_le_bytes() };
            unsafe { std::ptr::copy(by.as_ptr(), a as *mut u8, nb) };
            Ok(JUNK)
        }
        Op::Gep { ptr, scale, idx } => {
            let (p, i) = (g(*ptr), g(*idx));
            if p.poison || i.poison {
                return Ok(JUNK);
            }
            let i = mask(64, sx(bits(*idx), i.v)).to::<u64>();
            ok(U256::from(p.v.to::<u64>().wrapping_add(i.wrapping_mul(*scale as u64))))
        }
        Op::Memcpy { dst, src, len } => {
            let l = g(*len);
            if l.poison {
                return Err(fail("memcpy of poison length".into()));
            }
            let l = l.v.saturating_to::<u64>() as usize;
            if l > 0 {
                let (d, s) = (addr(g(*dst), l, "memcpy to")?, addr(g(*src), l, "memcpy from")?);
                if d < s + l && s < d + l && d != s {
                    return Err(fail("overlapping memcpy".into()));
                }
                unsafe { std::ptr::copy(s as *const u8, d as *mut u8, l) };
            }
            Ok(JUNK)
        }
        Op::Assume(c) => {
            let c = g(*c);
            if c.poison || c.v.is_zero() {
                return Err(fail("false assume".into()));
            }
            Ok(JUNK)
        }
        Op::Call { f: callee, args } => {
            let av: Vec<Val> = args.iter().map(|a| g(*a)).collect();
            if av.iter().any(|a| a.poison) {
                return Err(fail(format!("poison passed to {}", m.funcs[*callee].name)));
            }
            let cf = &m.funcs[*callee];
            let Some(address) = cf.addr else {
                let r = exec(m, *callee, &av, w, slots)?;
                return Ok(r.unwrap_or(JUNK));
            };
            call_builtin(cf, address, &av, w, slots)
        }
    }
}

fn call_builtin(cf: &Func, address: usize, av: &[Val], w: &World, slots: &[(usize, usize)]) -> Result<Val, Stop> {
    BUILTIN_CALLS.with(|b| *b.borrow_mut().entry(cf.name.clone()).or_insert(0) += 1);
    if cf.name.ends_with("builtin_panic") {
        let (p, l) = (av[0].v.to::<u64>(), av[1].v.to::<u64>());
        let s = unsafe { std::slice::from_raw_parts(p as *const u8, l as usize) };
        return Err(fail(format!("panic builtin: {}", String::from_utf8_lossy(s))));
    }
    // What the attributes promise to the optimizer about each pointer argument.
    let mut ro: Vec<(usize, Vec<u8>)> = vec![];
    let mut uninit: Vec<usize> = vec![];
    for (loc, a) in &cf.attrs {
        let FunctionAttributeLocation::Param(p) = *loc else { continue };
        let ptr = av[p as usize].v.to::<u64>() as usize;
        match a {
            Attribute::Dereferenceable(n) if !w.ok(ptr, *n as usize, slots) => {
                return Err(fail(format!("{}: argument {p} is not dereferenceable({n})", cf.name)));
            }
            Attribute::Align(n) if ptr % *n as usize != 0 => {
                return Err(fail(format!("{}: argument {p} is not aligned", cf.name)));
            }
            Attribute::ReadOnly | Attribute::ReadNone => {
                let d = cf.attrs.iter().find_map(|(l, a)| match a {
                    Attribute::Dereferenceable(n) if l == loc => Some(*n as usize),
                    _ => None,
                });
                if let Some(d) = d {
                    let bytes = unsafe { std::slice::from_raw_parts(ptr as *const u8, d) }.to_vec();
                    ro.push((ptr, bytes));
                }
            }
            Attribute::WriteOnly => {
                // The optimizer may drop earlier stores to the argument: the callee must not see them.
                let d = cf.attrs.iter().find_map(|(l, a)| match a {
                    Attribute::Initializes(n) if l == loc => Some(*n as usize),
                    _ => None,
                });
                if let Some(d) = d
                    && w.ok(ptr, d, slots)
                {
                    unsafe { std::ptr::write_bytes(ptr as *mut u8, 0x93, d) };
                    uninit.push(ptr);
                }
            }
            _ => {}
        }
    }
    let a: Vec<usize> = av.iter().map(|v| v.v.to::<u64>() as usize).collect();
    let depth = DEPTH.with(|d| d.get());
    unsafe {
        match a.len() {
            1 => std::mem::transmute::<usize, extern "C" fn(usize)>(address)(a[0]),
            2 => std::mem::transmute::<usize, extern "C" fn(usize, usize)>(address)(a[0], a[1]),
            3 => std::mem::transmute::<usize, extern "C" fn(usize, usize, usize)>(address)(a[0], a[1], a[2]),
            4 => {
                std::mem::transmute::<usize, extern "C" fn(usize, usize, usize, usize)>(address)(a[0], a[1], a[2], a[3])
            }
            n => return Err(fail(format!("builtin with {n} arguments"))),
        }
    }
    DEPTH.with(|d| d.set(depth));
    if cf.attrs.contains(&(FunctionAttributeLocation::Function, Attribute::NoReturn)) {
        return Err(fail(format!("{} returned", cf.name)));
    }
    for (p, old) in ro {
        if unsafe { std::slice::from_raw_parts(p as *const u8, old.len()) } != &old[..] {
            return Err(fail(format!("{} wrote through a read-only argument", cf.name)));
        }
    }
    let ecx = unsafe { &*(w.ecx as *const EvmContext<'_>) };
    let cm = ecx.memory.context_memory();
    if (ecx.mem_len != cm.len()) || (ecx.mem_len != 0 && ecx.mem_base as usize != cm.as_ptr() as usize) {
        return Err(fail(format!("{}: stale memory cache after the call", cf.name)));
    }
    Ok(JUNK)
}
