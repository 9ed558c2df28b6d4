//! A recording back end: runs the real translator and keeps what it emits as a small SSA IR.
//!
//! The semantics given to the IR (interp.rs, smt.rs) are those of the LLVM instructions that `revmc-llvm` maps each
//! builder method to.

use revmc_backend::{
    Attribute, Backend, BackendConfig, BackendTypes, Builder, CallConv, FunctionAttributeLocation, IntCC, Linkage,
    Result, TailCallKind, TypeMethods, U256, eyre,
};
use std::{cell::RefCell, collections::BTreeMap, marker::PhantomData, path::Path, rc::Rc};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Int(u32),
    Ptr,
    Arr(u32, u32),
    Void,
}
impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::Int(b) => b,
            Ty::Ptr => 64,
            _ => panic!("MALFORMED-IR: bit width of {self:?}"),
        }
    }
    pub fn bytes(self) -> usize {
        match self {
            Ty::Arr(b, n) => (b as usize).div_ceil(8) * n as usize,
            Ty::Void => 0,
            t => (t.bits() as usize).div_ceil(8),
        }
    }
}

pub type V = u32;
pub type Bl = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Or,
    And,
    Xor,
    Shl,
    LShr,
    AShr,
    UMax,
    UMin,
    UAddSat,
    /// i1 flag of `lhs + rhs`.
    UAddO,
    /// i1 flag of `lhs - rhs`.
    USubO,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Param(usize),
    Const(U256),
    Str(&'static str),
    SlotAddr(usize),
    Bin(Bin, V, V),
    Cmp(IntCC, V, V),
    Select(V, V, V),
    Bswap(V),
    Clz(V),
    Zext(V),
    Sext(V),
    Trunc(V),
    IntToPtr(V),
    Phi(Vec<(V, Bl)>),
    Load(V),
    Store { val: V, ptr: V },
    Gep { ptr: V, scale: usize, idx: V },
    Memcpy { dst: V, src: V, len: V },
    Call { f: usize, args: Vec<V> },
    Assume(V),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Term {
    Br(Bl),
    BrIf(V, Bl, Bl),
    Switch(V, Bl, Vec<(u64, Bl)>),
    Ret(Option<V>),
    Unreachable,
}
impl Term {
    pub fn succs(&self) -> Vec<Bl> {
        match self {
            Term::Br(b) => vec![*b],
            Term::BrIf(_, a, b) => vec![*a, *b],
            Term::Switch(_, d, t) => t.iter().map(|x| x.1).chain([*d]).collect(),
            Term::Ret(_) | Term::Unreachable => vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Node {
    pub op: Op,
    pub ty: Ty,
    /// Defining block; `None` for constants and parameters.
    pub block: Option<Bl>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub insts: Vec<V>,
    pub term: Option<Term>,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub params: Vec<TyOrNone>,
    pub ret: Option<Ty>,
    pub nodes: Vec<Node>,
    pub blocks: Vec<Block>,
    pub slots: Vec<Ty>,
    /// `Some` for an imported function.
    pub addr: Option<usize>,
    pub attrs: Vec<(FunctionAttributeLocation, Attribute)>,
    pub consts: BTreeMap<(u32, U256), V>,
}
pub type TyOrNone = Ty;

#[derive(Debug, Default)]
pub struct Module {
    pub funcs: Vec<Func>,
}

pub struct Irx {
    pub m: Rc<RefCell<Module>>,
    cfg: BackendConfig,
}
impl std::fmt::Debug for Irx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let m = self.m.borrow();
        for g in &m.funcs {
            if g.blocks.is_empty() {
                continue;
            }
            writeln!(f, "fn {} {:?}", g.name, g.params)?;
            for (v, n) in g.nodes.iter().enumerate() {
                if n.block.is_none() {
                    writeln!(f, "  v{v}: {:?} = {:?}", n.ty, n.op)?;
                }
            }
            for (i, b) in g.blocks.iter().enumerate() {
                writeln!(f, " b{i} {}:", b.name)?;
                for v in &b.insts {
                    let n = &g.nodes[*v as usize];
                    writeln!(f, "  v{}: {:?} = {:?}", v, n.ty, n.op)?;
                }
                writeln!(f, "  {:?}", b.term)?;
            }
        }
        Ok(())
    }
}
impl Default for Irx {
    fn default() -> Self {
        Self::new()
    }
}
impl Irx {
    pub fn new() -> Self {
        Self { m: Default::default(), cfg: BackendConfig::default() }
    }
}
pub struct Bld<'a> {
    m: Rc<RefCell<Module>>,
    f: usize,
    cur: Option<Bl>,
    _p: PhantomData<&'a ()>,
}

impl BackendTypes for Irx {
    type Type = Ty;
    type Value = V;
    type StackSlot = usize;
    type BasicBlock = Bl;
    type Function = usize;
}
impl BackendTypes for Bld<'_> {
    type Type = Ty;
    type Value = V;
    type StackSlot = usize;
    type BasicBlock = Bl;
    type Function = usize;
}
macro_rules! tm {
    () => {
        fn type_ptr(&self) -> Ty {
            Ty::Ptr
        }
        fn type_ptr_sized_int(&self) -> Ty {
            Ty::Int(64)
        }
        fn type_int(&self, bits: u32) -> Ty {
            Ty::Int(bits)
        }
        fn type_array(&self, ty: Ty, size: u32) -> Ty {
            Ty::Arr(ty.bits(), size)
        }
        fn type_bit_width(&self, ty: Ty) -> u32 {
            ty.bits()
        }
    };
}
impl TypeMethods for Irx {
    tm!();
}
impl TypeMethods for Bld<'_> {
    tm!();
}

impl Backend for Irx {
    type Builder<'a> = Bld<'a>;
    type FuncId = usize;
    fn ir_extension(&self) -> &'static str {
        "irx"
    }
    fn set_module_name(&mut self, _: &str) {}
    fn config(&self) -> &BackendConfig {
        &self.cfg
    }
    fn apply_config(&mut self, config: BackendConfig) {
        self.cfg = config;
    }
    fn dump_ir(&mut self, _: &Path) -> Result<()> {
        Ok(())
    }
    fn dump_disasm(&mut self, _: &Path) -> Result<()> {
        Ok(())
    }
    fn is_aot(&self) -> bool {
        false
    }
    fn function_name_is_unique(&self, name: &str) -> bool {
        !self.m.borrow().funcs.iter().any(|f| f.name == name)
    }
    fn build_function(
        &mut self,
        name: &str,
        ret: Option<Ty>,
        params: &[Ty],
        _: &[&str],
        _: Linkage,
    ) -> Result<(Bld<'_>, usize)> {
        let f = new_func(&self.m, name, params, ret, None);
        Ok((start(&self.m, f), f))
    }
    fn verify_module(&mut self) -> Result<()> {
        for f in &self.m.borrow().funcs {
            if let Err(e) = verify(f) {
                if std::env::var("IRDUMP").is_ok() {
                    for (i, b) in f.blocks.iter().enumerate() {
                        eprintln!("block {i} {}", b.name);
                        for v in &b.insts {
                            eprintln!("  %{v} = {:?}", f.nodes[*v as usize].op);
                        }
                        eprintln!("  {:?}", b.term);
                    }
                }
                return Err(eyre::eyre!("MALFORMED-IR: {}: {e}", f.name));
            }
        }
        Ok(())
    }
    fn optimize_module(&mut self) -> Result<()> {
        Ok(())
    }
    fn write_object<W: std::io::Write>(&mut self, _: W) -> Result<()> {
        Err(eyre::eyre!("unsupported"))
    }
    fn jit_function(&mut self, id: usize) -> Result<usize> {
        Ok(crate::interp::install(self.m.clone(), id))
    }
    fn function_name(&self, _: usize) -> Option<&str> {
        None
    }
    fn clear_ir(&mut self) -> Result<()> {
        self.m = Default::default();
        Ok(())
    }
    unsafe fn free_function(&mut self, _: usize) -> Result<()> {
        Ok(())
    }
    unsafe fn free_all_functions(&mut self) -> Result<()> {
        self.m = Default::default();
        Ok(())
    }
}

fn new_func(m: &Rc<RefCell<Module>>, name: &str, params: &[Ty], ret: Option<Ty>, addr: Option<usize>) -> usize {
    let mut m = m.borrow_mut();
    let mut f = Func { name: name.into(), params: params.to_vec(), ret, addr, ..Default::default() };
    for (i, t) in params.iter().enumerate() {
        f.nodes.push(Node { op: Op::Param(i), ty: *t, block: None });
    }
    m.funcs.push(f);
    m.funcs.len() - 1
}
fn start<'a>(m: &Rc<RefCell<Module>>, f: usize) -> Bld<'a> {
    let mut b = Bld { m: m.clone(), f, cur: None, _p: PhantomData };
    let e = b.create_block("entry");
    b.cur = Some(e);
    b
}

/// The structural rules that LLVM's verifier would enforce.
pub fn verify(f: &Func) -> std::result::Result<(), String> {
    if f.addr.is_some() || f.blocks.is_empty() {
        return Ok(());
    }
    let mut preds: Vec<Vec<Bl>> = vec![vec![]; f.blocks.len()];
    for (i, b) in f.blocks.iter().enumerate() {
        let Some(t) = &b.term else { return Err(format!("block {i} ({}) has no terminator", b.name)) };
        for s in t.succs() {
            preds[s as usize].push(i as Bl);
        }
    }
    if !preds[0].is_empty() {
        return Err("entry block has predecessors".into());
    }
    // Dominators (iterative bit sets over reachable blocks are overkill: use the simple algorithm).
    let n = f.blocks.len();
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut st = vec![(0usize, 0usize)];
    seen[0] = true;
    let succs: Vec<Vec<Bl>> = f.blocks.iter().map(|b| b.term.as_ref().unwrap().succs()).collect();
    while let Some((b, i)) = st.pop() {
        if i < succs[b].len() {
            st.push((b, i + 1));
            let s = succs[b][i] as usize;
            if !seen[s] {
                seen[s] = true;
                st.push((s, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        rpo[*b] = i;
    }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    loop {
        let mut ch = false;
        for &b in &order[1..] {
            let mut nd = usize::MAX;
            for &p in &preds[b] {
                let p = p as usize;
                if idom[p] == usize::MAX {
                    continue;
                }
                nd = if nd == usize::MAX {
                    p
                } else {
                    let (mut x, mut y) = (p, nd);
                    while x != y {
                        while rpo[x] > rpo[y] {
                            x = idom[x];
                        }
                        while rpo[y] > rpo[x] {
                            y = idom[y];
                        }
                    }
                    x
                };
            }
            if idom[b] != nd {
                idom[b] = nd;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let dom = |a: usize, mut b: usize| loop {
        if a == b {
            return true;
        }
        if b == 0 {
            return false;
        }
        b = idom[b];
    };
    for (bi, b) in f.blocks.iter().enumerate() {
        if !seen[bi] {
            // Unreachable blocks: only the phi rule.
            continue;
        }
        let mut pos = BTreeMap::new();
        let mut past_phi = false;
        let check = |v: V, pos: &BTreeMap<V, usize>, at: usize| -> std::result::Result<(), String> {
            let nd = f.nodes.get(v as usize).ok_or_else(|| format!("value {v} does not exist"))?;
            match nd.block {
                None => Ok(()),
                Some(d) if d as usize == bi => match pos.get(&v) {
                    Some(p) if *p < at => Ok(()),
                    _ => Err(format!("%{v} used before its definition in block {bi}")),
                },
                Some(d) => {
                    if seen[d as usize] && dom(d as usize, bi) {
                        Ok(())
                    } else {
                        Err(format!("definition of %{v} (block {d}) does not dominate its use in block {bi}"))
                    }
                }
            }
        };
        for (at, &v) in b.insts.iter().enumerate() {
            match &f.nodes[v as usize].op {
                Op::Phi(inc) => {
                    if past_phi {
                        return Err(format!("phi %{v} is not at the top of block {bi}"));
                    }
                    let mut a: Vec<Bl> = inc.iter().map(|x| x.1).collect();
                    let mut p = preds[bi].clone();
                    a.sort();
                    a.dedup();
                    p.sort();
                    p.dedup();
                    if a != p {
                        return Err(format!("phi %{v} of block {bi} lists {a:?}, predecessors are {p:?}"));
                    }
                    for (x, from) in inc {
                        if let Some(d) = f.nodes[*x as usize].block
                            && seen[*from as usize]
                            && !(seen[d as usize] && dom(d as usize, *from as usize))
                        {
                            return Err(format!("phi %{v}: %{x} does not dominate predecessor {from}"));
                        }
                    }
                }
                op => {
                    past_phi = true;
                    for x in operands(op) {
                        check(x, &pos, at)?;
                    }
                }
            }
            pos.insert(v, at);
        }
        let at = b.insts.len();
        match b.term.as_ref().unwrap() {
            Term::BrIf(v, ..) | Term::Switch(v, ..) | Term::Ret(Some(v)) => check(*v, &pos, at)?,
            _ => {}
        }
        if let Term::Switch(_, _, t) = b.term.as_ref().unwrap() {
            let mut k: Vec<u64> = t.iter().map(|x| x.0).collect();
            k.sort();
            let n = k.len();
            k.dedup();
            if k.len() != n {
                return Err(format!("switch of block {bi} has duplicate cases"));
            }
        }
    }
    Ok(())
}

pub fn operands(op: &Op) -> Vec<V> {
    match op {
        Op::Param(_) | Op::Const(_) | Op::Str(_) | Op::SlotAddr(_) => vec![],
        Op::Bin(_, a, b) | Op::Cmp(_, a, b) => vec![*a, *b],
        Op::Select(a, b, c) => vec![*a, *b, *c],
        Op::Bswap(a) | Op::Clz(a) | Op::Zext(a) | Op::Sext(a) | Op::Trunc(a) | Op::IntToPtr(a) | Op::Load(a)
        | Op::Assume(a) => vec![*a],
        Op::Phi(i) => i.iter().map(|x| x.0).collect(),
        Op::Store { val, ptr } => vec![*val, *ptr],
        Op::Gep { ptr, idx, .. } => vec![*ptr, *idx],
        Op::Memcpy { dst, src, len } => vec![*dst, *src, *len],
        Op::Call { args, .. } => args.clone(),
    }
}

pub fn mask(bits: u32, v: U256) -> U256 {
    if bits >= 256 { v } else { v & ((U256::from(1) << bits as usize) - U256::from(1)) }
}

impl Bld<'_> {
    fn with<R>(&self, g: impl FnOnce(&mut Func) -> R) -> R {
        g(&mut self.m.borrow_mut().funcs[self.f])
    }
    fn ty(&self, v: V) -> Ty {
        self.with(|f| f.nodes[v as usize].ty)
    }
    fn emit(&mut self, op: Op, ty: Ty) -> V {
        let cur = self.cur.expect("MALFORMED-IR: no current block");
        self.with(|f| {
            assert!(
                f.blocks[cur as usize].term.is_none(),
                "MALFORMED-IR: instruction {op:?} after the terminator of block {cur}"
            );
            let id = f.nodes.len() as V;
            f.nodes.push(Node { op, ty, block: Some(cur) });
            f.blocks[cur as usize].insts.push(id);
            id
        })
    }
    fn konst(&mut self, bits: u32, v: U256) -> V {
        let v = mask(bits, v);
        self.with(|f| {
            if let Some(c) = f.consts.get(&(bits, v)) {
                return *c;
            }
            let id = f.nodes.len() as V;
            f.nodes.push(Node { op: Op::Const(v), ty: Ty::Int(bits), block: None });
            f.consts.insert((bits, v), id);
            id
        })
    }
    fn term(&mut self, t: Term) {
        let cur = self.cur.expect("MALFORMED-IR: no current block");
        self.with(|f| {
            let b = &mut f.blocks[cur as usize];
            assert!(b.term.is_none(), "MALFORMED-IR: second terminator in block {cur} ({})", b.name);
            b.term = Some(t);
        })
    }
    fn int(&self, v: V) -> u32 {
        match self.ty(v) {
            Ty::Int(b) => b,
            t => panic!("MALFORMED-IR: integer expected, got {t:?}"),
        }
    }
    fn bin(&mut self, op: Bin, a: V, b: V) -> V {
        let (x, y) = (self.int(a), self.int(b));
        assert!(x == y, "MALFORMED-IR: {op:?} of i{x} and i{y}");
        let ty = if matches!(op, Bin::UAddO | Bin::USubO) { Ty::Int(1) } else { Ty::Int(x) };
        self.emit(Op::Bin(op, a, b), ty)
    }
    fn imm(&mut self, like: V, v: i64) -> V {
        let ty = self.ty(like);
        self.iconst(ty, v)
    }
}

impl Builder for Bld<'_> {
    fn create_block(&mut self, name: &str) -> Bl {
        self.with(|f| {
            f.blocks.push(Block { name: name.into(), ..Default::default() });
            f.blocks.len() as Bl - 1
        })
    }
    fn create_block_after(&mut self, _: Bl, name: &str) -> Bl {
        self.create_block(name)
    }
    fn switch_to_block(&mut self, block: Bl) {
        self.cur = Some(block);
    }
    fn seal_block(&mut self, _: Bl) {}
    fn seal_all_blocks(&mut self) {}
    fn set_current_block_cold(&mut self) {}
    fn current_block(&mut self) -> Option<Bl> {
        self.cur
    }
    fn block_addr(&mut self, _: Bl) -> Option<V> {
        None
    }
    fn add_comment_to_current_inst(&mut self, _: &str) {}
    fn fn_param(&mut self, i: usize) -> V {
        i as V
    }
    fn num_fn_params(&self) -> usize {
        self.with(|f| f.params.len())
    }
    fn bool_const(&mut self, v: bool) -> V {
        self.konst(1, U256::from(v))
    }
    fn iconst(&mut self, ty: Ty, v: i64) -> V {
        let x = if v < 0 { U256::MAX - U256::from(!(v as u64)) } else { U256::from(v as u64) };
        match ty {
            Ty::Int(b) => self.konst(b, x),
            t => panic!("MALFORMED-IR: iconst of {t:?}"),
        }
    }
    fn uconst(&mut self, ty: Ty, v: u64) -> V {
        match ty {
            Ty::Int(b) => self.konst(b, U256::from(v)),
            t => panic!("MALFORMED-IR: uconst of {t:?}"),
        }
    }
    fn iconst_256(&mut self, value: impl TryInto<U256>) -> V {
        let Ok(v) = value.try_into() else { panic!("MALFORMED-IR: iconst_256") };
        self.konst(256, v)
    }
    fn str_const(&mut self, value: &str) -> V {
        let s: &'static str = Box::leak(format!("{value}\0").into_boxed_str());
        self.with(|f| {
            f.nodes.push(Node { op: Op::Str(s), ty: Ty::Ptr, block: None });
            f.nodes.len() as V - 1
        })
    }
    fn nullptr(&mut self) -> V {
        self.with(|f| {
            f.nodes.push(Node { op: Op::Const(U256::ZERO), ty: Ty::Ptr, block: None });
            f.nodes.len() as V - 1
        })
    }
    fn new_stack_slot_raw(&mut self, ty: Ty, _: &str) -> usize {
        self.with(|f| {
            f.slots.push(ty);
            f.slots.len() - 1
        })
    }
    fn stack_load(&mut self, ty: Ty, slot: usize, name: &str) -> V {
        let p = self.stack_addr(ty, slot);
        self.load(ty, p, name)
    }
    fn stack_store(&mut self, value: V, slot: usize) {
        let p = self.stack_addr(Ty::Ptr, slot);
        self.store(value, p)
    }
    fn stack_addr(&mut self, _: Ty, slot: usize) -> V {
        self.with(|f| {
            f.nodes.push(Node { op: Op::SlotAddr(slot), ty: Ty::Ptr, block: None });
            f.nodes.len() as V - 1
        })
    }
    fn load(&mut self, ty: Ty, ptr: V, _: &str) -> V {
        assert!(self.ty(ptr) == Ty::Ptr, "MALFORMED-IR: load from a non-pointer");
        self.emit(Op::Load(ptr), ty)
    }
    fn load_aligned(&mut self, ty: Ty, ptr: V, _: usize, name: &str) -> V {
        self.load(ty, ptr, name)
    }
    fn store(&mut self, val: V, ptr: V) {
        assert!(self.ty(ptr) == Ty::Ptr, "MALFORMED-IR: store to a non-pointer");
        self.emit(Op::Store { val, ptr }, Ty::Void);
    }
    fn store_aligned(&mut self, value: V, ptr: V, _: usize) {
        self.store(value, ptr)
    }
    fn nop(&mut self) {}
    fn ret(&mut self, values: &[V]) {
        self.term(Term::Ret(values.first().copied()))
    }
    fn assume(&mut self, cond: V) {
        self.emit(Op::Assume(cond), Ty::Void);
    }
    fn icmp(&mut self, cond: IntCC, a: V, b: V) -> V {
        let (x, y) = (self.ty(a), self.ty(b));
        assert!(x == y, "MALFORMED-IR: icmp of {x:?} and {y:?}");
        self.emit(Op::Cmp(cond, a, b), Ty::Int(1))
    }
    fn icmp_imm(&mut self, cond: IntCC, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.icmp(cond, a, b)
    }
    fn is_null(&mut self, ptr: V) -> V {
        let z = self.nullptr();
        self.icmp(IntCC::Equal, ptr, z)
    }
    fn is_not_null(&mut self, ptr: V) -> V {
        let z = self.nullptr();
        self.icmp(IntCC::NotEqual, ptr, z)
    }
    fn br(&mut self, dest: Bl) {
        self.term(Term::Br(dest))
    }
    fn brif(&mut self, cond: V, a: Bl, b: Bl) {
        assert!(self.ty(cond) == Ty::Int(1), "MALFORMED-IR: branch on {:?}", self.ty(cond));
        self.term(Term::BrIf(cond, a, b))
    }
    fn switch(&mut self, index: V, default: Bl, targets: &[(u64, Bl)], _: bool) {
        let bits = self.int(index);
        // `const_int(v)` truncates to the type of the index.
        let t = targets.iter().map(|(v, b)| (if bits < 64 { v & ((1 << bits) - 1) } else { *v }, *b)).collect();
        self.term(Term::Switch(index, default, t))
    }
    fn br_indirect(&mut self, _: V, _: &[Bl]) {
        unimplemented!("br_indirect")
    }
    fn phi(&mut self, ty: Ty, incoming: &[(V, Bl)]) -> V {
        for (v, _) in incoming {
            assert!(self.ty(*v) == ty, "MALFORMED-IR: phi of {ty:?} with {:?}", self.ty(*v));
        }
        self.emit(Op::Phi(incoming.to_vec()), ty)
    }
    fn select(&mut self, c: V, a: V, b: V) -> V {
        let ty = self.ty(a);
        assert!(self.ty(c) == Ty::Int(1) && ty == self.ty(b), "MALFORMED-IR: select");
        self.emit(Op::Select(c, a, b), ty)
    }
    fn iadd(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Add, a, b)
    }
    fn isub(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Sub, a, b)
    }
    fn imul(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Mul, a, b)
    }
    fn udiv(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UDiv, a, b)
    }
    fn sdiv(&mut self, a: V, b: V) -> V {
        self.bin(Bin::SDiv, a, b)
    }
    fn urem(&mut self, a: V, b: V) -> V {
        self.bin(Bin::URem, a, b)
    }
    fn srem(&mut self, a: V, b: V) -> V {
        self.bin(Bin::SRem, a, b)
    }
    fn iadd_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.iadd(a, b)
    }
    fn isub_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.isub(a, b)
    }
    fn imul_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.imul(a, b)
    }
    fn uadd_overflow(&mut self, a: V, b: V) -> (V, V) {
        (self.bin(Bin::Add, a, b), self.bin(Bin::UAddO, a, b))
    }
    fn usub_overflow(&mut self, a: V, b: V) -> (V, V) {
        (self.bin(Bin::Sub, a, b), self.bin(Bin::USubO, a, b))
    }
    fn uadd_sat(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UAddSat, a, b)
    }
    fn umax(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UMax, a, b)
    }
    fn umin(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UMin, a, b)
    }
    fn bswap(&mut self, v: V) -> V {
        let ty = Ty::Int(self.int(v));
        assert!(ty.bits() % 16 == 0, "MALFORMED-IR: bswap of {ty:?}");
        self.emit(Op::Bswap(v), ty)
    }
    fn bitor(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Or, a, b)
    }
    fn bitand(&mut self, a: V, b: V) -> V {
        self.bin(Bin::And, a, b)
    }
    fn bitxor(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Xor, a, b)
    }
    fn bitnot(&mut self, v: V) -> V {
        let m = self.imm(v, -1);
        self.bitxor(v, m)
    }
    fn clz(&mut self, v: V) -> V {
        let ty = Ty::Int(self.int(v));
        self.emit(Op::Clz(v), ty)
    }
    fn bitor_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.bitor(a, b)
    }
    fn bitand_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.bitand(a, b)
    }
    fn bitxor_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.bitxor(a, b)
    }
    fn ishl(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Shl, a, b)
    }
    fn ushr(&mut self, a: V, b: V) -> V {
        self.bin(Bin::LShr, a, b)
    }
    fn sshr(&mut self, a: V, b: V) -> V {
        self.bin(Bin::AShr, a, b)
    }
    fn zext(&mut self, ty: Ty, v: V) -> V {
        let from = self.int(v);
        if ty.bits() == from {
            return v;
        }
        assert!(ty.bits() > from, "MALFORMED-IR: zext");
        self.emit(Op::Zext(v), ty)
    }
    fn sext(&mut self, ty: Ty, v: V) -> V {
        let from = self.int(v);
        if ty.bits() == from {
            return v;
        }
        assert!(ty.bits() > from, "MALFORMED-IR: sext");
        self.emit(Op::Sext(v), ty)
    }
    fn ireduce(&mut self, ty: Ty, v: V) -> V {
        let from = self.int(v);
        if ty.bits() == from {
            return v;
        }
        assert!(ty.bits() < from, "MALFORMED-IR: trunc");
        self.emit(Op::Trunc(v), ty)
    }
    fn inttoptr(&mut self, v: V, ty: Ty) -> V {
        assert!(ty == Ty::Ptr);
        self.int(v);
        self.emit(Op::IntToPtr(v), Ty::Ptr)
    }
    fn gep(&mut self, ty: Ty, ptr: V, indexes: &[V], _: &str) -> V {
        assert!(self.ty(ptr) == Ty::Ptr, "MALFORMED-IR: gep");
        assert!(indexes.len() == 1, "gep with {} indexes", indexes.len());
        self.int(indexes[0]);
        self.emit(Op::Gep { ptr, scale: ty.bytes(), idx: indexes[0] }, Ty::Ptr)
    }
    fn tail_call(&mut self, function: usize, args: &[V], _: TailCallKind) -> Option<V> {
        let (params, ret) = {
            let m = self.m.borrow();
            (m.funcs[function].params.clone(), m.funcs[function].ret)
        };
        assert!(params.len() == args.len(), "MALFORMED-IR: argument count");
        for (p, a) in params.iter().zip(args) {
            assert!(*p == self.ty(*a), "MALFORMED-IR: argument type {:?} for {p:?}", self.ty(*a));
        }
        let v = self.emit(Op::Call { f: function, args: args.to_vec() }, ret.unwrap_or(Ty::Void));
        ret.map(|_| v)
    }
    fn is_compile_time_known(&mut self, _: V) -> Option<V> {
        None
    }
    fn memcpy(&mut self, dst: V, src: V, len: V) {
        self.emit(Op::Memcpy { dst, src, len }, Ty::Void);
    }
    fn unreachable(&mut self) {
        self.term(Term::Unreachable)
    }
    fn get_or_build_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        _: Linkage,
        build: impl FnOnce(&mut Self),
    ) -> usize {
        if let Some(f) = self.get_function(name) {
            return f;
        }
        let f = new_func(&self.m, name, params, ret, None);
        let mut b = start(&self.m, f);
        build(&mut b);
        f
    }
    fn get_function(&mut self, name: &str) -> Option<usize> {
        self.m.borrow().funcs.iter().position(|f| f.name == name)
    }
    fn get_printf_function(&mut self) -> usize {
        unimplemented!("printf")
    }
    fn add_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        address: Option<usize>,
        _: Linkage,
        _: CallConv,
    ) -> usize {
        new_func(&self.m, name, params, ret, address)
    }
    fn add_function_attribute(&mut self, function: Option<usize>, a: Attribute, loc: FunctionAttributeLocation) {
        let f = function.unwrap_or(self.f);
        self.m.borrow_mut().funcs[f].attrs.push((loc, a));
    }
}
