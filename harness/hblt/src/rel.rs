use crate::verif_support::*;
use revm_context_interface::{
    cfg::GasParams,
    context::{SStoreResult, SelfDestructResult, StateLoad},
    host::LoadError,
    journaled_state::AccountInfoLoad,
};
use revm_interpreter::{
    CallInput, Gas, Host, InputsImpl, InstructionContext, InstructionResult, Interpreter, InterpreterAction, SharedMemory,
    interpreter::RuntimeFlags,
    interpreter_types::{Immediates, InterpreterTypes, Jumps, LegacyBytecode, LoopControl, ReturnData, StackTr},
};
use revm_primitives::{Address, B256, Bytes, Log, U256, hardfork::SpecId};
use revm_state::AccountInfo;
use revmc_context::{EvmContext, EvmWord, ResumeAt};
use std::sync::Arc;

pub fn u256() -> U256 {
    U256::from_limbs([any(), any(), any(), any()])
}
pub fn address() -> Address {
    let (a, b, c): (u64, u64, u32) = (any(), any(), any());
    let mut r = [0u8; 20];
    r[..8].copy_from_slice(&a.to_be_bytes());
    r[8..16].copy_from_slice(&b.to_be_bytes());
    r[16..].copy_from_slice(&c.to_be_bytes());
    Address::new(r)
}
pub fn spec() -> SpecId {
    let s: u8 = any();
    assume(s < 15);
    SpecId::try_from_u8(s).unwrap()
}

/// One call of the host: which, with what.
#[derive(Clone, Copy)]
pub struct Ev {
    pub kind: u8,
    pub addr: Address,
    pub addr2: Address,
    pub a: U256,
    pub b: U256,
    pub flag: bool,
    pub code: bool,
}
const EV0: Ev = Ev { kind: 0, addr: Address::ZERO, addr2: Address::ZERO, a: U256::ZERO, b: U256::ZERO, flag: false, code: false };

/// What the host answers; chosen once, the same for both sides.
pub struct Answers {
    pub words: [U256; 3],
    pub acc: [AccountInfo; 2],
    pub cold: [bool; 2],
    pub empty: [bool; 2],
    pub dberr: [bool; 2],
    pub some: bool,
    pub sd: [bool; 3],
    pub eip8037: bool,
    pub max_initcode: usize,
    pub gas_params: GasParams,
    pub deleg: (u64, u64),
    pub code: revm_bytecode::Bytecode,
}

/// A host that answers as told and records what it was asked.  A cold item is refused exactly when the caller asked to skip it.
pub struct H {
    pub ans: &'static Answers,
    pub evs: [Ev; 4],
    pub n: usize,
    pub loads: usize,
    pub log: Option<Log>,
}

impl H {
    pub fn new(ans: &Answers) -> Self {
        H { ans: unsafe { &*(ans as *const Answers) }, evs: [EV0; 4], n: 0, loads: 0, log: None }
    }
    fn ev(&mut self, e: Ev) {
        assert!(self.n < 4, "unexpected number of host calls");
        self.evs[self.n] = e;
        self.n += 1;
    }
    fn load(&mut self, skip: bool) -> Result<usize, LoadError> {
        let k = if self.loads == 0 { 0 } else { 1 };
        self.loads += 1;
        if self.ans.dberr[k] {
            return Err(LoadError::DBError);
        }
        if self.ans.cold[k] && skip {
            return Err(LoadError::ColdLoadSkipped);
        }
        Ok(k)
    }
}

impl Host for H {
    fn basefee(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(1)) }
    fn blob_gasprice(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(2)) }
    fn gas_limit(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(3)) }
    fn difficulty(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(4)) }
    fn prevrandao(&self) -> Option<U256> { Some(self.ans.words[0].wrapping_add(U256::from(5))) }
    fn block_number(&self) -> U256 { self.ans.words[0] }
    fn timestamp(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(6)) }
    fn beneficiary(&self) -> Address { self.ans.acc_addr(0) }
    fn slot_num(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(7)) }
    fn chain_id(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(8)) }
    fn effective_gas_price(&self) -> U256 { self.ans.words[0].wrapping_add(U256::from(9)) }
    fn caller(&self) -> Address { self.ans.acc_addr(1) }
    fn blob_hash(&self, number: usize) -> Option<U256> {
        self.ans.some.then(|| self.ans.words[1].wrapping_add(U256::from(number)))
    }
    fn max_initcode_size(&self) -> usize { self.ans.max_initcode }
    fn gas_params(&self) -> &GasParams { &self.ans.gas_params }
    fn is_amsterdam_eip8037_enabled(&self) -> bool { self.ans.eip8037 }
    fn block_hash(&mut self, number: u64) -> Option<B256> {
        self.ev(Ev { kind: 1, a: U256::from(number), ..EV0 });
        self.ans.some.then(|| B256::new(self.ans.words[1].to_be_bytes()))
    }
    fn selfdestruct(&mut self, address: Address, target: Address, skip: bool) -> Result<StateLoad<SelfDestructResult>, LoadError> {
        self.ev(Ev { kind: 2, addr: address, addr2: target, flag: skip, ..EV0 });
        let k = self.load(skip)?;
        let d = self.ans.sd;
        Ok(StateLoad::new(SelfDestructResult { had_value: d[0], target_exists: d[1], previously_destroyed: d[2] }, self.ans.cold[k]))
    }
    fn log(&mut self, log: Log) {
        self.ev(Ev { kind: 3, addr: log.address, ..EV0 });
        self.log = Some(log);
    }
    fn sstore_skip_cold_load(&mut self, address: Address, key: U256, value: U256, skip: bool) -> Result<StateLoad<SStoreResult>, LoadError> {
        self.ev(Ev { kind: 4, addr: address, a: key, b: value, flag: skip, ..EV0 });
        let k = self.load(skip)?;
        let w = self.ans.words;
        Ok(StateLoad::new(SStoreResult { original_value: w[0], present_value: w[1], new_value: value }, self.ans.cold[k]))
    }
    fn sload_skip_cold_load(&mut self, address: Address, key: U256, skip: bool) -> Result<StateLoad<U256>, LoadError> {
        self.ev(Ev { kind: 5, addr: address, a: key, flag: skip, ..EV0 });
        let k = self.load(skip)?;
        Ok(StateLoad::new(self.ans.words[0], self.ans.cold[k]))
    }
    fn tstore(&mut self, address: Address, key: U256, value: U256) {
        self.ev(Ev { kind: 6, addr: address, a: key, b: value, ..EV0 });
    }
    fn tload(&mut self, address: Address, key: U256) -> U256 {
        self.ev(Ev { kind: 7, addr: address, a: key, ..EV0 });
        self.ans.words[0]
    }
    fn load_account_info_skip_cold_load(&mut self, address: Address, load_code: bool, skip: bool) -> Result<AccountInfoLoad<'_>, LoadError> {
        self.ev(Ev { kind: 8, addr: address, flag: skip, code: load_code, ..EV0 });
        let k = self.load(skip)?;
        Ok(AccountInfoLoad::new(&self.ans.acc[k], self.ans.cold[k], self.ans.empty[k]))
    }
}

impl Answers {
    fn acc_addr(&self, k: usize) -> Address {
        Address::from_word(B256::new(self.words[1 + k].to_be_bytes()))
    }
    /// Any answers; the gas schedule is any table of 32-bit entries, with the two divisors as they are in every schedule.
    pub fn any() -> Self {
        #[cfg(kani)]
        let mut t = [0u64; 64];
        #[cfg(not(kani))]
        let mut t = [0u64; 256];
        let mut i = 0;
        while i < 48 {
            t[i] = any::<u32>() as u64;
            i += 1;
        }
        use revm_context_interface::cfg::GasId;
        t[GasId::call_stipend_reduction().as_usize()] = 64;
        t[GasId::memory_quadratic_reduction().as_usize()] = 512;
        #[cfg(not(kani))]
        {
            t[GasId::memory_linear_cost().as_usize()] = 3;
        }
        unsafe {
            let mut i = 0;
            while i < 48 {
                TABLE[i] = t[i];
                i += 1;
            }
            COST = [(any(), any()), (any(), any()), (any(), any())];
        }
        let acc = || AccountInfo { balance: u256(), nonce: any(), code_hash: B256::new(u256().to_be_bytes()), account_id: None, code: None };
        Answers {
            words: [u256(), u256(), u256()],
            acc: [acc(), acc()],
            cold: [any(), any()],
            empty: [any(), any()],
            dberr: [any(), any()],
            some: any(),
            sd: [any(), any(), any()],
            eip8037: any(),
            max_initcode: any(),
            #[cfg(kani)]
            gas_params: GasParams::new(Arc::new([0; 256])),
            #[cfg(not(kani))]
            gas_params: GasParams::new(Arc::new(t)),
            deleg: (any(), any()),
            code: revm_bytecode::Bytecode::new_eip7702(Address::ZERO),
        }
    }
}

/// Everything the frame is, apart from the host.
pub struct Frame {
    pub gas: Gas,
    pub spec: SpecId,
    pub is_static: bool,
    pub input: InputsImpl,
}
impl Frame {
    pub fn any() -> Self {
        let limit: u64 = any();
        // Without the stubs memory really grows: keep it affordable.
        #[cfg(not(kani))]
        let limit = limit % 3_000_000;
        let mut gas = Gas::new_with_regular_gas_and_reservoir(limit, any::<u32>() as u64);
        let spent: u64 = any();
        assume(gas.record_regular_cost(spent));
        gas.record_refund(any::<i32>() as i64);
        gas.set_state_gas_spent(any::<u32>() as i64);
        Frame {
            gas,
            spec: spec(),
            is_static: any(),
            input: InputsImpl {
                target_address: address(),
                bytecode_address: None,
                caller_address: address(),
                input: CallInput::Bytes(Bytes::new()),
                call_value: u256(),
            },
        }
    }
}

/// revm's instructions are generic in the interpreter's parts: a stack of eight words keeps the state small.
pub struct Wire;
impl InterpreterTypes for Wire {
    type Stack = Small;
    type Memory = SharedMemory;
    type Bytecode = Code;
    type ReturnData = Ret;
    type Input = InputsImpl;
    type RuntimeFlag = RuntimeFlags;
    type Extend = ();
    type Output = InterpreterAction;
}
pub struct Code {
    pub action: Option<InterpreterAction>,
    pub code: &'static [u8],
}
impl LoopControl for Code {
    fn is_not_end(&self) -> bool { self.action.is_none() }
    fn reset_action(&mut self) { self.action = None }
    fn set_action(&mut self, action: InterpreterAction) { self.action = Some(action) }
    fn action(&mut self) -> &mut Option<InterpreterAction> { &mut self.action }
}
impl Jumps for Code {
    fn relative_jump(&mut self, _: isize) {}
    fn absolute_jump(&mut self, _: usize) {}
    fn is_valid_legacy_jump(&mut self, _: usize) -> bool { false }
    fn pc(&self) -> usize { 0 }
    fn opcode(&self) -> u8 { 0 }
}
impl Immediates for Code {
    fn read_u16(&self) -> u16 { 0 }
    fn read_u8(&self) -> u8 { 0 }
    fn read_offset_u16(&self, _: isize) -> u16 { 0 }
    fn read_slice(&self, _: usize) -> &[u8] { &[] }
}
impl LegacyBytecode for Code {
    fn bytecode_len(&self) -> usize { self.code.len() }
    fn bytecode_slice(&self) -> &[u8] { self.code }
}
#[derive(Default)]
pub struct Ret(pub Bytes);
impl ReturnData for Ret {
    fn buffer(&self) -> &Bytes { &self.0 }
    fn set_buffer(&mut self, b: Bytes) { self.0 = b }
}
pub struct Small {
    pub w: [U256; 8],
    pub n: usize,
}
impl StackTr for Small {
    fn len(&self) -> usize { self.n }
    fn data(&self) -> &[U256] { &self.w[..self.n] }
    fn clear(&mut self) { self.n = 0 }
    fn push(&mut self, v: U256) -> bool {
        if self.n == 8 { return false }
        self.w[self.n] = v;
        self.n += 1;
        true
    }
    fn push_slice(&mut self, _: &[u8]) -> bool { false }
    fn popn<const N: usize>(&mut self) -> Option<[U256; N]> {
        if self.n < N { return None }
        let mut r = [U256::ZERO; N];
        let mut i = 0;
        while i < N {
            self.n -= 1;
            r[i] = self.w[self.n];
            i += 1;
        }
        Some(r)
    }
    fn popn_top<const P: usize>(&mut self) -> Option<([U256; P], &mut U256)> {
        if self.n < P + 1 { return None }
        let r = self.popn::<P>()?;
        Some((r, &mut self.w[self.n - 1]))
    }
    fn exchange(&mut self, _: usize, _: usize) -> bool { false }
    fn dup(&mut self, _: usize) -> bool { false }
}

/// What the instruction of revm-interpreter did: the ghost state the builtin is held to.
pub struct Want {
    pub grow: [(usize, usize); 3],
    pub ngrow: usize,
    pub deleg: Ev,
    pub mem: SharedMemory,
    pub res: Result<(), InstructionResult>,
    pub gas: Gas,
    pub evs: [Ev; 4],
    pub n: usize,
    pub log: Option<Log>,
    pub top: U256,
    pub action: Option<InterpreterAction>,
}
static mut WANT: Option<Want> = None;
static mut HOST: *const H = core::ptr::null();

fn want() -> &'static mut Want {
    unsafe { WANT.as_mut().unwrap() }
}

fn same(a: &U256, b: &U256) -> bool {
    let k: usize = any::<u8>() as usize % 4;
    a.as_limbs()[k] == b.as_limbs()[k]
}
fn same_gas(a: &Gas, b: &Gas) -> bool {
    a.limit() == b.limit() && a.remaining() == b.remaining() && a.refunded() == b.refunded() && a.reservoir() == b.reservoir() && a.state_gas_spent() == b.state_gas_spent()
}
fn same_host(w: &Want) {
    let h = unsafe { &*HOST };
    assert!(h.n == w.n, "the same number of host calls");
    let i: usize = any::<u8>() as usize % 4;
    same_ev(&h.evs[i], &w.evs[i]);
    match (&h.log, &w.log) {
        (None, None) => {}
        (Some(a), Some(b)) => same_log(a, b),
        _ => assert!(false, "a log exactly when the instruction logs"),
    }
    unsafe {
        same_ev(&DELEG, &w.deleg);
        assert!(NGROW == w.ngrow && GROW[i % 3] == w.grow[i % 3], "the same memory growth");
    }
}
fn same_log(a: &Log, b: &Log) {
    assert!(same_address(&a.address, &b.address), "the address of the log");
    let (t, u) = (a.data.topics(), b.data.topics());
    assert!(t.len() == u.len(), "the number of topics");
    let (i, k): (usize, usize) = (any::<u8>() as usize % 4, any::<u8>() as usize % 32);
    if i < t.len() {
        assert!(t[i].0[k] == u[i].0[k], "the topics in their order");
    }
    same_bytes(&a.data.data, &b.data.data);
}
fn same_address(a: &Address, b: &Address) -> bool {
    let k: usize = any::<u8>() as usize % 20;
    a.0.0[k] == b.0.0[k]
}
fn same_bytes(a: &[u8], b: &[u8]) {
    assert!(a.len() == b.len(), "the length of the data");
    let k: usize = any();
    if k < a.len() {
        assert!(a[k] == b[k], "the bytes of the data");
    }
}
fn same_action(a: &Option<InterpreterAction>, b: &Option<InterpreterAction>) {
    use InterpreterAction::*;
    use revm_interpreter::FrameInput::*;
    match (a, b) {
        (None, None) => {}
        (Some(Return(a)), Some(Return(b))) => {
            assert!(a.result == b.result && same_gas(&a.gas, &b.gas), "the result and gas of the frame");
            same_bytes(&a.output, &b.output);
        }
        (Some(NewFrame(Create(a))), Some(NewFrame(Create(b)))) => {
            assert!(same_address(&a.caller(), &b.caller()), "the creator");
            assert!(same(&a.value(), &b.value()), "the endowment");
            assert!(a.gas_limit() == b.gas_limit() && a.reservoir() == b.reservoir(), "the gas of the new frame");
            use revm_context_interface::CreateScheme::*;
            match (a.scheme(), b.scheme()) {
                (Create, Create) => {}
                (Create2 { salt: s }, Create2 { salt: t }) => assert!(same(&s, &t), "the salt"),
                _ => assert!(false, "the creation scheme"),
            }
            same_bytes(a.init_code(), b.init_code());
        }
        (Some(NewFrame(Call(a))), Some(NewFrame(Call(b)))) => {
            assert!(same_address(&a.target_address, &b.target_address), "the target");
            assert!(same_address(&a.caller, &b.caller), "the caller");
            assert!(same_address(&a.bytecode_address, &b.bytecode_address), "the code address");
            assert!(a.gas_limit == b.gas_limit && a.reservoir == b.reservoir, "the gas of the new frame");
            assert!(a.is_static == b.is_static && a.scheme == b.scheme, "static and scheme");
            assert!(a.charged_new_account_state_gas == b.charged_new_account_state_gas, "the state gas mark");
            assert!(a.return_memory_offset == b.return_memory_offset, "where the answer goes");
            use revm_interpreter::CallValue::*;
            match (&a.value, &b.value) {
                (Transfer(x), Transfer(y)) | (Apparent(x), Apparent(y)) => assert!(same(x, y), "the value"),
                _ => assert!(false, "the kind of value"),
            }
            match (&a.input, &b.input) {
                (CallInput::SharedBuffer(x), CallInput::SharedBuffer(y)) => assert!(x == y, "the input range"),
                _ => assert!(false, "the kind of input"),
            }
            let k: usize = any::<u8>() as usize % 32;
            assert!(a.known_bytecode.0.0[k] == b.known_bytecode.0.0[k], "the code hash");
            let (c, d) = (a.known_bytecode.1.original_byte_slice(), b.known_bytecode.1.original_byte_slice());
            assert!(c.as_ptr() == d.as_ptr() && c.len() == d.len(), "the code");
        }
        _ => assert!(false, "the action of the instruction"),
    }
}
fn same_ev(a: &Ev, b: &Ev) {
    assert!(a.kind == b.kind, "the same host call");
    assert!(same_address(&a.addr, &b.addr) && same_address(&a.addr2, &b.addr2), "on the same account");
    assert!(same(&a.a, &b.a) && same(&a.b, &b.b), "with the same key and value");
    assert!(a.flag == b.flag && a.code == b.code, "with the same options");
}

/// The builtin left through the exit path.
pub fn exited(ecx: &EvmContext<'_>, res: InstructionResult) {
    let w = want();
    assert!(w.res == Err(res), "the exit of the instruction");
    same_host(w);
    if res.is_ok() || res.is_revert() {
        assert!(same_gas(&ecx.gas, &w.gas), "the gas of the instruction");
        same_action(ecx.next_action, &w.action);
    }
}

#[cfg(kani)]
pub unsafe extern "C" fn exit(ecx: *const EvmContext<'_>) -> ! {
    let ecx = unsafe { &*ecx };
    exited(ecx, ecx.exit_result);
    assume(false);
    loop {}
}

/// Memory is not given back: only keeps the freeing of unreachable owners out of the obligations.
#[cfg(kani)]
pub unsafe fn keep<T: ?Sized, A: std::alloc::Allocator>(_: &mut Arc<T, A>) {}

/// Assumed contract of revm-interpreter's memory growth, which both sides call: it charges a cost and succeeds or fails as a
/// function of its arguments and the history of such calls.  `ROOM` bounds what succeeds where contents are followed.
#[cfg(kani)]
pub fn grow<M: revm_interpreter::interpreter_types::MemoryTr>(gas: &mut Gas, _: &mut M, _: &GasParams, offset: usize, len: usize) -> Result<(), InstructionResult> {
    unsafe {
        let k = NGROW;
        assert!(k < 3, "unexpected number of memory growths");
        NGROW += 1;
        GROW[k] = (offset, len);
        let (cost, fails) = COST[k];
        if fails {
            return Err(InstructionResult::MemoryLimitOOG);
        }
        if !gas.record_regular_cost(cost) {
            return Err(InstructionResult::MemoryOOG);
        }
        assume(offset.checked_add(len).is_some_and(|e| e <= ROOM));
    }
    Ok(())
}
/// The schedule is read from a small array (the same values), so that reads of fixed entries stay cheap.
#[cfg(kani)]
pub fn param(_: &GasParams, id: revm_context_interface::cfg::GasId) -> u64 {
    unsafe { TABLE[id.as_usize()] }
}
#[allow(unused)]
static mut TABLE: [u64; 64] = [0; 64];
/// Assumed contract of revm-interpreter's delegated account load: an answer chosen freely, with the arguments recorded.
#[cfg(kani)]
pub fn delegated<HH: Host + ?Sized>(_: &mut HH, spec: SpecId, gas: u64, to: Address, value: bool, create: bool) -> Result<(u64, u64, revm_bytecode::Bytecode, B256), LoadError> {
    unsafe {
        DELEG = Ev { kind: 10 + spec as u8, addr: to, addr2: Address::ZERO, a: U256::from(gas), b: U256::ZERO, flag: value, code: create };
        let a = &*DANS;
        if a.dberr[0] {
            return Err(LoadError::DBError);
        }
        if a.cold[0] {
            return Err(LoadError::ColdLoadSkipped);
        }
        Ok((a.deleg.0, a.deleg.1, a.code.clone(), a.acc[0].code_hash))
    }
}
static mut GROW: [(usize, usize); 3] = [(0, 0); 3];
static mut NGROW: usize = 0;
#[allow(unused)]
pub static mut COST: [(u64, bool); 3] = [(0, false); 3];
#[allow(unused)]
pub static mut ROOM: usize = 0;
#[allow(unused)]
static mut DANS: *const Answers = core::ptr::null();
static mut DELEG: Ev = EV0;

#[cfg(not(kani))]
fn through_entry(ecx: &mut EvmContext<'_>, f: &mut dyn FnMut(&mut EvmContext<'_>)) -> bool {
    use std::{cell::Cell, ptr::NonNull};
    type F<'a> = &'a mut dyn FnMut(&mut EvmContext<'_>);
    thread_local!(static F: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) });
    thread_local!(static DONE: Cell<bool> = const { Cell::new(false) });
    unsafe extern "C" fn raw(ecx: NonNull<EvmContext<'_>>, _: NonNull<revmc_context::EvmStack>, _: NonNull<usize>) -> InstructionResult {
        unsafe {
            let f = &mut *(F.get() as *mut F<'_>);
            f(&mut *ecx.as_ptr());
        }
        DONE.set(true);
        InstructionResult::Stop
    }
    DONE.set(false);
    let mut f = f;
    F.set(&mut f as *mut _ as *mut ());
    let mut st = revmc_context::EvmStack::new();
    let r = unsafe { revmc_context::EvmCompilerFn::new(raw).call(&mut st, &mut 0, ecx) };
    if !DONE.get() {
        exited(ecx, r);
    }
    DONE.get()
}

/// Words, memory and data of the frame.
pub struct Data<const N: usize> {
    pub words: [U256; N],
    /// The frame's memory, of which the first `base` bytes belong to its parent.
    pub mem: &'static [u8],
    pub base: usize,
    pub ret: &'static [u8],
    pub code: &'static [u8],
    /// How far memory growth succeeds (where contents are followed).
    pub room: usize,
}
/// `base` bytes of a parent frame, then the frame's own memory.
fn memory(d: &[u8], base: usize) -> SharedMemory {
    let mut v = Vec::with_capacity(16);
    v.extend_from_slice(&d[..base]);
    let mut parent = SharedMemory::new_with_buffer(std::rc::Rc::new(core::cell::RefCell::new(v)));
    let mut m = parent.new_child_context();
    if d.len() > base {
        m.resize(d.len() - base);
        m.set(0, &d[base..]);
    }
    core::mem::forget(parent);
    m
}

pub fn relate<const N: usize, const OUT: bool>(
    fr: &Frame,
    ans: &Answers,
    d: &Data<N>,
    inst: fn(InstructionContext<'_, H, Wire>) -> Result<(), InstructionResult>,
    builtin: fn(&mut EvmContext<'_>, *mut EvmWord),
) {
    // The host's contract: since EIP-161 an account is reported empty exactly when it is.
    let mut i = 0;
    while i < 2 {
        if fr.spec.is_enabled_in(SpecId::SPURIOUS_DRAGON) {
            assume(ans.empty[i] == ans.acc[i].is_empty());
        }
        i += 1;
    }
    // The instruction.
    unsafe {
        DANS = ans;
        ROOM = d.room;
        NGROW = 0;
        GROW = [(0, 0); 3];
        DELEG = EV0;
    }
    let mut h = H::new(ans);
    let mut it = Interpreter::<Wire> {
        bytecode: Code { action: None, code: d.code },
        gas: fr.gas,
        stack: Small { w: [U256::ZERO; 8], n: N },
        return_data: Ret(Bytes::from_static(d.ret)),
        memory: memory(d.mem, d.base),
        input: fr.input.clone(),
        runtime_flag: RuntimeFlags { is_static: fr.is_static, spec_id: fr.spec },
        extend: (),
    };
    it.stack.w[..N].copy_from_slice(&d.words);
    let res = inst(InstructionContext { interpreter: &mut it, host: &mut h });
    // Which specification has which instruction is another property's business.
    assume(res != Err(InstructionResult::NotActivated));
    // Compiled code itself suspends after a call or create builtin.
    let res = if res == Err(InstructionResult::Suspend) { Ok(()) } else { res };
    unsafe { WANT = Some(Want { res, gas: it.gas, evs: h.evs, n: h.n, log: h.log, top: it.stack.w[0], action: it.bytecode.action, grow: GROW, ngrow: NGROW, deleg: DELEG, mem: it.memory }) };
    cover(res.is_ok(), "completes");
    cover(res.is_err(), "exits");
    core::mem::forget((it.input, it.return_data));

    // The builtin.
    unsafe {
        NGROW = 0;
        GROW = [(0, 0); 3];
        DELEG = EV0;
    }
    let mut h = H::new(ans);
    unsafe { HOST = &raw const h };
    let mut mem = memory(d.mem, d.base);
    let mut input = fr.input.clone();
    let mut action = None;
    let mut ws = [EvmWord::ZERO; 8];
    let mut i = 0;
    while i < N {
        ws[i] = d.words[i].into();
        i += 1;
    }
    let mut ecx = EvmContext {
        memory: &mut mem,
        input: &mut input,
        gas: fr.gas,
        host: &mut h,
        next_action: &mut action,
        return_data: d.ret,
        is_static: fr.is_static,
        spec_id: fr.spec,
        resume_at: ResumeAt::default(),
        bytecode: d.code as *const [u8],
        on_log: None,
        calldatasize: 0,
        exit_result: InstructionResult::Stop,
        exit_sp: core::ptr::null_mut(),
        gas_params: ans.gas_params.clone(),
        mem_base: core::ptr::null_mut(),
        mem_len: 0,
    };
    ecx.refresh_memory_cache();
    #[cfg(kani)]
    builtin(&mut ecx, ws.as_mut_ptr());
    #[cfg(not(kani))]
    {
        let p = ws.as_mut_ptr();
        if !through_entry(&mut ecx, &mut |e| builtin(e, p)) {
            return;
        }
    }
    let w = want();
    assert!(w.res.is_ok(), "completes only if the instruction completes");
    assert!(same_gas(&ecx.gas, &w.gas), "the gas of the instruction");
    same_host(w);
    same_action(ecx.next_action, &w.action);
    if OUT {
        assert!(same(&ws[0].to_u256(), &w.top), "the result of the instruction");
    }
    if d.mem.len() > 0 {
        same_bytes(&ecx.memory.context_memory(), &w.mem.context_memory());
        let m = ecx.memory.context_memory();
        assert!(ecx.mem_len == m.len() && ecx.mem_base as *const u8 == m.as_ptr(), "the cached view of the memory is current");
    }
    core::mem::forget(ecx);
    core::mem::forget((mem, input, h.log));
}

/// `rel! { name, words, has result, revm's instruction, |ecx, sp| builtin }`
macro_rules! rel {
    ($(#[$m:meta])* $name:ident, $n:literal, $out:literal, $inst:expr, |$e:ident, $sp:ident| $call:expr) => {
        harness! {
            #[kani::unwind(50)]
            #[kani::stub(revmc_context::revmc_exit, crate::rel::exit)]
            #[kani::stub(std::sync::Arc::drop_slow, crate::rel::keep)]
            #[kani::stub(revm_context_interface::cfg::GasParams::get, crate::rel::param)]
            #[kani::stub(revm_interpreter::interpreter::resize_memory, crate::rel::grow)]
            #[kani::stub(revm_interpreter::instructions::contract::load_account_delegated, crate::rel::delegated)]
            fn $name() {
                let fr = crate::rel::Frame::any();
                let ans = crate::rel::Answers::any();
                let mut words = [revm_primitives::U256::ZERO; $n];
                let mut i = 0;
                while i < $n {
                    words[i] = crate::rel::u256();
                    i += 1;
                }
                let d = crate::rel::Data { words, mem: &[], base: 0, ret: &[], code: &[], room: usize::MAX };
                crate::rel::relate::<$n, $out>(&fr, &ans, &d, $inst, |$e, $sp| unsafe { $call });
                #[cfg(kani)]
                core::mem::forget((fr, ans));
            }
        }
    };
}

/// A leaked buffer of `n` arbitrary bytes.
pub fn bytes(n: usize) -> &'static [u8] {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(any::<u8>());
        i += 1;
    }
    Vec::leak(v)
}
/// Four bytes of a parent frame, eight of the frame.
pub const BASE: usize = 4;
pub const MEM: usize = 8;

/// As `rel!`, with a memory of 8 arbitrary bytes above 4 of a parent frame, of which growth succeeds within the 8, and
/// 6 bytes each of calldata (own or in the parent's memory), return data and code.
macro_rules! relm {
    ($name:ident, $n:literal, $out:literal, $inst:expr, |$e:ident, $sp:ident| $call:expr) => {
        harness! {
            #[kani::unwind(50)]
            #[kani::stub(revmc_context::revmc_exit, crate::rel::exit)]
            #[kani::stub(std::sync::Arc::drop_slow, crate::rel::keep)]
            #[kani::stub(revm_context_interface::cfg::GasParams::get, crate::rel::param)]
            #[kani::stub(revm_interpreter::interpreter::resize_memory, crate::rel::grow)]
            fn $name() {
                let mut fr = crate::rel::Frame::any();
                let ans = crate::rel::Answers::any();
                let mut words = [revm_primitives::U256::ZERO; $n];
                let mut i = 0;
                while i < $n {
                    words[i] = crate::rel::u256();
                    i += 1;
                }
                let d = crate::rel::Data { words, mem: crate::rel::bytes(12), base: crate::rel::BASE, ret: crate::rel::bytes(6), code: crate::rel::bytes(6), room: crate::rel::MEM };
                fr.input.input = if any() {
                    revm_interpreter::CallInput::Bytes(revm_primitives::Bytes::from_static(d.code))
                } else {
                    revm_interpreter::CallInput::SharedBuffer(1..4)
                };
                crate::rel::relate::<$n, $out>(&fr, &ans, &d, $inst, |$e, $sp| unsafe { $call });
                #[cfg(kani)]
                core::mem::forget((fr, ans));
            }
        }
    };
}
