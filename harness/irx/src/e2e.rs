//! Runs one program through the real compiler (recorded IR, real builtins, real call wrapper) and through revm's
//! interpreter, and compares everything observable.

use crate::{host::*, interp, ir::Irx};
use revm_interpreter::{
    CallInput, FrameInput, Gas, InputsImpl, InstructionResult, Interpreter, InterpreterAction, SharedMemory,
    instructions::{gas_table_spec, instruction_table},
    interpreter::{EthInterpreter, ExtBytecode},
    interpreter_types::ReturnData,
};
use revm_primitives::{Bytes, U256, hardfork::SpecId};
use revmc_codegen::EvmCompiler;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Case {
    pub code: Vec<u8>,
    pub spec: SpecId,
    pub gas: u64,
    pub reservoir: u64,
    /// Observe the final stack (`inspect_stack`).
    pub inspect: bool,
    pub is_static: bool,
    pub calldata: Vec<u8>,
    pub debug: bool,
    pub single_error: bool,
    pub dedup: bool,
    pub dse: bool,
    /// Compile-time folding budget (`None`: the compiler's default).
    pub fold: Option<u64>,
    pub db_error_at: Option<u32>,
    /// Seeds the outcomes of CALL/CREATE frames.
    pub seed: u64,
    /// 0: one frame on its own; 1: a transaction that calls the code; 2: a transaction that runs it as init code.
    pub tx: u8,
    /// Further contracts of a transaction.
    pub extra: Vec<Vec<u8>>,
}
impl Case {
    pub fn new(code: impl Into<Vec<u8>>, spec: SpecId) -> Self {
        Self {
            code: code.into(),
            spec,
            gas: 200_000,
            reservoir: 0,
            inspect: true,
            is_static: false,
            calldata: (0..68u8).map(|i| i.wrapping_mul(37) | 1).collect(),
            debug: true,
            single_error: true,
            dedup: true,
            dse: true,
            fold: None,
            db_error_at: None,
            seed: 0,
            tx: 0,
            extra: vec![],
        }
    }
    /// One line, read back by [`Case::parse`].
    pub fn show(&self) -> String {
        format!(
            "code=0x{} spec={} gas={} reservoir={} inspect={} static={} debug={} single_error={} dedup={} dse={} fold={} \
             db_error_at={} seed={} tx={} extra={} calldata=0x{}",
            hex(&self.code),
            self.spec as u8,
            self.gas,
            self.reservoir,
            self.inspect,
            self.is_static,
            self.debug,
            self.single_error,
            self.dedup,
            self.dse,
            self.fold.map_or(-1, |x| x as i64),
            self.db_error_at.map_or(-1, |x| x as i64),
            self.seed,
            self.tx,
            self.extra.iter().map(|x| format!("0x{},", hex(x))).collect::<String>(),
            hex(&self.calldata)
        )
    }
    pub fn parse(s: &str) -> Option<Self> {
        let mut c = Self::new(vec![], SpecId::CANCUN);
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=')?;
            match k {
                "code" => c.code = unhex(v)?,
                "calldata" => c.calldata = unhex(v)?,
                "spec" => c.spec = SpecId::try_from_u8(v.parse().ok()?)?,
                "gas" => c.gas = v.parse().ok()?,
                "reservoir" => c.reservoir = v.parse().ok()?,
                "inspect" => c.inspect = v.parse().ok()?,
                "static" => c.is_static = v.parse().ok()?,
                "debug" => c.debug = v.parse().ok()?,
                "single_error" => c.single_error = v.parse().ok()?,
                "dedup" => c.dedup = v.parse().ok()?,
                "dse" => c.dse = v.parse().ok()?,
                "fold" => c.fold = u64::try_from(v.parse::<i64>().ok()?).ok(),
                "db_error_at" => c.db_error_at = u32::try_from(v.parse::<i64>().ok()?).ok(),
                "seed" => c.seed = v.parse().ok()?,
                "tx" => c.tx = v.parse().ok()?,
                "extra" => c.extra = v.split_terminator(',').map(unhex).collect::<Option<_>>()?,
                _ => return None,
            }
        }
        Some(c)
    }
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().fold(String::new(), |mut s, x| {
        write!(s, "{x:02x}").unwrap();
        s
    })
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Obs {
    Halt(InstructionResult),
    Done { what: String },
    Frame { what: String },
}

const PAD: usize = 37;
fn nested(c: &Case) -> bool {
    c.seed % 5 >= 3
}

fn interpreter(c: &Case) -> Interpreter {
    // The calldata lies inside a larger buffer whose other bytes are not zero, so that reading past it is seen. For some
    // seeds that buffer is the memory of the calling frame, as for every frame but the first of a transaction.
    let mut around = vec![0xA5; PAD];
    around.extend_from_slice(&c.calldata);
    around.extend([0x5A; 64]);
    let range = PAD..PAD + c.calldata.len();
    let mut memory = SharedMemory::new();
    let data = if nested(c) {
        around.resize(around.len().next_multiple_of(32), 0xC3);
        memory.resize(around.len());
        memory.set(0, &around);
        memory = memory.new_child_context();
        CallInput::SharedBuffer(range)
    } else {
        CallInput::Bytes(Bytes::from(around).slice(range))
    };
    let input = InputsImpl {
        target_address: SELF,
        bytecode_address: None,
        caller_address: CALLER,
        input: data,
        call_value: U256::from(123_456_789),
    };
    let code = revm_bytecode::Bytecode::new_legacy(Bytes::copy_from_slice(&c.code));
    let mut i = Interpreter::new(memory, ExtBytecode::new(code), input, c.is_static, c.spec, c.gas);
    if c.reservoir != 0 {
        i.gas = Gas::new_with_regular_gas_and_reservoir(c.gas, c.reservoir);
    }
    i
}

fn gas(g: &Gas) -> String {
    format!(
        "remaining={} refund={} reservoir={} state={}",
        g.remaining(),
        g.refunded(),
        g.reservoir(),
        g.state_gas_spent()
    )
}

fn observe(c: &Case, i: &Interpreter, h: &VHost, a: &InterpreterAction) -> Obs {
    let mem = || hex(&i.memory.context_memory());
    let stack = || format!("{:x?}", i.stack.data());
    match a {
        InterpreterAction::Return(r) => {
            if r.result.is_halt() {
                return Obs::Halt(r.result);
            }
            let mut what = format!(
                "{:?} output=0x{} gas[{}] igas[{}] trace={:?} mem={}",
                r.result,
                hex(&r.output),
                gas(&r.gas),
                gas(&i.gas),
                h.trace,
                mem()
            );
            // RETURN, REVERT and SELFDESTRUCT leave through the exit trampoline; the documented observation point of
            // `inspect_stack` is the regular return sites.
            if c.inspect && r.result == InstructionResult::Stop {
                what += &format!(" stack={}", stack());
            }
            Obs::Done { what }
        }
        InterpreterAction::NewFrame(FrameInput::Call(x)) => {
            let data = match &x.input {
                CallInput::Bytes(b) => b.to_vec(),
                CallInput::SharedBuffer(r) if r.is_empty() => vec![],
                CallInput::SharedBuffer(r) => i.memory.global_slice_range(r.clone()).to_vec(),
            };
            Obs::Frame {
                what: format!(
                    "call data=0x{} ret={:?} gas_limit={} reservoir={} code={} target={} caller={} value={:?} scheme={:?} \
                     static={} charged={} known={} gas[{}] trace={:?} mem={} stack={}",
                    hex(&data),
                    if x.return_memory_offset.is_empty() { 0..0 } else { x.return_memory_offset.clone() },
                    x.gas_limit,
                    x.reservoir,
                    x.bytecode_address,
                    x.target_address,
                    x.caller,
                    x.value,
                    x.scheme,
                    x.is_static,
                    x.charged_new_account_state_gas,
                    x.known_bytecode.0,
                    gas(&i.gas),
                    h.trace,
                    mem(),
                    stack()
                ),
            }
        }
        InterpreterAction::NewFrame(FrameInput::Create(x)) => Obs::Frame {
            what: format!(
                "create caller={} scheme={:?} value={} init=0x{} gas_limit={} reservoir={} gas[{}] trace={:?} mem={} stack={}",
                x.caller(),
                x.scheme(),
                x.value(),
                hex(x.init_code()),
                x.gas_limit(),
                x.reservoir(),
                gas(&i.gas),
                h.trace,
                mem(),
                stack()
            ),
        },
        InterpreterAction::NewFrame(FrameInput::Empty) => Obs::Frame { what: "empty".into() },
    }
}

/// Feeds a deterministic frame outcome back, as revm-handler does.
fn resume(c: &Case, i: &mut Interpreter, a: &InterpreterAction, k: u64) {
    let s = c.seed.wrapping_mul(0x9E37_79B9).wrapping_add(k);
    let (limit, range, create) = match a {
        InterpreterAction::NewFrame(FrameInput::Call(x)) => (x.gas_limit, Some(x.return_memory_offset.clone()), false),
        InterpreterAction::NewFrame(FrameInput::Create(x)) => (x.gas_limit(), None, true),
        _ => unreachable!(),
    };
    let result = match s % 4 {
        0 | 3 => InstructionResult::Return,
        1 => InstructionResult::Revert,
        _ => InstructionResult::OutOfGas,
    };
    let output: Vec<u8> = match (s / 4) % 3 {
        0 => vec![],
        1 => (0..40).map(|x| x as u8 ^ 0x5a).collect(),
        _ => vec![0xee; 7],
    };
    let output = if create && result == InstructionResult::Return { vec![] } else { output };
    let n = output.len();
    // The child frame used memory of its own behind this frame's, which may have moved the whole buffer.
    let mut child = i.memory.new_child_context();
    child.resize(32 * (s % 300) as usize);
    child.context_memory_mut().fill(0xCC);
    i.memory.free_child_context();
    i.return_data.set_buffer(output.into());
    let ok = match (create, result.is_ok()) {
        (_, false) => U256::ZERO,
        (false, true) => U256::from(1),
        (true, true) => U256::from(0xc0ffee),
    };
    assert!(i.stack.push(ok), "resume: stack overflow");
    if result.is_ok_or_revert() {
        i.gas.erase_cost(limit / 2);
        if let Some(r) = range {
            let t = r.len().min(n);
            if t > 0 {
                let b = i.return_data.buffer()[..t].to_vec();
                i.memory.set(r.start, &b);
            }
        }
    }
    if result.is_ok() {
        i.gas.record_refund((s % 7) as i64);
    }
}

pub const MAX_FRAMES: u64 = 6;

pub fn run_reference(c: &Case) -> Vec<Obs> {
    let mut i = interpreter(c);
    let mut h = VHost::new(c.spec);
    h.env = c.seed;
    h.db_error_at = c.db_error_at;
    let table = instruction_table::<EthInterpreter, VHost>();
    let gt = gas_table_spec(c.spec);
    let mut obs = vec![];
    for k in 0..=MAX_FRAMES {
        let a = i.run_plain(&table, &gt, &mut h);
        let o = observe(c, &i, &h, &a);
        let frame = matches!(o, Obs::Frame { .. });
        obs.push(o);
        if !frame {
            break;
        }
        resume(c, &mut i, &a, k);
    }
    obs
}

pub fn run_compiled(c: &Case) -> Result<Vec<Obs>, String> {
    let mut comp = EvmCompiler::new(Irx::new());
    comp.inspect_stack(c.inspect);
    comp.debug_assertions(c.debug);
    comp.single_error(c.single_error);
    comp.set_dedup(c.dedup);
    comp.set_dse(c.dse);
    if let Some(l) = c.fold {
        comp.set_compiler_gas_limit(l);
    }
    let f = unsafe { comp.jit("f", &c.code[..], c.spec) }.map_err(|e| format!("compilation failed: {e}"))?;
    // The compiler only verifies the module under debug assertions; LLVM would reject it in any case.
    use revmc_backend::Backend;
    comp.backend_mut().verify_module().map_err(|e| e.to_string())?;
    if std::env::var_os("IRX_DUMP").is_some() {
        eprintln!("{:#?}", comp.backend_mut());
    }
    let mut i = interpreter(c);
    let mut h = VHost::new(c.spec);
    h.env = c.seed;
    h.db_error_at = c.db_error_at;
    let mut obs = vec![];
    interp::STEPS.with(|s| s.set(0));
    interp::take_error();
    for k in 0..=MAX_FRAMES {
        let a = unsafe { f.call_with_interpreter(&mut i, &mut h) };
        if let Some(e) = interp::take_error() {
            return Err(format!("undefined behaviour in the emitted code: {e}"));
        }
        let o = observe(c, &i, &h, &a);
        let frame = matches!(o, Obs::Frame { .. });
        obs.push(o);
        if !frame {
            break;
        }
        resume(c, &mut i, &a, k);
    }
    Ok(obs)
}

/// `Ok(observations)` or a description of the disagreement.
pub fn check(c: &Case) -> Result<Vec<Obs>, String> {
    if c.tx != 0 {
        return crate::txn::check(c);
    }
    let want = run_reference(c);
    let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_compiled(c))) {
        Ok(r) => r?,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            return Err(format!("panic: {}", m.unwrap_or_default()));
        }
    };
    for (k, w) in want.iter().enumerate() {
        let Some(g) = got.get(k) else { return Err(format!("step {k}: compiled code stopped early")) };
        match (w, g) {
            (Obs::Halt(_), Obs::Halt(_)) => return Ok(want),
            (w, g) if w == g => {}
            _ => return Err(format!("step {k}:\n  interpreter: {w:?}\n  compiled:    {g:?}")),
        }
    }
    Ok(want)
}

fn class(e: &str) -> String {
    e.split(|c: char| c.is_ascii_digit() || c == '\n').next().unwrap_or("").to_string()
}

/// Greedy minimisation that keeps the kind of disagreement.
pub fn shrink(c: &Case, e: &str) -> (Case, String) {
    let k = class(e);
    let mut best = c.clone();
    let mut err = e.to_string();
    let tries = std::cell::Cell::new(0u32);
    let attempt = |n: Case, best: &mut Case, err: &mut String| -> bool {
        tries.set(tries.get() + 1);
        if tries.get() > 3000 {
            return false;
        }
        match check(&n) {
            Err(e) if class(&e) == k => {
                *best = n;
                *err = e;
                true
            }
            _ => false,
        }
    };
    loop {
        let mut ch = false;
        let mut n = best.clone();
        if n.code.len() > 1 {
            n.code.truncate(n.code.len() / 2);
            ch |= attempt(n, &mut best, &mut err);
        }
        let mut at = 0;
        while at < best.code.len() {
            let o = best.code[at];
            let len = 1 + if (0x60..=0x7f).contains(&o) { o as usize - 0x5f } else { 0 };
            let end = (at + len).min(best.code.len());
            let mut n = best.clone();
            n.code.drain(at..end);
            if attempt(n, &mut best, &mut err) {
                ch = true;
                continue;
            }
            if o != 0x5b {
                let mut n = best.clone();
                n.code[at..end].fill(0x5b);
                ch |= attempt(n, &mut best, &mut err);
            }
            if len > 2 {
                let mut n = best.clone();
                n.code.splice(at..end, [0x60, best.code[end - 1]]);
                ch |= attempt(n, &mut best, &mut err);
            }
            at = end;
        }
        for f in [
            (|c: &mut Case| c.is_static = false) as fn(&mut Case),
            |c| c.reservoir = 0,
            |c| c.seed = 0,
            |c| c.fold = None,
            |c| c.db_error_at = None,
            |c| c.dedup = false,
            |c| c.dse = false,
            |c| c.inspect = true,
            |c| c.single_error = true,
            |c| c.debug = true,
            |c| c.calldata.clear(),
            |c| drop(c.extra.pop()),
            |c| c.tx = c.tx.min(1),
        ] {
            let mut n = best.clone();
            f(&mut n);
            if n.show() != best.show() {
                ch |= attempt(n, &mut best, &mut err);
            }
        }
        if !ch || tries.get() > 3000 {
            return (best, err);
        }
    }
}
