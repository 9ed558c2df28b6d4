//! Whole transactions: the EVM wrapper of `revmc_context` with compiled code for some of the contracts against revm's own
//! EVM, with real child frames, precompiles, journal and inspector events.

use crate::{
    e2e::{Case, Obs},
    host::{CALLER, SELF},
    interp,
    ir::Irx,
};
use revm_bytecode::Bytecode;
use revm_context::{BlockEnv, CfgEnv, Context, TxEnv};
use revm_context_interface::{
    ContextTr,
    result::{EVMError, ExecutionResult, InvalidTransaction},
};
use revm_database::{CacheDB, EmptyDB};
use revm_handler::{ExecuteEvm, MainBuilder};
use revm_inspector::{InspectEvm, Inspector};
use revm_interpreter::{CallInput, CallInputs, CallOutcome, CreateInputs, CreateOutcome, InstructionResult};
use revm_primitives::{Address, B256, Bytes, Log, TxKind, U256, keccak256};
use revm_state::{AccountInfo, EvmState};
use revmc_codegen::EvmCompiler;
use revmc_context::{EvmCompilerFn, JitEvm};

type Ctx = Context<BlockEnv, TxEnv, CfgEnv, CacheDB<EmptyDB>>;
type Out = Result<ExecutionResult, EVMError<core::convert::Infallible, InvalidTransaction>>;

/// The first of the extra contracts; the precompiles end before it.
pub const FIRST: u64 = 18;

/// What an inspector is told, except inside frames that halt: where exactly a halting frame stops is not observable.
#[derive(Default)]
struct Events {
    log: Vec<String>,
    open: Vec<usize>,
}
impl Events {
    fn start(&mut self, s: String) {
        self.log.push(s);
        self.open.push(self.log.len());
    }
    fn end(&mut self, what: &str, r: InstructionResult, gas: &revm_interpreter::Gas, out: &Bytes) {
        let at = self.open.pop().unwrap_or(0);
        if r.is_halt() {
            self.log.truncate(at);
            self.log.push(format!("{what} halt"));
        } else {
            self.log.push(format!("{what} {r:?} remaining={} refund={} out={out}", gas.remaining(), gas.refunded()));
        }
    }
}
impl<C: ContextTr> Inspector<C> for Events {
    fn log(&mut self, _: &mut C, log: Log) {
        self.log.push(format!("{log:?}"));
    }
    fn call(&mut self, c: &mut C, i: &mut CallInputs) -> Option<CallOutcome> {
        let data: Vec<u8> = match &i.input {
            CallInput::SharedBuffer(r) if r.is_empty() => vec![],
            x => x.bytes(c).to_vec(),
        };
        self.start(format!(
            "call {} {} {} {:?} {:?} {} {} {}",
            i.caller,
            i.target_address,
            i.bytecode_address,
            i.value,
            i.scheme,
            i.is_static,
            i.gas_limit,
            Bytes::from(data)
        ));
        None
    }
    fn call_end(&mut self, _: &mut C, _: &CallInputs, o: &mut CallOutcome) {
        self.end("call", o.result.result, &o.result.gas, &o.result.output);
    }
    fn create(&mut self, _: &mut C, i: &mut CreateInputs) -> Option<CreateOutcome> {
        self.start(format!("create {} {:?} {} {} {}", i.caller(), i.scheme(), i.value(), i.gas_limit(), i.init_code()));
        None
    }
    fn create_end(&mut self, _: &mut C, _: &CreateInputs, o: &mut CreateOutcome) {
        self.end(&format!("create {:?}", o.address), o.result.result, &o.result.gas, &o.result.output);
    }
    fn selfdestruct(&mut self, contract: Address, target: Address, value: U256) {
        self.log.push(format!("selfdestruct {contract} {target} {value}"));
    }
}

fn at(i: u64) -> Address {
    Address::left_padding_from(&i.to_be_bytes())
}
fn contracts(c: &Case) -> Vec<(Address, Vec<u8>)> {
    let mut v = vec![(SELF, c.code.clone())];
    v.extend(c.extra.iter().enumerate().map(|(i, x)| (at(FIRST + i as u64), x.clone())));
    v
}

fn context(c: &Case) -> Ctx {
    let mut db = CacheDB::<EmptyDB>::default();
    let rich = U256::from(u64::MAX) << 40;
    db.insert_account_info(CALLER, AccountInfo { balance: rich, ..Default::default() });
    for (k, (a, code)) in contracts(c).into_iter().enumerate() {
        let b = Bytecode::new_legacy(code.into());
        let info = AccountInfo {
            balance: if k % 2 == 0 { U256::from(1_000_000u64) } else { U256::ZERO },
            nonce: 1,
            code_hash: b.hash_slow(),
            code: Some(b),
            ..Default::default()
        };
        db.insert_account_info(a, info);
        for s in [0u64, 1, 5] {
            db.insert_account_storage(a, U256::from(s), U256::from(s + 1)).unwrap();
        }
    }
    // An account that delegates to one of the contracts (EIP-7702), and one without code.
    if !c.extra.is_empty() {
        let b = Bytecode::new_eip7702(at(FIRST));
        db.insert_account_info(at(8 + FIRST), AccountInfo { nonce: 1, code_hash: b.hash_slow(), code: Some(b), ..Default::default() });
    }
    db.insert_account_info(at(9 + FIRST), AccountInfo { balance: U256::from(7), ..Default::default() });
    let mut ctx: Ctx = Context::new(db, c.spec);
    ctx.modify_cfg(|g| {
        g.set_spec_and_mainnet_gas_params(c.spec);
        g.disable_nonce_check = true;
    });
    ctx.modify_block(|b: &mut BlockEnv| {
        b.number = U256::from(500);
        b.prevrandao = Some(B256::repeat_byte(0x21));
        b.gas_limit = 100_000_000;
    });
    ctx
}
fn tx(c: &Case) -> TxEnv {
    TxEnv {
        caller: CALLER,
        gas_limit: c.gas.clamp(60_000, 15_000_000),
        kind: if c.tx == 2 { TxKind::Create } else { TxKind::Call(SELF) },
        value: U256::from(c.seed % 3),
        data: if c.tx == 2 { c.code.clone().into() } else { c.calldata.clone().into() },
        ..Default::default()
    }
}

fn show(out: Out, state: EvmState, ev: Option<&Events>, log_too: bool) -> String {
    let r = match out {
        Err(e) => return format!("refused: {e:?}"),
        Ok(ExecutionResult::Halt { gas, .. }) => format!("halt {gas:?}"),
        Ok(r) => format!("{r:?}"),
    };
    let mut s: Vec<String> = state
        .into_iter()
        .filter(|(_, a)| a.is_touched())
        .map(|(ad, a)| {
            let mut slots: Vec<_> =
                a.storage.iter().filter(|(_, v)| v.is_changed()).map(|(k, v)| format!("{k}={}", v.present_value)).collect();
            slots.sort();
            format!(
                "{ad} balance={} nonce={} code={} created={} destroyed={} {slots:?}",
                a.info.balance,
                a.info.nonce,
                a.info.code_hash,
                a.is_created(),
                a.is_selfdestructed()
            )
        })
        .collect();
    s.sort();
    let e = match ev {
        Some(e) if log_too => format!("\n    events {:?}", e.log),
        _ => String::new(),
    };
    format!("{r}\n    state {s:?}{e}")
}

fn compile(c: &Case, code: &[u8], slot: usize, err: &mut Option<String>) -> Option<EvmCompilerFn> {
    interp::SLOT.with(|s| s.set(slot));
    let mut comp = EvmCompiler::new(Irx::new());
    comp.inspect_stack(c.inspect);
    comp.debug_assertions(c.debug);
    comp.single_error(c.single_error);
    comp.set_dedup(c.dedup);
    comp.set_dse(c.dse);
    if let Some(l) = c.fold {
        comp.set_compiler_gas_limit(l);
    }
    let f = unsafe { comp.jit("f", code, c.spec) };
    interp::SLOT.with(|s| s.set(0));
    match f {
        Ok(f) => Some(f),
        Err(e) => {
            err.get_or_insert(format!("compilation failed: {e}"));
            None
        }
    }
}

pub fn check(c: &Case) -> Result<Vec<Obs>, String> {
    let inspect = c.seed % 2 == 1;
    let want = if inspect {
        let mut evm = context(c).build_mainnet_with_inspector(Events::default());
        let r = evm.inspect_one_tx(tx(c));
        let st = evm.finalize();
        show(r, st, Some(&evm.inspector), true)
    } else {
        let mut evm = context(c).build_mainnet();
        let r = evm.transact_one(tx(c));
        let st = evm.finalize();
        show(r, st, None, false)
    };
    interp::STEPS.with(|s| s.set(0));
    interp::take_error();
    let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compiled(c, inspect))) {
        Ok(r) => r?,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            return Err(format!("panic: {}", m.unwrap_or_default()));
        }
    };
    if want != got {
        return Err(format!("transaction:\n  interpreter: {want}\n  compiled:    {got}"));
    }
    Ok(vec![if want.starts_with("halt") || want.starts_with("refused") {
        Obs::Halt(InstructionResult::OutOfGas)
    } else {
        Obs::Done { what: want }
    }])
}

fn compiled(c: &Case, inspect: bool) -> Result<String, String> {
    let mut err = None;
    let mut slot = 0;
    let mut functions = revm_primitives::map::B256Map::default();
    let mut later = std::collections::HashMap::new();
    let mut never = std::collections::HashSet::new();
    for (k, (_, code)) in contracts(c).iter().enumerate() {
        let h = keccak256(code);
        if functions.contains_key(&h) || later.contains_key(&h) || never.contains(&h) {
            continue;
        }
        // Compiled beforehand, on the first miss, or never.
        match (c.seed / 2 + k as u64 * 7) % 4 {
            0 if k != 0 => {
                never.insert(h);
            }
            1 => {
                later.insert(h, slot);
                slot += 1;
            }
            _ => {
                if let Some(f) = compile(c, code, slot, &mut err) {
                    functions.insert(h, f.into_inner());
                }
                slot += 1;
            }
        }
    }
    let mut seen = std::collections::HashMap::new();
    let e2 = std::cell::RefCell::new(None);
    let on_miss = |h: B256, code: &[u8]| -> Option<EvmCompilerFn> {
        if never.contains(&h) {
            return None;
        }
        if let Some(f) = seen.get(&h) {
            return Some(EvmCompilerFn::new(*f));
        }
        if keccak256(code) != h {
            e2.borrow_mut().get_or_insert(format!("asked for code hash {h} with other code {}", Bytes::copy_from_slice(code)));
        }
        // Init code is compiled while there is room.
        if slot >= interp::TRAMPOLINES {
            return None;
        }
        let f = compile(c, code, slot, &mut e2.borrow_mut())?;
        slot += 1;
        seen.insert(h, f.into_inner());
        Some(f)
    };
    let s = if inspect {
        let mut evm = JitEvm::with_on_miss(context(c).build_mainnet_with_inspector(Events::default()), functions, on_miss);
        let r = evm.inspect_one_tx(tx(c));
        let st = evm.finalize();
        show(r, st, Some(&evm.inspector), true)
    } else {
        let mut evm = JitEvm::with_on_miss(context(c).build_mainnet(), functions, on_miss);
        let r = evm.transact_one(tx(c));
        let st = evm.finalize();
        show(r, st, None, false)
    };
    if let Some(e) = interp::take_error() {
        return Err(format!("undefined behaviour in the emitted code: {e}"));
    }
    if let Some(e) = err.or(e2.into_inner()) {
        return Err(e);
    }
    Ok(s)
}
