//! C17: histories of enabling, preloading, looking up, preparing, storing and clearing on `JitBackend` and on the EVM that
//! uses it.  Compiled programs are tiny shared libraries whose return value names the artifact, so the code that a lookup
//! hands out is identified by running it.
use crate::{Ran, Rng, fold, store};
use alloy_primitives::{Address, B256, Bytes, TxKind, U256, keccak256};
use revm_context::TxEnv;
use revm_context_interface::result::ExecutionResult;
use revm_database::{CacheDB, EmptyDB};
use revm_handler::{ExecuteEvm, MainBuilder};
use revm_primitives::hardfork::SpecId;
use revmc_runtime::revm_evm::JitEvm;
use revmc_runtime::runtime::*;
use std::{
    collections::{HashMap, HashSet},
    path::Path,
    sync::{Arc, OnceLock},
    time::Duration,
};

const MAGIC: u32 = 0x5AC3_17D9;

/// The bytes of a shared library whose `entry` returns `MAGIC`, and where `MAGIC` lies in them.
fn template() -> &'static (Vec<u8>, usize) {
    static T: OnceLock<(Vec<u8>, usize)> = OnceLock::new();
    T.get_or_init(|| {
        let dir = std::env::current_dir().unwrap();
        let (c, so) = (dir.join("tmpl.c"), dir.join("tmpl.so"));
        std::fs::write(&c, format!("unsigned entry(void *a, void *b, void *c) {{ return {MAGIC}u; }}\n")).unwrap();
        let ok = std::process::Command::new("cc").args(["-shared", "-fPIC", "-O1", "-nostdlib", "-o"]).arg(&so).arg(&c).status();
        assert!(ok.is_ok_and(|s| s.success()), "cc failed");
        let b = std::fs::read(&so).unwrap();
        let at = b.windows(4).position(|w| w == MAGIC.to_le_bytes()).expect("constant");
        (b, at)
    })
}
fn library(tag: u32) -> Vec<u8> {
    let (b, at) = template();
    let mut b = b.clone();
    b[*at..*at + 4].copy_from_slice(&tag.to_le_bytes());
    b
}
fn tag_of(p: &CompiledProgram) -> u32 {
    let f: extern "C" fn(usize, usize, usize) -> u32 = unsafe { std::mem::transmute(p.func.into_inner()) };
    f(8, 8, 8)
}

/// Halts an EVM run can be told apart by; a library with tag 0x..RR returns result RR in its low byte.
fn results() -> Vec<u8> {
    use revm_interpreter::InstructionResult as R;
    [R::Stop, R::StackUnderflow, R::StackOverflow, R::InvalidJump, R::OpcodeNotFound, R::InvalidFEOpcode, R::OutOfOffset, R::NotActivated, R::CreateCollision]
        .into_iter()
        .map(|r| r as u8)
        .collect()
}
fn shows(r: &ExecutionResult) -> String {
    match r {
        ExecutionResult::Success { output, .. } => format!("success {}", output.data()),
        ExecutionResult::Revert { output, .. } => format!("revert {output}"),
        ExecutionResult::Halt { reason, .. } => format!("halt {reason:?}"),
    }
}

struct M {
    log: String,
    /// Programs a lookup of this key may return: stored under it, and admitted since the last clear.
    allowed: HashMap<RuntimeCacheKey, HashSet<u32>>,
    stored: HashMap<ArtifactKey, u32>,
    hits: u64,
    /// Keys whose misses the backend may still be acting on (in the mode that loads artifacts on a miss).
    observed: HashSet<RuntimeCacheKey>,
}

impl M {
    fn judge(&mut self, what: &str, key: RuntimeCacheKey, p: &CompiledProgram) -> Result<(), String> {
        let t = tag_of(p);
        self.hits += 1;
        if p.key != key {
            return Err(format!("{}{what} {key:?} returned a program of {:?}", self.log, p.key));
        }
        if !self.allowed.get(&key).is_some_and(|s| s.contains(&t)) {
            return Err(format!("{}{what} {key:?} returned artifact {t:#x}, which was not stored under this key or was cleared", self.log));
        }
        Ok(())
    }
    fn admit_from_store(&mut self, key: RuntimeCacheKey, opt: revmc_backend::OptimizationLevel) {
        let ak = ArtifactKey { runtime: key, backend: BackendSelection::Llvm, opt_level: opt };
        if let Some(t) = self.stored.get(&ak) {
            self.allowed.entry(key).or_default().insert(*t);
        }
    }
}

/// Two codes of each length class; the code hash is the real one except where a history wants a foreign one.
fn codes(r: &mut Rng) -> Vec<Bytes> {
    let mut v = vec![];
    for i in 0..4u8 {
        // PUSH1 id PUSH0.. would need Shanghai: PUSH1 id PUSH1 0 MSTORE PUSH1 32 PUSH1 0 RETURN
        let mut c = vec![0x60, 0x10 + i, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3];
        for _ in 0..r.below(4) * 3 {
            c.push(0);
        }
        v.push(Bytes::from(c));
    }
    v
}

pub fn history(seed: u64) -> Result<Ran, String> {
    let r = &mut Rng(seed);
    let specs = [SpecId::FRONTIER, SpecId::ISTANBUL, SpecId::LONDON, SpecId::SHANGHAI, SpecId::CANCUN, SpecId::PRAGUE];
    // Few forks per history, so that keys meet.
    let mine = [*r.pick(&specs), *r.pick(&specs), *r.pick(&specs)];
    let spec = |r: &mut Rng| *r.pick(&mine);
    let codes = codes(r);
    let hashes: Vec<B256> = codes.iter().map(|c| keccak256(c)).collect();
    let res = results();
    let store = Arc::new(RuntimeArtifactStore::new().map_err(|e| e.to_string())?);
    let mut m = M { log: String::new(), allowed: HashMap::new(), stored: HashMap::new(), hits: 0, observed: HashSet::new() };
    let mut tag = 0x100u32;
    let mut put = |r: &mut Rng, m: &mut M| -> Result<(), String> {
        let i = r.below(codes.len());
        let mut hash = hashes[i];
        if r.chance(15) {
            hash.0[r.below(32)] ^= 1 << r.below(8);
        }
        let k = ArtifactKey {
            runtime: RuntimeCacheKey { code_hash: hash, spec_id: spec(r) },
            backend: store::BACK[r.below(2)],
            opt_level: store::OPTS[r.below(4)],
        };
        if m.stored.contains_key(&k) {
            return Ok(()); // replacing a loaded library in place is the store's owner's business
        }
        tag += 0x100;
        let t = tag | res[r.below(res.len())] as u32;
        let man = ArtifactManifest { artifact_key: k.clone(), symbol_name: "entry".into(), bytecode_len: codes[i].len(), artifact_len: 0, created_at_unix_secs: 0, content_hash: [0; 32] };
        store.store(&k, &man, &library(t)).map_err(|e| e.to_string())?;
        m.log += &format!("store {t:#x} under {k:?}\n");
        if m.observed.contains(&k.runtime) {
            m.allowed.entry(k.runtime).or_default().insert(t);
        }
        m.stored.insert(k, t);
        Ok(())
    };
    for _ in 0..r.below(16) {
        put(r, &mut m)?;
    }
    let aot = r.chance(50);
    let mut cfg = RuntimeConfig { enabled: r.chance(60), store: Some(store.clone()), aot, ..Default::default() };
    cfg.blocking = r.chance(15);
    cfg.tuning.jit_hot_threshold = r.below(3);
    cfg.tuning.jit_worker_count = 1;
    cfg.tuning.event_drain_interval = Duration::from_millis(1);
    cfg.tuning.aot_opt_level = store::OPTS[r.below(4)];
    cfg.tuning.jit_max_bytecode_len = *r.pick(&[0, 9, 10, 13, 16, 100]);
    let lim = cfg.tuning.jit_max_bytecode_len;
    let opt = cfg.tuning.aot_opt_level;
    let blocking = cfg.blocking;
    let mut enabled = cfg.enabled || blocking;
    m.log += &format!("backend enabled {enabled} blocking {blocking} aot {aot} max length {lim} aot level {opt:?}\n");
    let mut started = false;
    let preload = |m: &mut M, started: &mut bool| {
        if !*started {
            *started = true;
            for (k, t) in m.stored.clone() {
                m.allowed.entry(k.runtime).or_default().insert(t);
            }
        }
    };
    if enabled {
        preload(&mut m, &mut started);
    }
    let b = JitBackend::new(cfg).map_err(|e| format!("{}new failed: {e}", m.log))?;
    let eligible = |c: &[u8]| !c.is_empty() && (lim == 0 || c.len() <= lim);
    // Empty code is never eligible, so this returns as soon as the backend has handled every earlier command.
    let settle = || {
        let k = RuntimeCacheKey { code_hash: B256::repeat_byte(0xee), spec_id: SpecId::CANCUN };
        let _ = b.compile_jit_sync(LookupRequest { key: k, code: Bytes::new() });
    };
    let mut print = seed % 5;
    let steps = 4 + r.below(20);
    type Inner = revm_handler::MainnetEvm<revm_context::Context<revm_context::BlockEnv, TxEnv, revm_context::CfgEnv, CacheDB<EmptyDB>>>;
    let mut evms: HashMap<SpecId, JitEvm<Inner>> = HashMap::new();
    let mut evm_allowed: HashMap<RuntimeCacheKey, HashSet<u32>> = HashMap::new();
    for _ in 0..steps {
        let i = r.below(codes.len());
        let key = RuntimeCacheKey { code_hash: hashes[i], spec_id: spec(r) };
        let opn = r.below(14);
        print = fold(print, (opn * 16 + i) as u64 * 256 + key.spec_id as u64);
        match opn {
            0..=3 => {
                let code = match r.below(6) {
                    0 => Bytes::new(),
                    1 => Bytes::from(vec![0; lim.max(1)]),
                    2 => Bytes::from(vec![0; lim + 1]),
                    _ => codes[i].clone(),
                };
                m.log += &format!("lookup {key:?} code length {}\n", code.len());
                let admitted_by_compiling = aot && enabled && eligible(&code);
                if blocking && admitted_by_compiling {
                    m.admit_from_store(key, opt);
                }
                match b.lookup(LookupRequest { key, code: code.clone() }) {
                    LookupDecision::Compiled(p) => {
                        if !enabled {
                            return Err(format!("{}compiled program returned while disabled", m.log));
                        }
                        if !eligible(&code) {
                            return Err(format!("{}compiled program returned for code outside the limits", m.log));
                        }
                        m.judge("lookup", key, &p)?;
                    }
                    LookupDecision::Interpret(why) => {
                        let want_disabled = !enabled;
                        if (why == InterpretReason::Disabled) != want_disabled {
                            return Err(format!("{}told {why:?}, enabled is {enabled}", m.log));
                        }
                        if enabled && (why == InterpretReason::Ineligible) == eligible(&code) {
                            return Err(format!("{}told {why:?} for code of length {}", m.log, code.len()));
                        }
                    }
                }
                if admitted_by_compiling {
                    m.admit_from_store(key, opt);
                    m.observed.insert(key);
                }
                if r.chance(40) {
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
            4 | 5 => {
                let p = if r.chance(50) { b.get_compiled(key.code_hash, key.spec_id) } else { b.get_compiled_tracked(key.code_hash, key.spec_id) };
                m.log += &format!("get_compiled {key:?} -> {}\n", p.is_some());
                if let Some(p) = p {
                    m.judge("get_compiled", key, &p)?;
                }
            }
            6 => {
                m.log += &format!("prepare_aot {key:?}\n");
                preload(&mut m, &mut started);
                if eligible(&codes[i]) {
                    m.admit_from_store(key, opt);
                }
                b.prepare_aot(AotRequest { code_hash: key.code_hash, code: codes[i].clone(), spec_id: key.spec_id });
                settle();
            }
            7 => {
                m.log += &format!("compile_jit {key:?}\n");
                preload(&mut m, &mut started);
                if aot && eligible(&codes[i]) {
                    m.admit_from_store(key, opt);
                }
                let q = LookupRequest { key, code: codes[i].clone() };
                if r.chance(50) {
                    let _ = b.compile_jit_sync(q);
                } else {
                    b.compile_jit(q);
                }
                settle();
            }
            8 => {
                preload(&mut m, &mut started);
                settle();
                let all = r.chance(40);
                m.log += if all { "clear_all\n" } else { "clear_resident\n" };
                if all { b.clear_all() } else { b.clear_resident() }
                settle();
                m.allowed.clear();
                m.observed.clear();
                if all {
                    m.stored.clear();
                    if store.len() != 0 {
                        return Err(format!("{}clear_all left artifacts in the store", m.log));
                    }
                }
            }
            9 if r.chance(50) => {
                preload(&mut m, &mut started);
                settle();
                m.log += "clear_persisted\n";
                b.clear_persisted();
                settle();
                m.stored.clear();
            }
            10 => {
                enabled = r.chance(60);
                m.log += &format!("set_enabled {enabled}\n");
                if enabled {
                    preload(&mut m, &mut started);
                }
                b.set_enabled(enabled).map_err(|e| format!("{}set_enabled failed: {e}", m.log))?;
                if b.enabled() != enabled {
                    return Err(format!("{}enabled() is {}", m.log, !enabled));
                }
            }
            11 => put(r, &mut m)?,
            _ => {
                // A transaction to a contract with this code, through the EVM that looks programs up by frame.
                let ad = Address::repeat_byte(0x40 + i as u8);
                let fresh = r.chance(50);
                if fresh {
                    evms.clear();
                    evm_allowed.clear();
                }
                // The EVM may keep what it was told earlier; what it was told must have been allowed then.
                if enabled && eligible(&codes[i]) {
                    if aot && blocking {
                        m.admit_from_store(key, opt);
                    }
                    let now = m.allowed.get(&key).cloned().unwrap_or_default();
                    evm_allowed.entry(key).or_default().extend(now);
                }
                let one = key.spec_id;
                // One EVM whose fork changes, or one per fork.
                let slot = if r.chance(50) { SpecId::FRONTIER } else { one };
                let evm = evms.entry(slot).or_insert_with(|| {
                    let mut db = CacheDB::<EmptyDB>::default();
                    for (j, c) in codes.iter().enumerate() {
                        let info = revm_state::AccountInfo { code_hash: hashes[j], code: Some(revm_bytecode::Bytecode::new_legacy(c.clone())), ..Default::default() };
                        db.insert_account_info(Address::repeat_byte(0x40 + j as u8), info);
                    }
                    JitEvm::new(revm_context::Context::new(db, slot).build_mainnet(), b.clone())
                });
                use revm_context_interface::ContextTr;
                use revm_handler::EvmTr;
                evm.ctx_mut().modify_cfg(|c| c.set_spec_and_mainnet_gas_params(one));
                let _ = evm.ctx_mut().cfg();
                let tx = TxEnv { kind: TxKind::Call(ad), gas_limit: 100_000, ..Default::default() };
                let out = evm.transact_one(tx).map_err(|e| format!("{}transaction failed: {e:?}", m.log))?;
                evm.finalize();
                let got = shows(&out);
                m.log += &format!("transaction to code {i} on {one:?} -> {got}\n");
                let interpreted = format!("success {}", Bytes::from(U256::from(0x10 + i as u8).to_be_bytes_vec()));
                if got != interpreted {
                    // Then a program ran: its result must be that of an allowed one.
                    let ok = evm_allowed.get(&key).into_iter().flatten().any(|t| {
                        use revm_interpreter::InstructionResult as R;
                        let rr = *t as u8;
                        match &out {
                            ExecutionResult::Success { output, .. } => rr == R::Stop as u8 && output.data().is_empty(),
                            ExecutionResult::Halt { reason, .. } => {
                                let h = format!("{reason:?}");
                                [(R::StackUnderflow, "StackUnderflow"), (R::StackOverflow, "StackOverflow"), (R::InvalidJump, "InvalidJump"), (R::OpcodeNotFound, "OpcodeNotFound"),
                                 (R::InvalidFEOpcode, "InvalidFEOpcode"), (R::OutOfOffset, "OutOfOffset"), (R::NotActivated, "NotActivated"), (R::CreateCollision, "CreateCollision")]
                                    .iter()
                                    .any(|(q, n)| *q as u8 == rr && *n == h)
                            }
                            _ => false,
                        }
                    });
                    m.hits += 1;
                    if !ok {
                        return Err(format!("{}ran a program that is not one stored for this code and fork: {got}", m.log));
                    }
                }
                if aot && enabled && eligible(&codes[i]) {
                    m.admit_from_store(key, opt);
                    m.observed.insert(key);
                }
            }
        }
    }
    drop(evms);
    drop(b);
    let _ = Path::new(".");
    Ok(Ran { print, nontrivial: m.hits > 0 })
}
