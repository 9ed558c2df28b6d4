//! A deterministic host with EIP-2929 warmth, EIP-2200 originals, EIP-7702 delegations and a trace of every effect.

use revm_context_interface::{
    cfg::GasParams,
    context::{SStoreResult, SelfDestructResult, StateLoad},
    host::LoadError,
    journaled_state::AccountInfoLoad,
};
use revm_interpreter::Host;
use revm_primitives::{Address, B256, Bytes, KECCAK_EMPTY, Log, U256, hardfork::SpecId, keccak256};
use revm_state::AccountInfo;
use std::{
    borrow::Cow,
    collections::{BTreeMap, BTreeSet},
};

pub const SELF: Address = Address::repeat_byte(0xba);
pub const CALLER: Address = Address::repeat_byte(0xca);

pub struct VHost {
    pub spec: SpecId,
    pub params: GasParams,
    pub storage: BTreeMap<U256, U256>,
    pub original: BTreeMap<U256, U256>,
    pub transient: BTreeMap<U256, U256>,
    pub warm_slots: BTreeSet<U256>,
    pub warm: BTreeSet<Address>,
    pub dead: BTreeSet<Address>,
    /// Every state-changing call, in order.
    pub trace: Vec<String>,
    /// Every query, in order (for diagnosis only).
    pub db_error_at: Option<u32>,
    pub queries: u32,
    /// Selects the block number and whether selfdestruct moves value.
    pub env: u64,
}
impl VHost {
    pub fn new(spec: SpecId) -> Self {
        let st: BTreeMap<U256, U256> =
            [(0u64, 1u64), (1, 2), (5, 0x55), (0x20, 0xdead), (69, 42)].map(|(a, b)| (U256::from(a), U256::from(b))).into();
        Self {
            spec,
            params: GasParams::new_spec(spec),
            original: st.clone(),
            storage: st,
            transient: Default::default(),
            warm_slots: [U256::from(1)].into(),
            warm: [SELF, CALLER].into(),
            dead: Default::default(),
            trace: vec![],
            db_error_at: None,
            queries: 0,
            env: 0,
        }
    }
    fn db(&mut self) -> Result<(), LoadError> {
        self.queries += 1;
        if self.db_error_at == Some(self.queries) { Err(LoadError::DBError) } else { Ok(()) }
    }
    fn touch(&mut self, a: Address, skip: bool) -> Result<bool, LoadError> {
        self.db()?;
        let cold = !self.warm.contains(&a) && self.spec.is_enabled_in(SpecId::BERLIN);
        if cold && skip {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm.insert(a);
        Ok(cold)
    }
}
fn code_of(a: Address) -> Vec<u8> {
    match a.0[19] % 4 {
        0 => vec![],
        1 => (0..70).map(|i| i as u8 ^ a.0[18]).collect(),
        2 => [&[0xef, 0x01, 0x00][..], &[0x11; 19], &[a.0[19].wrapping_add(3)]].concat(),
        _ => vec![0x60, 0x69, 0x60, 0x42, 0x01, 0x00],
    }
}

impl Host for VHost {
    fn basefee(&self) -> U256 {
        U256::from(0x1231)
    }
    fn blob_gasprice(&self) -> U256 {
        U256::from(0x77)
    }
    fn gas_limit(&self) -> U256 {
        U256::from(0x5678)
    }
    fn gas_params(&self) -> &GasParams {
        &self.params
    }
    fn is_amsterdam_eip8037_enabled(&self) -> bool {
        self.spec as u8 >= SpecId::AMSTERDAM as u8
    }
    fn difficulty(&self) -> U256 {
        U256::from(0xcdef)
    }
    fn prevrandao(&self) -> Option<U256> {
        Some(U256::from(0x0123))
    }
    fn block_number(&self) -> U256 {
        match self.env % 8 {
            4 => U256::from(200),
            5 => U256::from(256),
            6 => U256::ZERO,
            7 => U256::from((1u128 << 64) + 300),
            _ => U256::from(500),
        }
    }
    fn timestamp(&self) -> U256 {
        U256::from(0x1234)
    }
    fn beneficiary(&self) -> Address {
        Address::repeat_byte(0xcb)
    }
    fn slot_num(&self) -> U256 {
        U256::from(0x9911)
    }
    fn chain_id(&self) -> U256 {
        U256::from(69)
    }
    fn effective_gas_price(&self) -> U256 {
        U256::from(0x4567)
    }
    fn caller(&self) -> Address {
        Address::repeat_byte(0xcc)
    }
    fn blob_hash(&self, n: usize) -> Option<U256> {
        (n < 3).then(|| U256::from(0xb10b + n))
    }
    fn max_initcode_size(&self) -> usize {
        49152
    }
    fn block_hash(&mut self, number: u64) -> Option<B256> {
        self.db().ok()?;
        Some(keccak256(number.to_be_bytes()))
    }
    fn selfdestruct(
        &mut self,
        address: Address,
        target: Address,
        skip: bool,
    ) -> Result<StateLoad<SelfDestructResult>, LoadError> {
        let cold = self.touch(target, skip)?;
        self.trace.push(format!("selfdestruct {address} {target}"));
        let r = SelfDestructResult {
            had_value: self.env % 3 != 1,
            target_exists: target.0[19] % 5 != 0,
            previously_destroyed: !self.dead.insert(address),
        };
        Ok(StateLoad::new(r, cold))
    }
    fn log(&mut self, log: Log) {
        self.trace.push(format!("log {} {:?} {}", log.address, log.topics(), log.data.data));
    }
    fn tstore(&mut self, a: Address, key: U256, value: U256) {
        self.trace.push(format!("tstore {a} {key:#x} {value:#x}"));
        self.transient.insert(key, value);
    }
    fn tload(&mut self, _: Address, key: U256) -> U256 {
        self.transient.get(&key).copied().unwrap_or_default()
    }
    fn load_account_info_skip_cold_load(
        &mut self,
        a: Address,
        load_code: bool,
        skip: bool,
    ) -> Result<AccountInfoLoad<'_>, LoadError> {
        let cold = self.touch(a, skip)?;
        let raw = code_of(a);
        let code = revm_bytecode::Bytecode::new_raw_checked(Bytes::from(raw.clone())).unwrap_or_default();
        let info = AccountInfo {
            balance: if a.0[19] % 3 == 0 { U256::ZERO } else { U256::from(a.0[19]) << 70 },
            nonce: 0,
            code_hash: if raw.is_empty() { KECCAK_EMPTY } else { keccak256(&raw) },
            account_id: None,
            code: load_code.then_some(code),
        };
        let is_empty = raw.is_empty() && info.balance.is_zero();
        Ok(AccountInfoLoad { account: Cow::Owned(info), is_cold: cold, is_empty })
    }
    fn sstore_skip_cold_load(
        &mut self,
        a: Address,
        key: U256,
        value: U256,
        skip: bool,
    ) -> Result<StateLoad<SStoreResult>, LoadError> {
        self.db()?;
        let cold = !self.warm_slots.contains(&key) && self.spec.is_enabled_in(SpecId::BERLIN);
        if cold && skip {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_slots.insert(key);
        let present = self.storage.insert(key, value).unwrap_or_default();
        self.trace.push(format!("sstore {a} {key:#x} {value:#x}"));
        Ok(StateLoad::new(
            SStoreResult {
                original_value: self.original.get(&key).copied().unwrap_or_default(),
                present_value: present,
                new_value: value,
            },
            cold,
        ))
    }
    fn sload_skip_cold_load(&mut self, _: Address, key: U256, skip: bool) -> Result<StateLoad<U256>, LoadError> {
        self.db()?;
        let cold = !self.warm_slots.contains(&key) && self.spec.is_enabled_in(SpecId::BERLIN);
        if cold && skip {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_slots.insert(key);
        Ok(StateLoad::new(self.storage.get(&key).copied().unwrap_or_default(), cold))
    }
}
