use crate::rel::{H, Wire};
use crate::verif_support::*;
use revm_interpreter::instructions::contract;
use revmc_builtins::*;

rel! { c19_call, 7, false, contract::call::<0xf1, Wire, H>, |e, sp| __revmc_builtin_call(e, sp, CallKind::Call) }
rel! { c19_callcode, 7, false, contract::call::<0xf2, Wire, H>, |e, sp| __revmc_builtin_call(e, sp, CallKind::CallCode) }
rel! { c19_delegatecall, 6, false, contract::call::<0xf4, Wire, H>, |e, sp| __revmc_builtin_call(e, sp, CallKind::DelegateCall) }
rel! { c19_staticcall, 6, false, contract::call::<0xfa, Wire, H>, |e, sp| __revmc_builtin_call(e, sp, CallKind::StaticCall) }
relm! { c19_create, 3, false, contract::create::<false, Wire, H>, |e, sp| __revmc_builtin_create(e, sp, CreateKind::Create) }
relm! { c19_create2, 4, false, contract::create::<true, Wire, H>, |e, sp| __revmc_builtin_create(e, sp, CreateKind::Create2) }
