use crate::rel::{H, Wire};
use crate::verif_support::*;
use revm_interpreter::{InstructionResult, instructions::{control, host, memory, system}};
use revmc_builtins::*;

relm! { c08_calldataload, 1, true, system::calldataload::<Wire, H>, |e, sp| __revmc_builtin_calldataload(e, &mut *sp) }
relm! { c08_calldatacopy, 3, false, system::calldatacopy::<Wire, H>, |e, sp| __revmc_builtin_calldatacopy(e, &mut *sp.cast()) }
relm! { c08_codecopy, 3, false, system::codecopy::<Wire, H>, |e, sp| __revmc_builtin_codecopy(e, &mut *sp.cast()) }
relm! { c08_returndatacopy, 3, false, system::returndatacopy::<Wire, H>, |e, sp| __revmc_builtin_returndatacopy(e, &mut *sp.cast()) }
relm! { c08_mcopy, 3, false, memory::mcopy::<Wire, H>, |e, sp| __revmc_builtin_mcopy(e, &mut *sp.cast()) }
relm! { c08_return, 2, false, control::ret::<Wire, H>, |e, sp| __revmc_builtin_do_return(e, &mut *sp.cast(), InstructionResult::Return) }
relm! { c08_revert, 2, false, control::revert::<Wire, H>, |e, sp| __revmc_builtin_do_return(e, &mut *sp.cast(), InstructionResult::Revert) }
