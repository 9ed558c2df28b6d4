use crate::rel::{H, Wire};
use crate::verif_support::*;
use revm_interpreter::instructions::{block_info, host, tx_info};
use revmc_builtins::*;

rel! { c14_sload, 1, true, host::sload::<Wire, H>, |e, sp| __revmc_builtin_sload(e, &mut *sp) }
rel! { c14_sstore, 2, false, host::sstore::<Wire, H>, |e, sp| __revmc_builtin_sstore(e, &mut *sp.cast()) }
rel! { c14_tload, 1, true, host::tload::<Wire, H>, |e, sp| __revmc_builtin_tload(e, &mut *sp) }
rel! { c14_tstore, 2, false, host::tstore::<Wire, H>, |e, sp| __revmc_builtin_tstore(e, &mut *sp.cast()) }
rel! { c14_balance, 1, true, host::balance::<Wire, H>, |e, sp| __revmc_builtin_balance(e, &mut *sp) }
rel! { c14_extcodehash, 1, true, host::extcodehash::<Wire, H>, |e, sp| __revmc_builtin_extcodehash(e, &mut *sp) }
rel! { c14_blockhash, 1, true, host::blockhash::<Wire, H>, |e, sp| __revmc_builtin_blockhash(e, &mut *sp) }
rel! { c14_selfbalance, 0, true, host::selfbalance::<Wire, H>, |e, sp| __revmc_builtin_self_balance(e, &mut *sp) }
rel! { c14_selfdestruct, 1, false, host::selfdestruct::<Wire, H>, |e, sp| __revmc_builtin_selfdestruct(e, &mut *sp) }
rel! { c14_origin, 0, true, tx_info::origin::<Wire, H>, |e, sp| __revmc_builtin_origin(e, &mut *sp) }
rel! { c14_gasprice, 0, true, tx_info::gasprice::<Wire, H>, |e, sp| __revmc_builtin_gas_price(e, &mut *sp) }
rel! { c14_blobhash, 1, true, tx_info::blob_hash::<Wire, H>, |e, sp| __revmc_builtin_blob_hash(e, &mut *sp) }
rel! { c14_coinbase, 0, true, block_info::coinbase::<Wire, H>, |e, sp| __revmc_builtin_coinbase(e, &mut *sp) }
rel! { c14_timestamp, 0, true, block_info::timestamp::<Wire, H>, |e, sp| __revmc_builtin_timestamp(e, &mut *sp) }
rel! { c14_number, 0, true, block_info::block_number::<Wire, H>, |e, sp| __revmc_builtin_number(e, &mut *sp) }
rel! { c14_difficulty, 0, true, block_info::difficulty::<Wire, H>, |e, sp| __revmc_builtin_difficulty(e, &mut *sp) }
rel! { c14_gaslimit, 0, true, block_info::gaslimit::<Wire, H>, |e, sp| __revmc_builtin_gaslimit(e, &mut *sp) }
rel! { c14_chainid, 0, true, block_info::chainid::<Wire, H>, |e, sp| __revmc_builtin_chainid(e, &mut *sp) }
rel! { c14_basefee, 0, true, block_info::basefee::<Wire, H>, |e, sp| __revmc_builtin_basefee(e, &mut *sp) }
rel! { c14_blobbasefee, 0, true, block_info::blob_basefee::<Wire, H>, |e, sp| __revmc_builtin_blob_base_fee(e, &mut *sp) }
rel! { c14_slotnum, 0, true, block_info::slot_num::<Wire, H>, |e, sp| __revmc_builtin_slot_num(e, &mut *sp) }
relm! { c14_log0, 2, false, host::log::<0, H>, |e, sp| __revmc_builtin_log(e, sp, 0) }
relm! { c14_log1, 3, false, host::log::<1, H>, |e, sp| __revmc_builtin_log(e, sp, 1) }
relm! { c14_log2, 4, false, host::log::<2, H>, |e, sp| __revmc_builtin_log(e, sp, 2) }
relm! { c14_log3, 5, false, host::log::<3, H>, |e, sp| __revmc_builtin_log(e, sp, 3) }
relm! { c14_log4, 6, false, host::log::<4, H>, |e, sp| __revmc_builtin_log(e, sp, 4) }
