use super::*;
use crate::verif_support::*;

// The pool's contract on the real hash set (assumed by c13_imm_round_trip and by C04's harnesses), on generated histories:
// CBMC cannot take the hash table, so this is the bounded stand-in and only runs natively.
#[cfg(not(kani))]
harness! {
    fn c13_pool_history() {
    let mut p = crate::bytecode::U256Interner::new();
    let n: u8 = any();
    let mut log = vec![];
    for _ in 0..n % 40 {
        let v = alloy_primitives::U256::from_limbs([any(), any(), any::<u64>() % 2, any::<u64>() % 2]);
        let i = p.intern(v);
        for &(w, j) in &log {
            assert!((w == v) == (i == j), "C13.pool: equal values share an index, different ones do not");
        }
        log.push((v, i));
        for &(w, j) in &log {
            assert!(*p.get(j) == w, "C13.pool: a recorded value reads back");
        }
    }
}}
