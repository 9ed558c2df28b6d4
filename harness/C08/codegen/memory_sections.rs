use super::*;
use crate::verif_support::*;

// What the EVM requires: nothing for an empty access, otherwise the end of the access rounded up to whole words.
// In u128, so nothing wraps; a requirement of 2^64 - 32 or more can never be paid for.
fn required(off: u64, len: u64) -> u128 {
    if len == 0 { 0 } else { (off as u128 + len as u128).div_ceil(32) * 32 }
}
const UNPAYABLE: u128 = (1 << 64) - 32;

fn opt(b: bool, x: u64) -> Option<u64> {
    if b { Some(x) } else { None }
}

// What the analysis knows of an access (each operand known or not) is exact where it says so.
harness! { fn c08_exact_size() {
    let (off, len, ko, kl): (u64, u64, bool, bool) = (any(), any(), any(), any());
    if let Some(s) = exact_memory_size_for_access(opt(ko, off), opt(kl, len)) {
        let r = required(off, len);
        assert!(s as u128 == r || (r >= UNPAYABLE && s as u128 >= UNPAYABLE), "C08.exact: the claimed size is the required size");
    }
    if ko && kl {
        assert!(exact_memory_size_for_access(Some(off), Some(len)).is_some(), "C08.exact: known operands give a size");
    }
}}
// The lower bound never exceeds the required size, whatever the unknown operands are.
harness! { fn c08_min_size() {
    let (off, len, ko, kl): (u64, u64, bool, bool) = (any(), any(), any(), any());
    let s = min_memory_size_for_access(opt(ko, off), opt(kl, len)) as u128;
    let r = required(off, len);
    assert!(s <= r, "C08.min: a lower bound");
}}
// An unknown offset may also be far beyond 64 bits: the access then cannot complete, and the bound is never used.

fn state(known: bool, k: u64, exact: bool, e: u64) -> BlockMemoryState {
    BlockMemoryState { known_size: opt(known, k), exact_known_size: opt(known && exact, e) }
}
// `s` describes a block entered with memory of size `m`; an unreached block describes nothing.
fn describes(s: BlockMemoryState, m: u64) -> bool {
    match s.known_size {
        None => false,
        Some(k) => k <= m && s.exact_known_size.is_none_or(|e| e == m),
    }
}
harness! { fn c08_join() {
    let a = state(any(), any(), any(), any());
    let b = state(any(), any(), any(), any());
    let m: u64 = any();
    let mut j = a;
    let changed = j.join(b);
    if describes(a, m) || describes(b, m) {
        assert!(describes(j, m), "C08.join: the join describes whatever either side describes");
    }
    assert!(changed == (j != a), "C08.join: change is reported exactly");
    let mut again = j;
    assert!(!again.join(a) && !again.join(b), "C08.join: an upper bound, so the iteration ends");
}}
harness! { fn c08_section_facts() {
    // An empty section is the default one.
    let s = MemorySection { known_size: any(), required_size: any(), direct_resize_size: any() };
    assert!(s.is_empty() == (s.known_size == 0 && s.required_size == 0 && s.direct_resize_size == 0), "C08.section");
}}
