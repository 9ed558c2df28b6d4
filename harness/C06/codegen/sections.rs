use super::*;
use crate::verif_support::*;

const CAP: i64 = 1024;

// One step of the stack-section accumulator, from any accumulator state: the inductive step of
// "entering the section at height h passes the head check iff every instruction of it stays within [0, 1024]".
harness! { fn c06_stack_step() {
    let (inputs, diff, max_growth): (i32, i32, i32) = (any(), any(), any());
    // Invariant of the accumulator (established by `default`/`reset`, re-established below).
    let b = 1 << 28;
    assume(0 <= inputs && inputs <= b && -b <= diff && diff <= b && 0 <= max_growth && max_growth <= b);
    assume(max_growth >= diff && diff >= -inputs);
    let mut s = StackSectionAnalysis { inputs, diff, max_growth, start_inst: Inst::from_usize(0) };
    let (i, o): (u8, u8) = (any(), any());
    s.process(i, o);

    let h: u16 = any();
    assume(h as i64 <= CAP);
    let h = h as i64;
    let before = h >= inputs as i64 && h + max_growth as i64 <= CAP;
    let at = h + diff as i64;
    let step = at >= i as i64 && at - i as i64 + o as i64 <= CAP;
    let after = h >= s.inputs as i64 && h + s.max_growth as i64 <= CAP;
    assert!(after == (before && step), "C06.step: the section requirement is exactly the conjunction of the steps");
    assert!(s.diff as i64 == diff as i64 - i as i64 + o as i64, "C06.step: net height change");
    assert!(s.inputs >= 0 && s.max_growth >= 0 && s.max_growth >= s.diff && s.diff >= -s.inputs, "C06.step: invariant");
    assert!(s.start_inst == Inst::from_usize(0), "C06.step: frame");
}}
