use super::*;
use crate::verif_support::*;

// The accumulator of a gas section adds exactly what it is given, and the saved section is that sum.
harness! { fn c07_gas_step() {
    let (g, base, extra): (u64, u16, u64) = (any(), any(), any());
    assume(g <= 1 << 48 && extra <= 1 << 48);
    let mut s = GasSectionAnalysis { gas_cost: g, start_inst: Inst::from_usize(0) };
    s.process(base);
    assert!(s.gas_cost == g + base as u64, "C07.process: adds the base cost");
    s.process_extra(extra);
    assert!(s.gas_cost == g + base as u64 + extra, "C07.process_extra: adds the extra cost");
    assert!(s.start_inst == Inst::from_usize(0), "C07.process: frame");
    let sum = g as u128 + base as u128 + extra as u128;
    let c = s.section().gas_cost as u128;
    assert!(if sum <= u32::MAX as u128 { c == sum } else { c == u32::MAX as u128 }, "C07.section: the sum, saturated");
    assert!(s.section().is_empty() == (sum == 0), "C07.section: empty exactly when nothing is charged");
    s.reset(Inst::from_usize(7));
    assert!(s.gas_cost == 0 && s.start_inst == Inst::from_usize(7), "C07.reset");
}}
