use super::*;
use crate::verif_support::*;

// The backward liveness step, checked against what the instruction does to stack positions: `src(p)` is the position
// before the instruction whose word position `p` holds afterwards (None: a computed result).  Sound iff a live `p`
// after means a live `src(p)` before, so that everything a later reader needs was kept, and an instruction is only
// skipped when skipping it leaves every live position with the right word.  Stacks of up to 63 tracked positions.
fn step(o: u8, h: usize, inp: usize, out: usize, imm: Option<DecodedImm>, src: impl Fn(usize) -> Option<usize>) {
    let bits: usize = any();
    let after = |p: usize| bits >> p & 1 == 1;
    let mut live = BitVec::from_element(bits);
    let dead = all_outputs_dead(&live, o, h, inp, out, imm);
    transfer_liveness(&mut live, o, h, inp, out, imm, &[], None);
    let p: u8 = any();
    let p = p as usize;
    assume(p < h + out - inp && p < 64);
    cover(dead, "C09: a dead instruction");
    if after(p) {
        match src(p) {
            Some(q) => {
                assert!(live[q], "C09.transfer: the word a live position comes from is live");
                assert!(!dead || p == q, "C09.dead: skipping the instruction leaves every live position unchanged");
            }
            None => assert!(!dead, "C09.dead: an instruction with a live result is not skipped"),
        }
    }
}
harness! {
    #[kani::unwind(2)]
    fn c09_swap() {
    let (o, h): (u8, u8) = (any(), any());
    let h = h as usize;
    assume(op::SWAP1 <= o && o <= op::SWAP16);
    let d = (o - op::SWAP1) as usize + 1;
    assume(d < h && h <= 63);
    let t = h - 1;
    step(o, h, d + 1, d + 1, None, |p| Some(if p == t { t - d } else if p == t - d { t } else { p }));
}}
harness! {
    #[kani::unwind(2)]
    fn c09_dup() {
    let (o, h): (u8, u8) = (any(), any());
    let h = h as usize;
    assume(op::DUP1 <= o && o <= op::DUP16);
    let d = (o - op::DUP1) as usize + 1;
    assume(d <= h && h <= 62);
    step(o, h, d, d + 1, None, |p| Some(if p == h { h - d } else { p }));
}}
harness! {
    fn c09_swapn() {
    let (d, h): (u8, u8) = (any(), any());
    let (d, h) = (d as usize, h as usize);
    assume(d >= 1 && d < h && h <= 63);
    let t = h - 1;
    step(op::SWAPN, h, d + 1, d + 1, Some(DecodedImm::Single(d as u8)), |p| Some(if p == t { t - d } else if p == t - d { t } else { p }));
}}
harness! {
    fn c09_dupn() {
    let (d, h): (u8, u8) = (any(), any());
    let (d, h) = (d as usize, h as usize);
    assume(d >= 1 && d <= h && h <= 62);
    step(op::DUPN, h, d, d + 1, Some(DecodedImm::Single(d as u8)), |p| Some(if p == h { h - d } else { p }));
}}
harness! {
    fn c09_exchange() {
    let (n, m, h): (u8, u8, u8) = (any(), any(), any());
    let (a, b, h) = (n as usize, m as usize, h as usize);
    assume(1 <= a && a < b && b < h && h <= 63);
    let t = h - 1;
    step(op::EXCHANGE, h, b + 1, b + 1, Some(DecodedImm::Pair(n, m)), |p| Some(if p == t - a { t - b } else if p == t - b { t - a } else { p }));
}}
harness! {
    #[kani::unwind(9)]
    fn c09_generic() {
    // Any other instruction: reads `inp` words, writes `out` results in their place.
    let (o, h, inp, out): (u8, u8, u8, u8) = (any(), any(), any(), any());
    let (h, inp, out) = (h as usize, inp as usize, out as usize);
    assume(!(op::DUP1 <= o && o <= op::SWAP16) && !(op::DUPN <= o && o <= op::EXCHANGE) && o != op::POP);
    assume(inp <= 7 && out <= 1 && inp <= h && h <= 62);
    let base = h - inp;
    let r: u8 = any();
    let r = r as usize;
    let bits: usize = any();
    let mut live = BitVec::from_element(bits);
    let dead = all_outputs_dead(&live, o, h, inp, out, None);
    transfer_liveness(&mut live, o, h, inp, out, None, &[], None);
    if out == 1 && bits >> base & 1 == 1 {
        assert!(!dead, "C09.dead: an instruction with a live result is not skipped");
    }
    assume(r < h);
    if r >= base {
        assert!(live[r], "C09.transfer: an operand is live");
    } else if bits >> r & 1 == 1 {
        assert!(live[r], "C09.transfer: untouched positions stay live");
    }
}}
harness! {
    fn c09_pop() {
    let h: u8 = any();
    let h = h as usize;
    assume(1 <= h && h <= 63);
    let bits: usize = any();
    let mut live = BitVec::from_element(bits);
    transfer_liveness(&mut live, op::POP, h, 1, 0, None, &[], None);
    let p: u8 = any();
    let p = p as usize;
    assume(p + 1 < h);
    assert!(bits >> p & 1 == 0 || live[p], "C09.transfer: untouched positions stay live");
}}
