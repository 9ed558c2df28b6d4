use super::*;
use crate::verif_support::*;

// Compile-time evaluation, against bit-level definitions of the EVM operations, for all 256-bit operands.
// The constant pool is seen through its contract (C13): what is interned reads back.  Under Kani the two pool functions
// are replaced by that contract over a four-entry ghost pool; natively the real pool runs.
#[cfg(kani)]
mod pool {
    use crate::bytecode::interner::Interner;
    use oxc_index::Idx;
    use std::hash::{BuildHasher, Hash};
    static mut POOL: [[u64; 4]; 4] = [[0; 4]; 4];
    static mut LEN: usize = 0;
    #[allow(static_mut_refs)]
    pub fn intern<I: Idx, T: Hash + Eq, S: BuildHasher + Default>(_this: &mut Interner<I, T, S>, value: T) -> I {
        unsafe {
            let v: [u64; 4] = core::mem::transmute_copy(&value);
            let i = LEN;
            assert!(i < 4, "ghost pool");
            POOL[i] = v;
            LEN = i + 1;
            I::from_usize(i)
        }
    }
    #[allow(static_mut_refs)]
    pub fn get<I: Idx, T, S>(_this: &Interner<I, T, S>, idx: I) -> &T {
        unsafe { &*(&POOL[idx.index()] as *const [u64; 4] as *const T) }
    }
}

fn word() -> U256 {
    U256::from_limbs([any(), any(), any(), any()])
}
fn bit(x: U256, i: usize) -> bool {
    x.as_limbs()[i / 64] >> (i % 64) & 1 == 1
}
fn fits(x: U256) -> Option<u64> {
    let l = x.as_limbs();
    if l[1] == 0 && l[2] == 0 && l[3] == 0 { Some(l[0]) } else { None }
}
// Not folding is always right; the cover makes a folder that never folds visible as a vacuous obligation.
fn known(r: Option<AbsValue>) -> U256Imm {
    assume(matches!(r, Some(AbsValue::Const(_))));
    cover(true, "C04: folded");
    let Some(AbsValue::Const(r)) = r else { unreachable!() };
    r
}
fn fold1(o: u8, a: U256) -> U256 {
    let mut p = U256Interner::new();
    let ai = U256Imm::new(a, &mut p);
    let r = try_const_fold(&InstData::new(o), &[AbsValue::Const(ai)], &mut p, 0);
    known(r).get(&p)
}
fn fold2(o: u8, a: U256, b: U256) -> U256 {
    let mut p = U256Interner::new();
    let ai = U256Imm::new(a, &mut p);
    let bi = U256Imm::new(b, &mut p);
    let r = try_const_fold(&InstData::new(o), &[AbsValue::Const(bi), AbsValue::Const(ai)], &mut p, 0);
    known(r).get(&p)
}
// ADD with the schoolbook carry chain.
fn add(a: U256, b: U256, mut carry: bool) -> U256 {
    let (x, y) = (a.as_limbs(), b.as_limbs());
    let mut r = [0u64; 4];
    let mut i = 0;
    while i < 4 {
        let s = x[i] as u128 + y[i] as u128 + carry as u128;
        r[i] = s as u64;
        carry = s >> 64 != 0;
        i += 1;
    }
    U256::from_limbs(r)
}
// -1, 0, 1 by the highest differing limb.
fn cmp(a: U256, b: U256) -> i8 {
    let (x, y) = (a.as_limbs(), b.as_limbs());
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if x[i] != y[i] {
            return if x[i] < y[i] { -1 } else { 1 };
        }
    }
    0
}
fn scmp(a: U256, b: U256) -> i8 {
    match (bit(a, 255), bit(b, 255)) {
        (true, false) => -1,
        (false, true) => 1,
        _ => cmp(a, b),
    }
}
fn not(a: U256) -> U256 {
    let l = a.as_limbs();
    U256::from_limbs([!l[0], !l[1], !l[2], !l[3]])
}
fn flag(b: bool) -> U256 {
    U256::from_limbs([b as u64, 0, 0, 0])
}

macro_rules! fold_harness {
    ($name:ident, $body:block) => {
        harness! {
            #[kani::unwind(6)]
            #[kani::stub(crate::bytecode::interner::Interner::intern, pool::intern)]
            #[kani::stub(crate::bytecode::interner::Interner::get, pool::get)]
            fn $name() $body
        }
    };
}
fn same(a: U256, b: U256) -> bool {
    let (x, y) = (a.as_limbs(), b.as_limbs());
    x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]
}
fold_harness! { c04_fold_add, {
    let (a, b) = (word(), word());
    assert!(same(fold2(op::ADD, a, b), add(a, b, false)), "C04.ADD");
}}
fold_harness! { c04_fold_sub, {
    let (a, b) = (word(), word());
    assert!(same(fold2(op::SUB, a, b), add(a, not(b), true)), "C04.SUB");
}}
fold_harness! { c04_fold_lt, {
    let (a, b) = (word(), word());
    assert!(same(fold2(op::LT, a, b), flag(cmp(a, b) < 0)), "C04.LT");
}}
fold_harness! { c04_fold_gt, {
    let (a, b) = (word(), word());
    assert!(same(fold2(op::GT, a, b), flag(cmp(a, b) > 0)), "C04.GT");
}}
harness! {
    #[kani::unwind(34)]
    #[kani::stub(crate::bytecode::interner::Interner::intern, pool::intern)]
    #[kani::stub(crate::bytecode::interner::Interner::get, pool::get)]
    fn c04_fold_slt() {
    let (a, b) = (word(), word());
    assert!(same(fold2(op::SLT, a, b), flag(scmp(a, b) < 0)), "C04.SLT");
}}
harness! {
    #[kani::unwind(34)]
    #[kani::stub(crate::bytecode::interner::Interner::intern, pool::intern)]
    #[kani::stub(crate::bytecode::interner::Interner::get, pool::get)]
    fn c04_fold_sgt() {
    let (a, b) = (word(), word());
    assert!(same(fold2(op::SGT, a, b), flag(scmp(a, b) > 0)), "C04.SGT");
}}
harness! {
    #[kani::unwind(34)]
    #[kani::stub(crate::bytecode::interner::Interner::intern, pool::intern)]
    #[kani::stub(crate::bytecode::interner::Interner::get, pool::get)]
    fn c04_fold_eq() {
    let (a, b) = (word(), word());
    assert!(same(fold2(op::EQ, a, b), flag(cmp(a, b) == 0)), "C04.EQ");
}}
fold_harness! { c04_fold_and, {
    let (a, b, i): (U256, U256, u8) = (word(), word(), any());
    assert!(bit(fold2(op::AND, a, b), i as usize) == bit(a, i as usize) & bit(b, i as usize), "C04.AND");
}}
fold_harness! { c04_fold_or, {
    let (a, b, i): (U256, U256, u8) = (word(), word(), any());
    assert!(bit(fold2(op::OR, a, b), i as usize) == bit(a, i as usize) | bit(b, i as usize), "C04.OR");
}}
fold_harness! { c04_fold_xor, {
    let (a, b, i): (U256, U256, u8) = (word(), word(), any());
    assert!(bit(fold2(op::XOR, a, b), i as usize) == bit(a, i as usize) ^ bit(b, i as usize), "C04.XOR");
}}
fold_harness! { c04_fold_not, {
    let (a, i): (U256, u8) = (word(), any());
    assert!(bit(fold1(op::NOT, a), i as usize) != bit(a, i as usize), "C04.NOT");
}}
harness! {
    #[kani::unwind(34)]
    #[kani::stub(crate::bytecode::interner::Interner::intern, pool::intern)]
    #[kani::stub(crate::bytecode::interner::Interner::get, pool::get)]
    fn c04_fold_iszero() {
    let a = word();
    assert!(same(fold1(op::ISZERO, a), flag(cmp(a, U256::ZERO) == 0)), "C04.ISZERO");
}}
fold_harness! { c04_fold_clz, {
    let a = word();
    let r = fold1(op::CLZ, a);
    let n = fits(r);
    assert!(n.is_some_and(|n| n <= 256), "C04.CLZ range");
    let n = n.unwrap() as usize;
    let i: u8 = any();
    let i = i as usize;
    if i >= 256 - n {
        assert!(!bit(a, i), "C04.CLZ: leading bits are zero");
    }
    if n < 256 {
        assert!(bit(a, 255 - n), "C04.CLZ: the next bit is one");
    }
}}
fold_harness! { c04_fold_shl, {
    let (a, b, i): (U256, U256, u8) = (word(), word(), any());
    let i = i as u64;
    let r = fold2(op::SHL, a, b);
    let want = match fits(a) { Some(s) if s <= i => bit(b, (i - s) as usize), _ => false };
    assert!(bit(r, i as usize) == want, "C04.SHL");
}}
fold_harness! { c04_fold_shr, {
    let (a, b, i): (U256, U256, u8) = (word(), word(), any());
    let i = i as u64;
    let r = fold2(op::SHR, a, b);
    let want = match fits(a) { Some(s) if s < 256 && s + i < 256 => bit(b, (i + s) as usize), _ => false };
    assert!(bit(r, i as usize) == want, "C04.SHR");
}}
fold_harness! { c04_fold_sar, {
    let (a, b, i): (U256, U256, u8) = (word(), word(), any());
    let i = i as u64;
    let r = fold2(op::SAR, a, b);
    let want = match fits(a) { Some(s) if s < 256 && s + i < 256 => bit(b, (i + s) as usize), _ => bit(b, 255) };
    assert!(bit(r, i as usize) == want, "C04.SAR");
}}
fold_harness! { c04_fold_byte, {
    let (a, b): (U256, U256) = (word(), word());
    let r = fold2(op::BYTE, a, b);
    let want = match fits(a) {
        Some(i) if i < 32 => { let j = 31 - i as usize; b.as_limbs()[j / 8] >> (8 * (j % 8)) & 0xff }
        _ => 0,
    };
    assert!(fits(r) == Some(want), "C04.BYTE");
}}
fold_harness! { c04_fold_signextend, {
    let (a, b, i): (U256, U256, u8) = (word(), word(), any());
    let i = i as usize;
    let r = fold2(op::SIGNEXTEND, a, b);
    let want = match fits(a) {
        Some(k) if k < 31 => { let s = 8 * k as usize + 7; bit(b, if i < s { i } else { s }) }
        _ => bit(b, i),
    };
    assert!(bit(r, i) == want, "C04.SIGNEXTEND");
}}
// Unknown operands are never folded, and the fold budget covers every folded opcode.
harness! { fn c04_no_guess() {
    let (o, n): (u8, u8) = (any(), any());
    assume(!matches!(o, op::CODESIZE | op::PC));
    let mut p = U256Interner::new();
    let v = [AbsValue::Top, AbsValue::Top, AbsValue::Top];
    let r = try_const_fold(&InstData::new(o), &v[..(n % 4) as usize], &mut p, 0);
    assert!(r.is_none(), "C04.unknown: an unknown operand gives an unknown result");
}}
// Division, modulus, exponentiation and the wide forms are delegated to ruint / revm; see the conditions and runs.
