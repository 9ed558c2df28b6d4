use super::*;
use crate::verif_support::*;

// Handles of 256-bit immediates.  Values below 2^31 are inline; others go to the constant pool.  Under Kani the pool's two
// functions are replaced by their contract (intern returns an index below 2^31 that reads back as the value, equal values
// get equal indices and different values different ones), for arbitrary indices; natively the real pool runs.
#[cfg(kani)]
mod pool {
    use crate::bytecode::interner::Interner;
    use oxc_index::Idx;
    use std::hash::{BuildHasher, Hash};
    static mut VAL: [[u64; 4]; 4] = [[0; 4]; 4];
    static mut IDX: [u32; 4] = [0; 4];
    static mut LEN: usize = 0;
    #[allow(static_mut_refs)]
    pub fn intern<I: Idx, T: Hash + Eq, S: BuildHasher + Default>(_this: &mut Interner<I, T, S>, value: T) -> I {
        unsafe {
            let v: [u64; 4] = core::mem::transmute_copy(&value);
            let mut i = 0;
            while i < 4 {
                if i < LEN && VAL[i][0] == v[0] && VAL[i][1] == v[1] && VAL[i][2] == v[2] && VAL[i][3] == v[3] {
                    return I::from_usize(IDX[i] as usize);
                }
                i += 1;
            }
            assert!(LEN < 4, "ghost pool");
            let n: u32 = kani::any();
            kani::assume(n < 1 << 31);
            let mut i = 0;
            while i < 4 {
                kani::assume(i >= LEN || IDX[i] != n);
                i += 1;
            }
            VAL[LEN] = v;
            IDX[LEN] = n;
            LEN += 1;
            I::from_usize(n as usize)
        }
    }
    #[allow(static_mut_refs)]
    pub fn get<I: Idx, T, S>(_this: &Interner<I, T, S>, idx: I) -> &T {
        unsafe {
            let mut k = 0;
            let mut i = 0;
            while i < 4 {
                if i < LEN && IDX[i] as usize == idx.index() {
                    k = i;
                }
                i += 1;
            }
            assert!(LEN > 0 && IDX[k] as usize == idx.index(), "C13.pool: only recorded indices are read");
            &*(&VAL[k] as *const [u64; 4] as *const T)
        }
    }
}

fn word() -> U256 {
    U256::from_limbs([any(), any(), any(), any()])
}

harness! {
    #[cfg_attr(kani, kani::stub(crate::bytecode::interner::Interner::intern, pool::intern))]
    #[cfg_attr(kani, kani::stub(crate::bytecode::interner::Interner::get, pool::get))]
    #[cfg_attr(kani, kani::unwind(34))]
    fn c13_imm_round_trip() {
    let (a, b) = (word(), word());
    let mut p = U256Interner::new();
    let x = U256Imm::new(a, &mut p);
    let y = U256Imm::new(b, &mut p);
    assert!(U256Imm::from_raw(x.to_raw()) == x, "C13.raw: the raw form of a handle reads back");
    assert!(x.get(&p) == a && y.get(&p) == b, "C13.imm: a recorded value reads back, whatever is recorded later");
    assert!((x == y) == (a == b), "C13.eq: handles are equal exactly when the values are");
    if let Some(v) = x.get_inline() {
        assert!(a == U256::from(v), "C13.inline: the inline value is the value");
    }
    cover(x.get_inline().is_some() && y.get_inline().is_none(), "C13: both representations");
}}
