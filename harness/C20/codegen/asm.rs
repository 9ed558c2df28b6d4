use super::*;
use crate::verif_support::*;

// Contracts of the numeric helpers of the assembler.  Text handling is outside (see the bounded driver `natd asm`).

harness! {
    fn c20_min_push_width() {
        let v: usize = any();
        let w = min_push_width(v) as u32;
        assert!(w <= 8, "C20: an offset needs at most 8 bytes");
        assert!(w == 8 || v >> (8 * w) == 0, "C20: the offset fits the chosen width");
        assert!(w == 0 || v >> (8 * (w - 1)) != 0, "C20: no narrower width fits");
        cover(w == 8, "widest");
        cover(w == 0, "zero");
    }
}

// Its error path builds an `eyre` report (back traces), which crashes Kani's compiler: native only (bounded).
#[cfg(not(kani))]
harness! {
    fn c20_encode_imm() {
        let l: [u64; 4] = [any(), any(), any(), any()];
        let size: u8 = any();
        assume(size <= 32);
        let byte = |i: usize| if i < 32 { (l[i / 8] >> (8 * (i % 8))) as u8 } else { 0 };
        let mut len = 0;
        let mut i = 0;
        while i < 32 {
            if byte(i) != 0 {
                len = i + 1;
            }
            i += 1;
        }
        let fixed: bool = any();
        match encode_imm(U256::from_limbs(l), fixed.then_some(size)) {
            Ok(b) => {
                assert!(!fixed || len <= size as usize, "C20: a value wider than the immediate is refused");
                assert!(b.len() == if fixed { size as usize } else { len }, "C20: the immediate has the width asked for");
                let k: usize = any::<u8>() as usize;
                assume(k < b.len());
                assert!(b[b.len() - 1 - k] == byte(k), "C20: bytes are the value's, most significant first");
                cover(fixed && k > len, "padding");
                cover(!fixed && k == 31, "widest");
            }
            Err(e) => {
                core::mem::forget(e);
                assert!(fixed && len > size as usize, "C20: a value that fits is encoded");
                cover(true, "refused");
            }
        }
    }
}
