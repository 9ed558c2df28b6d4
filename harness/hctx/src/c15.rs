use crate::verif_support::*;
use revm_primitives::{B256, U256};
use revmc_context::{EvmStack, EvmWord};

fn limbs() -> [u64; 4] {
    [any(), any(), any(), any()]
}
/// Byte `i` of the value, least significant first: the definition every conversion is held to.
fn byte(l: &[u64; 4], i: usize) -> u8 {
    (l[i / 8] >> (8 * (i % 8))) as u8
}
fn same(u: &U256, l: &[u64; 4]) -> bool {
    let a = u.as_limbs();
    a[0] == l[0] && a[1] == l[1] && a[2] == l[2] && a[3] == l[3]
}
fn le(l: &[u64; 4]) -> [u8; 32] {
    let mut b = [0; 32];
    let mut i = 0;
    while i < 32 {
        b[i] = byte(l, i);
        i += 1;
    }
    b
}
fn be(l: &[u64; 4]) -> [u8; 32] {
    let mut b = [0; 32];
    let mut i = 0;
    while i < 32 {
        b[i] = byte(l, 31 - i);
        i += 1;
    }
    b
}
fn eq32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let i: usize = any::<u8>() as usize % 32;
    a[i] == b[i]
}

harness! {
    #[kani::unwind(34)]
    fn c15_integers() {
        let l = limbs();
        let u = U256::from_limbs(l);
        let mut w = EvmWord::from_u256(u);
        assert!(same(&w.to_u256(), &l), "C15: to_u256 inverts from_u256");
        assert!(same(&w.into_u256(), &l), "C15: into_u256 inverts from_u256");
        assert!(same(w.as_u256(), &l), "C15: as_u256 reads the value");
        assert!(same(&EvmWord::from(u).to_u256(), &l), "C15: From<U256>");
        let m = limbs();
        *w.as_u256_mut() = U256::from_limbs(m);
        assert!(same(&w.to_u256(), &m), "C15: as_u256_mut writes the value");
        assert!((w == EvmWord::from_u256(u)) == (l == m), "C15: equality of words is equality of values");
        assert!(same(&EvmWord::default().to_u256(), &[0; 4]) && same(&EvmWord::ZERO.to_u256(), &[0; 4]), "C15: the default word is zero");
        cover(l == m, "equal");
        cover(l[3] != m[3], "different");
    }
}

harness! {
    #[kani::unwind(34)]
    fn c15_bytes() {
        let l = limbs();
        let w = EvmWord::from_u256(U256::from_limbs(l));
        assert!(eq32(&w.to_le_bytes().0, &le(&l)), "C15: to_le_bytes is least significant byte first");
        assert!(eq32(&w.to_be_bytes().0, &be(&l)), "C15: to_be_bytes is most significant byte first");
        assert!(same(&EvmWord::from_le_bytes(B256::new(le(&l))).to_u256(), &l), "C15: from_le_bytes");
        assert!(same(&EvmWord::from_be_bytes(B256::new(be(&l))).to_u256(), &l), "C15: from_be_bytes");
        assert!(same(&EvmWord::from_ne_bytes(w.to_ne_bytes()).to_u256(), &l), "C15: native bytes round trip");
        assert!(same(&EvmWord::from_be(w.to_be()).to_u256(), &l) && same(&EvmWord::from_le(w.to_le()).to_u256(), &l), "C15: from_be/to_be");
        let s = w.swap_bytes();
        assert!(eq32(&s.to_le_bytes().0, &be(&l)), "C15: swap_bytes reverses");
        assert!(same(&s.swap_bytes().to_u256(), &l), "C15: swap_bytes is an involution");
    }
}

harness! {
    #[kani::unwind(34)]
    fn c15_slices() {
        let l = limbs();
        let n: usize = any();
        assume(n <= 32);
        let (b, r) = (le(&l), be(&l));
        // The value of the n low bytes.
        let mut want = [0u64; 4];
        let mut i = 0;
        while i < 32 {
            if i < n {
                want[i / 8] |= (b[i] as u64) << (8 * (i % 8));
            }
            i += 1;
        }
        assert!(same(&EvmWord::from_le_slice(&b[..n]).to_u256(), &want), "C15: from_le_slice");
        assert!(same(&EvmWord::from_be_slice(&r[32 - n..]).to_u256(), &want), "C15: from_be_slice");
        cover(n == 0, "empty");
        cover(n == 31, "odd");
    }
}

harness! {
    #[kani::unwind(34)]
    fn c15_usize_address() {
        let l = limbs();
        let mut w = EvmWord::from_u256(U256::from_limbs(l));
        let fits = l[1] == 0 && l[2] == 0 && l[3] == 0;
        let a = usize::try_from(w).ok();
        let b = usize::try_from(&w).ok();
        let c = usize::try_from(&mut w).ok();
        let want = if fits { Some(l[0] as usize) } else { None };
        assert!(a == want && b == want && c == want, "C15: usize conversion succeeds exactly on values that fit");
        let ad = w.to_address();
        let i: usize = any::<u8>() as usize % 20;
        assert!(ad.0.0[i] == byte(&l, 19 - i), "C15: an address is the low 20 bytes, most significant first");
        cover(fits, "fits");
        cover(!fits, "too big");
    }
}

fn word(l: &[u64; 4]) -> EvmWord {
    EvmWord::from_u256(U256::from_limbs(*l))
}

fn at(r: &EvmWord) -> usize {
    core::ptr::from_ref(r) as usize
}

harness! {
    #[kani::unwind(6)]
    fn c15_stack_cells() {
        // Which cell each accessor touches, for every index: cell i is the i-th word after the base, nothing beyond 1024.
        let mut s = EvmStack::new();
        assert!(EvmStack::CAPACITY == 1024 && EvmStack::SIZE == 32 * 1024 && core::mem::size_of::<EvmStack>() == 32 * 1024, "C15: 1024 words of 32 bytes");
        let base = s.as_ptr() as usize;
        assert!(base == core::ptr::from_ref(&s) as usize && s.as_mut_ptr() as usize == base, "C15: the base is the stack's own memory");
        let i: usize = any();
        unsafe {
            match s.get(i) {
                Some(r) => assert!(i < 1024 && at(r) == base + 32 * i, "C15: get"),
                None => assert!(i >= 1024, "C15: get fails only beyond the capacity"),
            }
            match s.get_mut(i) {
                Some(r) => assert!(i < 1024 && at(r) == base + 32 * i, "C15: get_mut"),
                None => assert!(i >= 1024, "C15: get_mut fails only beyond the capacity"),
            }
            cover(i == 1024, "first outside");
            assume(i < 1024);
            assert!(at(s.get_unchecked(i)) == base + 32 * i, "C15: get_unchecked");
            assert!(at(s.get_unchecked_mut(i)) == base + 32 * i, "C15: get_unchecked_mut");
            let len = i + 1;
            assert!(at(s.top_unchecked(len)) == base + 32 * i, "C15: the top of len words is word len-1");
            assert!(at(s.top_unchecked_mut(len)) == base + 32 * i, "C15: the top of len words is word len-1");
            let n: usize = any();
            assume(n < len);
            assert!(at(s.from_top_unchecked(len, n)) == base + 32 * (i - n), "C15: depth n is n below the top");
            assert!(at(s.from_top_unchecked_mut(len, n)) == base + 32 * (i - n), "C15: depth n is n below the top");
            let v = s.as_slice(len);
            assert!(v.len() == len && v.as_ptr() as usize == base, "C15: the slice of the first len words");
            let v = s.as_mut_slice(len);
            assert!(v.len() == len && v.as_ptr() as usize == base, "C15: the mutable slice of the first len words");
            cover(n == i && i == 1023, "bottom of a full stack");
        }
    }
}

// The contents of 32 KiB written at arbitrary indices are beyond CBMC here (memory), so histories of writes are only run
// natively against an ideal stack (bounded).
#[cfg(not(kani))]
harness! {
    fn c15_stack_history() {
        let mut s = EvmStack::new();
        let mut ideal: Vec<[u64; 4]> = Vec::new();
        let mut len = 0usize;
        let grow = match any::<u8>() % 3 { 0 => 0, 1 => 20, _ => 1000 };
        for _ in 0..grow {
            let a = limbs();
            unsafe { s.push(word(&a), &mut len) };
            ideal.push(a);
        }
        for _ in 0..60 {
            let i: usize = any::<u16>() as usize;
            let a = limbs();
            unsafe {
                match any::<u8>() % 8 {
                    0 | 1 | 2 if len < 1024 => { s.push(word(&a), &mut len); ideal.push(a); }
                    3 if len > 0 => { len -= 1; ideal.pop(); }
                    4 if len > 0 => { s.set(i % len, word(&a)); ideal[i % len] = a; }
                    5 if len > 0 => { s.set_unchecked(i % len, word(&a)); ideal[i % len] = a; }
                    6 if len > 0 => { *s.from_top_unchecked_mut(len, i % len) = word(&a); let k = len - 1 - i % len; ideal[k] = a; }
                    7 if len > 0 => { *s.top_unchecked_mut(len) = word(&a); ideal[len - 1] = a; }
                    _ => {}
                }
                assert!(len == ideal.len(), "C15: the length of an ideal stack");
                let v = s.as_slice(len);
                assert!(v.len() == len && v.iter().zip(&ideal).all(|(w, l)| same(&w.to_u256(), l)), "C15: the words of an ideal stack");
            }
        }
    }
}

harness! {
    #[kani::unwind(6)]
    fn c15_stack_views() {
        // The interpreter's own stack seen as a word stack: same cells, same length, both ways.
        let mut v: Vec<EvmWord> = EvmStack::new_heap();
        assert!(v.capacity() >= 1024 && v.is_empty(), "C15: new_heap");
        let (a, b) = (limbs(), limbs());
        v.push(word(&a));
        assert!(same(&unsafe { EvmStack::from_vec(&v).get(0) }.unwrap().to_u256(), &a), "C15: from_vec sees the vector's words");
        EvmStack::from_mut_vec(&mut v).set(0, word(&b));
        assert!(same(&v[0].to_u256(), &b), "C15: from_mut_vec writes the vector's words");

        let mut st = revm_interpreter::Stack::new();
        let _ = st.push(U256::from_limbs(a));
        {
            let (s, len) = EvmStack::from_interpreter_stack(&mut st);
            assert!(*len == 1, "C15: the length is the interpreter's");
            assert!(same(&unsafe { s.top_unchecked(*len) }.to_u256(), &a), "C15: words are the interpreter's");
            unsafe { s.push(word(&b), len) };
        }
        assert!(st.len() == 2, "C15: a push is seen by the interpreter");
        assert!(same(&st.data()[1], &b) && same(&st.data()[0], &a), "C15: its word too, and the others stay");
        {
            let (_, len) = EvmStack::from_interpreter_stack(&mut st);
            *len -= 2;
        }
        assert!(st.len() == 0, "C15: a pop is seen by the interpreter");
    }
}

// Kani counts every panic as a failure, so "panics on every index beyond the capacity" is only run natively (bounded).
#[cfg(not(kani))]
harness! {
    fn c15_out_of_range() {
        let k: u32 = any();
        let i: usize = if any() { 1024 + k as usize } else { any() };
        assume(i > 1024 || any());
        assume(i >= 1024);
        let r = std::panic::catch_unwind(|| {
            let mut v = vec![EvmWord::ZERO; 2048];
            v.shrink_to_fit();
            EvmStack::from_mut_vec(&mut v).set(i, EvmWord::ZERO)
        });
        assert!(r.is_err(), "C15: a checked write beyond the capacity is refused");
        assume(i > 1024);
        let r = std::panic::catch_unwind(|| {
            let mut v = vec![EvmWord::ZERO; 2048];
            let a = unsafe { EvmStack::from_vec(&v).as_slice(i) }.len();
            a + unsafe { EvmStack::from_mut_vec(&mut v).as_mut_slice(i) }.len()
        });
        assert!(r.is_err(), "C15: a slice beyond the capacity is refused");
        let n = i % 1024;
        let r = std::panic::catch_unwind(|| {
            let v: Vec<EvmWord> = Vec::with_capacity(n);
            v.capacity() < 1024 && { EvmStack::from_vec(&v); true }
        });
        assert!(!matches!(r, Ok(true)), "C15: a vector of less than 1024 words is refused");
    }
}
