// Included by the guarded hook of every crate under verification (cfg `revmc_verif`).
//
// The same harness text is compiled twice: by Kani, where `any()` is a symbolic value of the full type and `assume` a
// path condition, and natively (`not(kani)`), where `any()` reads the bytes of a Kani counterexample (or of a seeded
// generator) so that a failing obligation is replayed against the real code.

#[cfg(kani)]
pub use kani::{any, assume, cover};

#[cfg(not(kani))]
pub use native::*;

#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;

    pub enum Src {
        Bytes(std::collections::VecDeque<Vec<u8>>),
        Rng(u64),
    }
    thread_local! {
        pub static SRC: RefCell<Src> = const { RefCell::new(Src::Rng(1)) };
        pub static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }
    /// Panic payload of a failed assumption: the run is discarded.
    pub struct Assumed;

    fn next(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn raw(n: usize) -> Vec<u8> {
        let v = SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Bytes(q) => {
                let mut b = q.pop_front().unwrap_or_default();
                b.resize(n, 0);
                b
            }
            Src::Rng(st) => {
                let bits = 8 * n as u32;
                let k = next(st);
                let r = (next(st) as u128) << 64 | next(st) as u128;
                let sh = (next(st) % bits as u64) as u32;
                let x: u128 = match k % 10 {
                    0 => 0,
                    1 => r % 4,
                    2 => r % 33,
                    3 => u128::MAX,
                    4 => u128::MAX - r % 33,
                    5 => 1u128 << sh,
                    6 => (1u128 << sh).wrapping_sub(1),
                    7 => (1u128 << sh).wrapping_add(r % 3),
                    8 => r >> (128 - bits.min(128)) >> sh,
                    _ => r,
                };
                x.to_le_bytes()[..n].to_vec()
            }
        });
        LOG.with(|l| l.borrow_mut().push(v.clone()));
        v
    }
    pub trait Arb: Sized {
        fn arb() -> Self;
    }
    macro_rules! ints { ($($t:ty)*) => { $(impl Arb for $t {
        fn arb() -> Self { <$t>::from_le_bytes(raw(std::mem::size_of::<$t>()).try_into().unwrap()) }
    })* } }
    ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    impl Arb for bool {
        fn arb() -> Self {
            raw(1)[0] & 1 == 1
        }
    }
    pub fn any<T: Arb>() -> T {
        T::arb()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Assumed);
        }
    }
    pub fn cover(_c: bool, _m: &'static str) {}

    /// Runs `f` with the given inputs; `Ok(true)` passed, `Ok(false)` discarded, `Err` the panic message.
    pub fn run(f: fn(), src: Src) -> Result<bool, String> {
        SRC.with(|s| *s.borrow_mut() = src);
        LOG.with(|l| l.borrow_mut().clear());
        match std::panic::catch_unwind(f) {
            Ok(()) => Ok(true),
            Err(e) if e.is::<Assumed>() => Ok(false),
            Err(e) => Err(e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into())),
        }
    }
    /// `NAME bytes HEX,HEX,..` or `NAME rng SEED COUNT`; 1 when an input makes the harness fail.
    pub fn drive(f: fn(), a: &[String]) -> i32 {
        let hex = |v: &[u8]| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
        let unhex = |s: &str| -> Vec<u8> {
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
        };
        std::panic::set_hook(Box::new(|_| {}));
        let report = |e: String| {
            println!("{}: {e}", a[1]);
            println!("inputs in order of any(), little-endian: {}", log().iter().map(|v| hex(v)).collect::<Vec<_>>().join(","));
            1
        };
        match a[2].as_str() {
            "bytes" => match run(f, Src::Bytes(a[3].split(',').map(|s| unhex(s.trim_matches('-'))).collect())) {
                Err(e) => report(e),
                Ok(_) => 0,
            },
            _ => {
                let seed: u64 = a[3].parse().unwrap_or(1);
                let n: u64 = a[4].parse().unwrap_or(1000);
                let t = std::time::Instant::now();
                let mut ran = 0u64;
                for i in 0..n {
                    match run(f, Src::Rng(seed.wrapping_mul(0x1000_0001).wrapping_add(i.wrapping_mul(0x51_7cc1_b727)))) {
                        Err(e) => return report(e),
                        Ok(k) => ran += k as u64,
                    }
                    if t.elapsed().as_secs() > 60 {
                        break;
                    }
                }
                println!("RAN {ran}");
                0
            }
        }
    }
    /// The values handed out by `any()` in the last run.
    pub fn log() -> Vec<Vec<u8>> {
        LOG.with(|l| l.borrow().clone())
    }
}

/// `harness! { C06 #[kani::unwind(5)] fn name() { .. } }`
macro_rules! harness {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        $(#[$m])*
        fn $name() $body

        #[cfg(not(kani))]
        #[unsafe(no_mangle)]
        pub fn $name() $body
    };
}
