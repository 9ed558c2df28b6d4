//! Bounded stand-ins for the parts no verifier here can take (files, hash maps, threads, text): the real public API is
//! driven by generated histories against an ideal model.
//!
//!     natd store|lookup|asm SEED SECONDS
mod asm;
mod lookup;
mod store;

use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// What one history did: a fingerprint for counting distinct ones, and whether it exercised the property at all.
pub struct Ran {
    pub print: u64,
    pub nontrivial: bool,
}

pub fn fold(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x0100_0000_01b3).rotate_left(23)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let what = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap();
    let end = Instant::now() + Duration::from_secs(a[3].parse().unwrap());
    let only: Option<u64> = a.get(4).map(|s| s.parse().unwrap());
    let one: fn(u64) -> Result<Ran, String> = match what {
        "store" => store::history,
        "lookup" => lookup::history,
        "asm" => asm::case,
        _ => panic!("{what}"),
    };
    if what != "asm" {
        // The store under test makes temporary directories: keep them below the scratch directory we run in.
        unsafe { std::env::set_var("TMPDIR", std::env::current_dir().unwrap()) };
    }
    let (mut n, mut distinct, mut nontrivial, mut i) = (0u64, std::collections::HashSet::new(), 0u64, 0u64);
    loop {
        let s = only.unwrap_or_else(|| seed.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(i));
        match std::panic::catch_unwind(|| one(s)) {
            Ok(Ok(r)) => {
                n += 1;
                if r.nontrivial {
                    nontrivial += 1;
                    distinct.insert(r.print);
                }
            }
            Ok(Err(e)) => {
                println!("FAIL {what} history {s}\n  {}", e.replace('\n', "\n  "));
                std::process::exit(1);
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("FAIL {what} history {s}\n  panic: {}", m.replace('\n', "\n  "));
                std::process::exit(1);
            }
        }
        i += 1;
        if only.is_some() || Instant::now() > end {
            break;
        }
    }
    println!("SUMMARY {{\"evaluations\": {n}, \"distinct\": {}, \"nontrivial\": {nontrivial}}}", distinct.len());
}
