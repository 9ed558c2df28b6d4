//! `irx fuzz FAMILY[,FAMILY..] SEED SECS CUR` | `irx grid NAME SHARD SHARDS SECS CUR` | `irx replay FILE`
//! `irx vc FAMILY SHARD SHARDS TIER SEED SECS`
//!
//! Differential runs of the real compiler against the revm interpreter. Failures are printed as
//! `FAIL <case>` followed by an indented message; the last line is `SUMMARY {json}`.

use irx::{e2e::*, families, r#gen::*};
use std::{collections::BTreeMap, io::Write, os::unix::fs::FileExt, time::Instant};

struct Run {
    cur: std::fs::File,
    n: u64,
    kinds: BTreeMap<String, u64>,
    fails: u64,
    sample: String,
    distinct: std::collections::HashSet<u64>,
}
impl Run {
    fn one(&mut self, c: &Case, tight: bool, r: &mut Rng) -> bool {
        let s = c.show();
        let mut b = s.clone().into_bytes();
        b.push(10);
        b.resize(b.len().max(4096), b' ');
        let _ = self.cur.write_all_at(&b, 0);
        self.n += 1;
        use std::hash::{Hash, Hasher};
        let mut h = std::hash::DefaultHasher::new();
        c.code.hash(&mut h);
        match check(c) {
            Ok(o) => {
                let k = match o.last() {
                    Some(Obs::Halt(_)) => "halt",
                    Some(Obs::Done { .. }) => "return",
                    Some(Obs::Frame { .. }) => "frame",
                    None => "none",
                };
                *self.kinds.entry(k.into()).or_default() += 1;
                if c.code.len() > 3 && k != "halt" {
                    self.distinct.insert(h.finish());
                    if self.sample.is_empty() {
                        self.sample = s;
                    }
                }
                if tight && k == "return" {
                    let Some(Obs::Done { what }) = o.last() else { unreachable!() };
                    let rem: Option<u64> = what
                        .split_once("igas[remaining=")
                        .and_then(|x| x.1.split(' ').next())
                        .and_then(|x| x.parse().ok());
                    let used = c.gas - rem.unwrap_or(0);
                    let mut d = c.clone();
                    for g in [used, used.saturating_sub(1), r.below(used + 1)] {
                        d.gas = g;
                        if !self.one(&d, false, r) {
                            return false;
                        }
                    }
                    // More may be needed than is used (stipend sentry, child frames): close in on the least sufficient limit.
                    let (mut lo, mut hi) = (used, c.gas);
                    let done = |c: &Case| matches!(check(c).map(|o| matches!(o.last(), Some(Obs::Done { .. }))), Ok(true));
                    d.gas = used;
                    if !done(&d) {
                        while lo + 1 < hi {
                            let mid = lo + (hi - lo) / 2;
                            d.gas = mid;
                            if !self.one(&d, false, r) {
                                return false;
                            }
                            if done(&d) {
                                hi = mid;
                            } else {
                                lo = mid;
                            }
                        }
                    }
                }
                true
            }
            Err(e) => {
                self.fails += 1;
                let (c, e) = shrink(c, &e);
                println!("FAIL {}", c.show());
                for l in e.lines().take(12) {
                    println!("  {}", l.chars().take(1500).collect::<String>());
                }
                std::io::stdout().flush().unwrap();
                false
            }
        }
    }
    fn done(self, extra: &str) {
        println!(
            "SUMMARY {{\"programs\": {}, \"distinct_nonhalting\": {}, \"outcomes\": {:?}, \"fails\": {}, \"sample\": {:?}{extra}}}",
            self.n,
            self.distinct.len(),
            self.kinds,
            self.fails,
            self.sample
        );
    }
}

fn main() {
    if std::env::var_os("IRX_PANIC").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let t = Instant::now();
    let open = |p: &str| std::fs::File::create(p).unwrap();
    let new = |cur: &str| Run {
        cur: open(cur),
        n: 0,
        kinds: BTreeMap::new(),
        fails: 0,
        sample: String::new(),
        distinct: Default::default(),
    };
    match a[1].as_str() {
        "fuzz" => {
            let fam: Vec<&str> = a[2].split(',').collect();
            let mut r = Rng(a[3].parse().unwrap());
            let secs: f64 = a[4].parse().unwrap();
            let mut run = new(&a[5]);
            while t.elapsed().as_secs_f64() < secs && run.fails < 2 {
                let f = r.pick(&fam);
                let (f, tight) = f.strip_suffix("+gas").map_or((f, false), |f| (f, true));
                let c = families::random(f, &mut r);
                run.one(&c, tight, &mut r);
            }
            run.done("");
        }
        "grid" => {
            let (shard, shards): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let secs: f64 = a[5].parse().unwrap();
            let mut run = new(&a[6]);
            let (name, tight) = a[2].strip_suffix("+gas").map_or((a[2].as_str(), false), |f| (f, true));
            let mut i = shard;
            let mut complete = false;
            let mut r = Rng(1);
            while t.elapsed().as_secs_f64() < secs && run.fails < 2 {
                let Some(c) = families::grid(name, i) else {
                    complete = true;
                    break;
                };
                run.one(&c, tight, &mut r);
                i += shards;
            }
            run.done(&format!(", \"complete\": {complete}"));
        }
        "vc" => irx::vc::main(&a[2..]),
        "replay" => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let line = text.lines().find(|l| l.starts_with("code=") || l.starts_with("FAIL code=")).expect("no case in file");
            let c = Case::parse(line.trim_start_matches("FAIL ")).expect("bad case");
            match check(&c) {
                Ok(_) => println!("REPLAY agrees"),
                Err(e) => {
                    println!("REPLAY fails: {}", e.chars().take(4000).collect::<String>());
                    std::process::exit(1);
                }
            }
        }
        _ => panic!("usage"),
    }
}
