//! Verification conditions for one program: the code the real translator emits for it against the EVM specification,
//! for every calldata, environment, gas, host answer and frame outcome.

use crate::{e2e::*, families::*, r#gen::*, sym::*, term::*};
use revm_bytecode::opcode::{self as op, OPCODE_INFO};
use revm_primitives::U256;
use std::{
    collections::BTreeMap,
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, Command, Stdio},
    time::Instant,
};

pub enum Verdict {
    Unsat,
    /// A model, and whether the query is exact (no function known only by its contract).
    Sat(BTreeMap<String, U256>, bool),
    Unknown,
}

struct Solver {
    ch: Child,
    i: ChildStdin,
    rx: std::sync::mpsc::Receiver<String>,
}
impl Solver {
    fn new(cmd: &[&str]) -> Option<Self> {
        let mut ch = Command::new(cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let i = ch.stdin.take()?;
        let o = BufReader::new(ch.stdout.take()?);
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in o.lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Some(Self { ch, i, rx })
    }
    /// Sends the text; answers the lines up to the end marker.
    fn ask(&mut self, text: &str, ms: u64) -> Option<Vec<String>> {
        self.i.write_all(text.as_bytes()).ok()?;
        self.i.write_all(b"\n(echo \"--\")\n").ok()?;
        self.i.flush().ok()?;
        let end = Instant::now() + std::time::Duration::from_millis(ms);
        let mut v = vec![];
        loop {
            let l = self.rx.recv_timeout(end.saturating_duration_since(Instant::now())).ok()?;
            if l.trim_matches('"') == "--" {
                return Some(v);
            }
            v.push(l);
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

pub struct Prover {
    z3: Option<Solver>,
    ms: u64,
    pub by_z3: u64,
    pub by_cvc5: u64,
    pub by_identity: u64,
    pub undecided: u64,
    pub secs: f64,
}
impl Prover {
    pub fn new(ms: u64) -> Self {
        Self { z3: None, ms, by_z3: 0, by_cvc5: 0, by_identity: 0, undecided: 0, secs: 0.0 }
    }
    fn values(lines: &[String]) -> BTreeMap<String, U256> {
        let t = lines.join(" ");
        let mut m = BTreeMap::new();
        for part in t.split('(') {
            let mut w = part.trim_end_matches([')', ' ']).split_whitespace();
            if let (Some(k), Some(v)) = (w.next(), w.next()) {
                let v = if let Some(x) = v.strip_prefix("#x") {
                    U256::from_str_radix(x, 16).ok()
                } else if let Some(x) = v.strip_prefix("#b") {
                    U256::from_str_radix(x, 2).ok()
                } else {
                    None
                };
                if let Some(v) = v {
                    m.insert(k.to_string(), v);
                }
            }
        }
        m
    }
    /// Is the conjunction satisfiable?
    pub fn sat(&mut self, conj: &[Id]) -> Verdict {
        let mut cs: Vec<Id> = vec![];
        for x in conj {
            match cv(*x) {
                Some(v) if v.is_zero() => {
                    self.by_identity += 1;
                    return Verdict::Unsat;
                }
                Some(_) => {}
                None if cs.contains(&not(*x)) => {
                    self.by_identity += 1;
                    return Verdict::Unsat;
                }
                None => cs.push(*x),
            }
        }
        let q = query(&cs);
        let names: Vec<&str> = q.vars.iter().filter(|v| v.1 != MEM).map(|v| v.0.as_str()).collect();
        let get = if names.is_empty() { String::new() } else { format!("(get-value ({}))", names.join(" ")) };
        let t0 = Instant::now();
        for _ in 0..2 {
            if self.z3.is_none() {
                self.z3 = Solver::new(&["z3-new", "-in"]).or_else(|| Solver::new(&["z3", "-in"]));
            }
            let Some(z) = &mut self.z3 else { break };
            let head = format!("(reset)\n(set-option :timeout {})\n(set-option :model.completion true)\n(set-logic QF_AUFBV)\n", self.ms);
            match z.ask(&(head + &q.text + "(check-sat)"), self.ms + 3000) {
                Some(l) if l.iter().any(|l| l == "unsat") => {
                    self.by_z3 += 1;
                    self.secs += t0.elapsed().as_secs_f64();
                    return Verdict::Unsat;
                }
                Some(l) if l.iter().any(|l| l == "sat") => {
                    let v = z.ask(&get, 5000).unwrap_or_default();
                    self.secs += t0.elapsed().as_secs_f64();
                    return Verdict::Sat(Self::values(&v), !q.text.contains("(declare-fun "));
                }
                Some(l) if l.iter().any(|l| l == "unknown" || l == "timeout") => break,
                Some(l) => {
                    if std::env::var("VCDEBUG").is_ok() {
                        eprintln!("z3: {l:?}");
                    }
                    break;
                }
                None => self.z3 = None,
            }
        }
        // Second opinion.
        if let Some(mut s) = Solver::new(&["cvc5", "--incremental", "--produce-models", "--arrays-exp", &format!("--tlimit-per={}", self.ms)])
            && let Some(l) = s.ask(&format!("(set-logic ALL)\n{}(check-sat)", q.text), self.ms + 3000)
        {
            if l.iter().any(|l| l == "unsat") {
                self.by_cvc5 += 1;
                self.secs += t0.elapsed().as_secs_f64();
                return Verdict::Unsat;
            }
            if l.iter().any(|l| l == "sat") {
                let v = s.ask(&get, 5000).unwrap_or_default();
                self.secs += t0.elapsed().as_secs_f64();
                return Verdict::Sat(Self::values(&v), !q.text.contains("(declare-fun "));
            }
        }
        self.secs += t0.elapsed().as_secs_f64();
        self.undecided += 1;
        Verdict::Unknown
    }
}

fn conj(v: &[Id]) -> Id {
    v.iter().fold(tt(), |a, b| and(a, *b))
}
fn disj(v: impl Iterator<Item = Id>) -> Id {
    v.fold(ff(), |a, b| or(a, b))
}

#[derive(Default)]
pub struct Outcome {
    pub unsupported: Option<String>,
    pub obligations: u64,
    /// Failed obligation: name, model, failing run of the real code if one was found.
    pub failed: Option<(String, BTreeMap<String, U256>, Option<(Case, String)>)>,
    pub paths: usize,
}

pub fn verify(case: &Case, pr: &mut Prover) -> Outcome {
    reset();
    let mut out = Outcome::default();
    let compiled = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compile(case)));
    let (m, f) = match compiled {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            out.failed = Some((format!("compiles: {e}"), BTreeMap::new(), concretise(case, &BTreeMap::new())));
            return out;
        }
        Err(_) => {
            out.failed = Some(("compiles: panic".into(), BTreeMap::new(), concretise(case, &BTreeMap::new())));
            return out;
        }
    };
    let m = m.borrow();
    let ir = explore(case.spec, |ex| run_ir(ex, &m, f, case));
    let sp = explore(case.spec, |ex| run_spec(ex, case));
    out.paths = ir.len() + sp.len();
    for p in ir.iter().chain(&sp) {
        if let End::Unsupported(e) = &p.end {
            out.unsupported = Some(e.clone());
            return out;
        }
    }
    let mut ob: Vec<(String, Vec<Id>)> = vec![];
    for p in &ir {
        for (pc, what, bad) in &p.obl {
            let mut v = pc.clone();
            v.push(*bad);
            ob.push((what.clone(), v));
        }
        if let End::Ub(w) = &p.end {
            ob.push((format!("undefined behaviour: {w}"), p.pc.clone()));
        }
    }
    let done = |p: &&Path| matches!(p.end, End::Done { .. });
    let (di, ds): (Vec<_>, Vec<_>) = (ir.iter().filter(done).collect(), sp.iter().filter(done).collect());
    for (a, b, what) in [
        (&di, &ds, "the compiled code completes where the EVM halts"),
        (&ds, &di, "the compiled code halts where the EVM completes"),
    ] {
        let any = disj(b.iter().map(|p| conj(&p.pc)));
        for p in a.iter() {
            let mut key = p.pc.clone();
            key.sort();
            let same = b.iter().any(|q| {
                let mut k = q.pc.clone();
                k.sort();
                k == key
            });
            if same {
                pr.by_identity += 1;
                out.obligations += 1;
                continue;
            }
            let mut v = p.pc.clone();
            v.push(not(any));
            ob.push((what.into(), v));
        }
    }
    for p in &di {
        for q in &ds {
            let (End::Done { kind: k1, obs: o1 }, End::Done { kind: k2, obs: o2 }) = (&p.end, &q.end) else { unreachable!() };
            let mut v = p.pc.clone();
            v.extend_from_slice(&q.pc);
            let names = |p: &Path| p.events.iter().map(|e| (e.name.clone(), e.args.len())).collect::<Vec<_>>();
            let what;
            if k1 != k2 || o1.len() != o2.len() || names(p) != names(q) {
                what = format!("same completion and host interaction ({k1} / {k2})");
            } else {
                let mut diff = ff();
                for (a, b) in o1.iter().zip(o2) {
                    diff = or(diff, not(eq(*a, *b)));
                }
                for (e, g) in p.events.iter().zip(&q.events) {
                    for (a, b) in e.args.iter().zip(&g.args) {
                        diff = or(diff, not(eq(*a, *b)));
                    }
                }
                v.push(diff);
                what = format!("same observations at {k1}");
            }
            ob.push((what, v));
        }
    }
    let t0 = Instant::now();
    let mut tries = 0;
    for (what, v) in ob {
        out.obligations += 1;
        if t0.elapsed().as_millis() as u64 > 2 * pr.ms {
            pr.undecided += 1;
            continue;
        }
        match pr.sat(&v) {
            Verdict::Unsat | Verdict::Unknown => {}
            Verdict::Sat(m, exact) => {
                let run = if tries < 3 { concretise(case, &m) } else { None };
                tries += 1;
                if run.is_none() && !exact {
                    // The model gives meaning to functions known only by contract: not a counterexample.
                    pr.undecided += 1;
                    continue;
                }
                out.failed = Some((what, m, run));
                return out;
            }
        }
    }
    out
}

/// A concrete failing run for a model of a failed obligation, if one can be found.
pub fn concretise(case: &Case, model: &BTreeMap<String, U256>) -> Option<(Case, String)> {
    let mut base = case.clone();
    let mut cd = vec![];
    for (k, v) in model {
        if let Some(o) = k.strip_prefix("cd_").and_then(|o| o.parse::<usize>().ok())
            && o < 4096
        {
            if cd.len() < o + 32 {
                cd.resize(o + 32, 0);
            }
            cd[o..o + 32].copy_from_slice(&v.to_be_bytes::<32>());
        }
    }
    if let Some(n) = model.get("cdsize")
        && *n < U256::from(100_000)
    {
        cd.resize(n.to::<usize>(), 0);
    }
    if !cd.is_empty() {
        base.calldata = cd;
    }
    let g0 = model.get("g0").map(|g| g.to::<u64>());
    let try_ = |c: &Case| check(c).err().map(|e| (c.clone(), e));
    for g in [g0.unwrap_or(200_000), 200_000, 5_000_000] {
        for cdata in [base.calldata.clone(), case.calldata.clone()] {
            let mut c = base.clone();
            c.gas = g.min(1 << 40);
            c.calldata = cdata;
            if let Some(x) = try_(&c) {
                return Some(x);
            }
            for s in 0..6 {
                c.seed = s;
                c.db_error_at = if s == 5 { Some(0) } else { None };
                if let Some(x) = try_(&c) {
                    return Some(x);
                }
            }
        }
    }
    let mut r = Rng(7);
    let b = boundary();
    for k in 0..400 {
        let mut c = base.clone();
        if k % 2 == 0 {
            let mut cd = vec![];
            for _ in 0..4 {
                let w = if r.chance(50) { r.pick(&b) } else { r.word() };
                cd.extend(w.to_be_bytes::<32>());
            }
            c.calldata = cd;
        }
        c.seed = r.below(16);
        c.gas = match (r.below(3), g0) {
            (0, Some(g)) => (g.min(1 << 40)).wrapping_add(r.below(64)).saturating_sub(32),
            (1, _) => r.below(3000),
            _ => 5_000_000,
        };
        if let Some(x) = try_(&c) {
            return Some(x);
        }
    }
    None
}

/// Constants worth an obligation of their own as an immediate operand.
fn consts() -> Vec<U256> {
    let mut v = boundary();
    for k in 0..256 {
        v.push(U256::from(1) << k);
    }
    for k in 0..32u64 {
        v.push(U256::from(k));
        v.push(U256::from(8 * k + 7));
    }
    v.push(U256::MAX << 8);
    v.push((U256::from(1) << 160) - U256::from(1));
    v.sort();
    v.dedup();
    v
}

fn pure_program(o: u8, args: &[Option<U256>], mat: bool, tail: u8) -> Case {
    let mut p = Prog::new(1);
    let mut at = 0u64;
    for a in args.iter().rev() {
        match a {
            Some(k) => p.push(*k),
            None => {
                p.push(U256::from(at));
                p.op(op::CALLDATALOAD);
                at += 32;
            }
        }
    }
    if mat {
        p.op(op::JUMPDEST);
    }
    p.op(o);
    match tail {
        0 => {}
        1 => {
            p.push(U256::ZERO);
            p.op(op::MSTORE);
            p.push(U256::from(32));
            p.push(U256::ZERO);
            p.op(op::RETURN);
        }
        _ => {
            // The result decides a branch.
            p.push_label(0);
            p.op(op::JUMPI);
            p.op(op::STOP);
            p.place(0);
            p.push(U256::from(3));
        }
    }
    let mut c = Case::new(p.finish(), *specs().last().unwrap());
    c.debug = false;
    c.inspect = tail != 1;
    c.calldata = vec![];
    c
}

/// Program `i` of a family; `None` past the end of a finite family.
pub fn program(fam: &str, i: u64, seed: u64) -> Option<Case> {
    if let Some(g) = fam.strip_prefix("grid:") {
        let mut c = grid(g, i)?;
        c.debug = false;
        return Some(c);
    }
    match fam {
        "pure-const" => {
            // Every pure opcode, one constant operand in each position, the others symbolic.
            let cs = consts();
            let (o, i) = (PURE[(i % PURE.len() as u64) as usize], i / PURE.len() as u64);
            let (k, i) = (cs[(i % cs.len() as u64) as usize], i / cs.len() as u64);
            let ins = OPCODE_INFO[o as usize].unwrap().inputs() as usize;
            let (pos, i) = (i % 3, i / 3);
            if i >= 1 {
                return None;
            }
            let mut a = vec![None; ins];
            a[(pos as usize).min(ins - 1)] = Some(k);
            Some(pure_program(o, &a, false, (k.count_ones() % 2) as u8))
        }
        "pure" => {
            // Every pure opcode on symbolic operands in every placement, and on small sets of constants.
            let (o, i) = (PURE[(i % PURE.len() as u64) as usize], i / PURE.len() as u64);
            let (form, i) = (i % 8, i / 8);
            let (mat, i) = (i % 2 == 1, i / 2);
            let (tail, i) = ((i % 3) as u8, i / 3);
            let cs = [U256::ZERO, U256::from(1), U256::from(31), U256::from(255), U256::MAX, U256::from(1) << 255];
            if i >= cs.len() as u64 {
                return None;
            }
            let ins = OPCODE_INFO[o as usize].unwrap().inputs() as usize;
            let a: Vec<_> = (0..ins).map(|k| if form >> k & 1 == 1 { None } else { Some(cs[(i as usize + k * 5) % cs.len()]) }).collect();
            let mut c = pure_program(o, &a, mat, tail);
            if a.iter().all(|x| x.is_some()) && mat {
                c.fold = Some(0);
            }
            Some(c)
        }
        _ => {
            let mut r = Rng(seed.wrapping_mul(0x9e37_79b9).wrapping_add(i.wrapping_mul(0xd134_2543_de82_ef95)) ^ 0x5bd1);
            let fs: Vec<&str> = fam.split(',').collect();
            let f = r.pick(&fs);
            let mut c = match f.strip_prefix("small-") {
                Some(m) => {
                    let m = match m {
                        "pure" => Mix::Pure,
                        "stack" => Mix::Stack,
                        "memory" => Mix::Memory,
                        "storage" => Mix::Storage,
                        "calls" => Mix::Calls,
                        _ => Mix::All,
                    };
                    let (b, l) = r.pick(&[(1u64, 3u64), (1, 6), (2, 2), (3, 1)]);
                    let code = blocks(&mut r, m, b, l);
                    let all = specs();
                    let spec = if r.chance(50) { *all.last().unwrap() } else { r.pick(&all) };
                    let mut c = Case::new(code, spec);
                    vary(&mut r, &mut c);
                    c
                }
                None => random(f, &mut r),
            };
            c.debug = r.chance(10);
            Some(c)
        }
    }
}

/// `irx vc FAMILY SHARD SHARDS TIER SEED SECS`
pub fn main(a: &[String]) {
    let fam = &a[0];
    let (shard, shards): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let quick = a[3] == "quick";
    let seed: u64 = a[4].parse().unwrap();
    let secs: f64 = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let t = Instant::now();
    let mut pr = Prover::new(if quick { 2500 } else { 20000 });
    let (mut programs, mut obligations, mut fails) = (0u64, 0u64, 0);
    let mut uns: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut i = shard;
    let mut complete = false;
    while t.elapsed().as_secs_f64() < secs && fails < 2 {
        let Some(c) = program(fam, i, seed) else {
            complete = true;
            break;
        };
        i += shards;
        if std::env::var("VCDEBUG").is_ok() {
            eprintln!("{}", c.show());
        }
        let u0 = pr.undecided;
        let o = verify(&c, &mut pr);
        if pr.undecided > u0 && std::env::var("VCDEBUG").is_ok() {
            eprintln!("UNDECIDED {}", c.show());
        }
        if let Some(u) = o.unsupported {
            let k: String = u.chars().filter(|c| !c.is_ascii_digit()).collect();
            *uns.entry(k).or_default() += 1;
            continue;
        }
        programs += 1;
        obligations += o.obligations;
        if samples.len() < 2 && o.paths > 4 {
            samples.push(format!("0x{} spec {} inspect {}: {} paths, {} obligations", hex(&c.code), c.spec as u8, c.inspect, o.paths, o.obligations));
        }
        if let Some((what, model, run)) = o.failed {
            fails += 1;
            let name = format!("{fam}/{i}/{}", what.replace(char::is_whitespace, "_"));
            let m = model.iter().map(|(k, v)| format!("{k}={v:#x}")).collect::<Vec<_>>().join(" ");
            match run {
                Some((cc, e)) => {
                    let (cc, e) = shrink(&cc, &e);
                    println!("VCFAIL {name} found {}", cc.show());
                    for l in e.lines().take(8) {
                        println!("  {}", l.chars().take(1000).collect::<String>());
                    }
                }
                None => {
                    println!("VCFAIL {name} nofound {}", c.show());
                    println!("  failed obligation: {what}");
                }
            }
            println!("  model: {}", m.chars().take(2000).collect::<String>());
        }
    }
    let samples = samples.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ");
    let failed = fails;
    println!(
        "SUMMARY {{\"programs\": {programs}, \"obligations\": {obligations}, \"discharged\": {}, \"by_identity\": {}, \"by_z3\": {}, \"by_cvc5\": {}, \"undecided\": {}, \"unsupported\": {}, \"unsupported_why\": {uns:?}, \"failed\": {failed}, \"solver_s\": {:.1}, \"complete\": {complete}, \"samples\": [{samples}]}}",
        pr.by_identity + pr.by_z3 + pr.by_cvc5,
        pr.by_identity,
        pr.by_z3,
        pr.by_cvc5,
        pr.undecided,
        uns.values().sum::<u64>(),
        pr.secs
    );
}
