//! Hash-consed bit-vector / memory terms, simplified on construction, and their SMT-LIB rendering.

use crate::interp;
use crate::ir::{Bin, mask};
use revmc_backend::U256;
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    fmt::Write,
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Id(pub u32);

/// Width in bits; 0 is the sort of EVM memories (arrays from 64-bit addresses to bytes).
pub const MEM: u32 = 0;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(U256),
    Var(String),
    Add,
    Mul,
    /// SMT-LIB division: total, by zero gives all ones.
    UDiv,
    URem,
    And,
    Or,
    Xor,
    /// Shifts are total (SMT-LIB).
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Zext,
    Sext,
    Extract(u32),
    Bswap,
    Clz,
    Uf(&'static str),
    MZero,
    /// `[mem, addr, value]`: little-endian store of the value's bytes.
    MStore,
    /// `[mem, addr]`: little-endian load.
    MLoad,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct N {
    pub k: K,
    pub w: u32,
    pub a: Vec<Id>,
}

#[derive(Default)]
struct Dag {
    nodes: Vec<N>,
    index: HashMap<N, Id>,
}
thread_local! {
    static DAG: RefCell<Dag> = RefCell::new(Dag::default());
}

pub fn reset() {
    DAG.with(|d| *d.borrow_mut() = Dag::default());
}
fn raw(k: K, w: u32, a: Vec<Id>) -> Id {
    DAG.with(|d| {
        let d = &mut *d.borrow_mut();
        let n = N { k, w, a };
        if let Some(i) = d.index.get(&n) {
            return *i;
        }
        let i = Id(d.nodes.len() as u32);
        d.nodes.push(n.clone());
        d.index.insert(n, i);
        i
    })
}
pub fn node(i: Id) -> N {
    DAG.with(|d| d.borrow().nodes[i.0 as usize].clone())
}
pub fn width(i: Id) -> u32 {
    DAG.with(|d| d.borrow().nodes[i.0 as usize].w)
}
pub fn cv(i: Id) -> Option<U256> {
    DAG.with(|d| match &d.borrow().nodes[i.0 as usize].k {
        K::Const(c) => Some(*c),
        _ => None,
    })
}
pub fn c(w: u32, v: U256) -> Id {
    raw(K::Const(mask(w, v)), w, vec![])
}
pub fn cu(w: u32, v: u64) -> Id {
    c(w, U256::from(v))
}
pub fn var(w: u32, name: impl Into<String>) -> Id {
    raw(K::Var(name.into()), w, vec![])
}
/// Dynamic charges are capped at this many bits: no gas below 2^50 pays for more.
pub const COST: u32 = 56;
pub fn cost_uf(name: &'static str, a: Vec<Id>) -> Id {
    zext(64, uf(name, COST, a))
}
pub fn is_gas_var(x: Id) -> bool {
    matches!(node(x).k, K::Var(v) if v == "g0" || v.ends_with("gas"))
}
pub fn uf(name: &'static str, w: u32, a: Vec<Id>) -> Id {
    raw(K::Uf(name), w, a)
}
pub fn tt() -> Id {
    cu(1, 1)
}
pub fn ff() -> Id {
    cu(1, 0)
}
fn ones(w: u32) -> U256 {
    mask(w, U256::MAX)
}

fn fold2(op: Bin, a: Id, b: Id) -> Option<U256> {
    interp::bin(op, width(a), cv(a)?, cv(b)?)
}
fn comm(a: Id, b: Id) -> (Id, Id) {
    // Constants last, otherwise ordered.
    match (cv(a), cv(b)) {
        (Some(_), None) => (b, a),
        (None, Some(_)) => (a, b),
        _ if a <= b => (a, b),
        _ => (b, a),
    }
}
/// Adds `k * x` to a linear combination (coefficients modulo 2^w).
fn lin_into(x: Id, k: U256, m: &mut BTreeMap<Id, U256>, k0: &mut U256) {
    let n = node(x);
    let w = n.w;
    match &n.k {
        K::Const(v) => *k0 = mask(w, k0.wrapping_add(v.wrapping_mul(k))),
        K::Add => {
            lin_into(n.a[0], k, m, k0);
            lin_into(n.a[1], k, m, k0);
        }
        // ~x = -x - 1
        K::Xor if cv(n.a[1]) == Some(ones(w)) && w > 1 => {
            let nk = mask(w, U256::ZERO.wrapping_sub(k));
            lin_into(n.a[0], nk, m, k0);
            *k0 = mask(w, k0.wrapping_add(nk));
        }
        K::Mul if cv(n.a[1]).is_some() => {
            let kk = mask(w, k.wrapping_mul(cv(n.a[1]).unwrap()));
            lin_into(n.a[0], kk, m, k0);
        }
        _ => {
            let e = m.entry(x).or_default();
            *e = mask(w, e.wrapping_add(k));
        }
    }
}
/// The linear form of a term: coefficients of its leaves, and the constant.
pub fn lin(x: Id) -> (BTreeMap<Id, U256>, U256) {
    let (mut m, mut k0) = (BTreeMap::new(), U256::ZERO);
    lin_into(x, U256::from(1), &mut m, &mut k0);
    m.retain(|_, v| !v.is_zero());
    (m, k0)
}
pub fn add(a: Id, b: Id) -> Id {
    let w = width(a);
    if let Some(v) = fold2(Bin::Add, a, b) {
        return c(w, v);
    }
    if cv(a).is_some_and(|v| v.is_zero()) {
        return b;
    }
    if cv(b).is_some_and(|v| v.is_zero()) {
        return a;
    }
    let (mut m, mut k0) = (BTreeMap::new(), U256::ZERO);
    lin_into(a, U256::from(1), &mut m, &mut k0);
    lin_into(b, U256::from(1), &mut m, &mut k0);
    let mut acc: Option<Id> = None;
    for (x, k) in m {
        if k.is_zero() {
            continue;
        }
        let t = if k == U256::from(1) {
            x
        } else if k == ones(w) {
            k0 = mask(w, k0.wrapping_add(U256::from(1)));
            raw(K::Xor, w, vec![x, c(w, U256::MAX)])
        } else {
            raw(K::Mul, w, vec![x, c(w, k)])
        };
        acc = Some(match acc {
            None => t,
            Some(y) => raw(K::Add, w, vec![y, t]),
        });
    }
    match acc {
        None => c(w, k0),
        Some(y) if k0.is_zero() => y,
        Some(y) => raw(K::Add, w, vec![y, c(w, k0)]),
    }
}
pub fn neg(a: Id) -> Id {
    let w = width(a);
    if let Some(v) = cv(a) {
        return c(w, U256::ZERO.wrapping_sub(v));
    }
    // -x = ~x + 1
    add(not(a), cu(w, 1))
}
pub fn sub(a: Id, b: Id) -> Id {
    let w = width(a);
    if a == b {
        return cu(w, 0);
    }
    if let Some(v) = cv(b) {
        return add(a, c(w, U256::ZERO.wrapping_sub(v)));
    }
    if let (Some(v), _) = (cv(a), ())
        && v.is_zero()
    {
        return neg(b);
    }
    // `(x + k) - y` and `x - y` normalise through the sum.
    add(a, neg(b))
}
pub fn mul(a: Id, b: Id) -> Id {
    let w = width(a);
    if let Some(v) = fold2(Bin::Mul, a, b) {
        return c(w, v);
    }
    let (a, b) = comm(a, b);
    match cv(b) {
        Some(k) if k.is_zero() => b,
        Some(k) if k == U256::from(1) => a,
        _ => raw(K::Mul, w, vec![a, b]),
    }
}
pub fn udiv(a: Id, b: Id) -> Id {
    let w = width(a);
    match (cv(a), cv(b)) {
        (_, Some(y)) if y.is_zero() => c(w, U256::MAX),
        (Some(x), Some(y)) => c(w, x / y),
        (_, Some(y)) if y == U256::from(1) => a,
        _ => raw(K::UDiv, w, vec![a, b]),
    }
}
pub fn urem(a: Id, b: Id) -> Id {
    let w = width(a);
    match (cv(a), cv(b)) {
        (_, Some(y)) if y.is_zero() => a,
        (Some(x), Some(y)) => c(w, x % y),
        _ => raw(K::URem, w, vec![a, b]),
    }
}
pub fn and(a: Id, b: Id) -> Id {
    let w = width(a);
    if let Some(v) = fold2(Bin::And, a, b) {
        return c(w, v);
    }
    let (a, b) = comm(a, b);
    if a == b {
        return a;
    }
    if a == not_peek(b) || b == not_peek(a) {
        return cu(w, 0);
    }
    match cv(b) {
        Some(k) if k.is_zero() => b,
        Some(k) if k == ones(w) => a,
        _ => raw(K::And, w, vec![a, b]),
    }
}
pub fn or(a: Id, b: Id) -> Id {
    let w = width(a);
    if let Some(v) = fold2(Bin::Or, a, b) {
        return c(w, v);
    }
    let (a, b) = comm(a, b);
    if a == b {
        return a;
    }
    match cv(b) {
        Some(k) if k.is_zero() => a,
        Some(k) if k == ones(w) => b,
        _ => raw(K::Or, w, vec![a, b]),
    }
}
pub fn xor(a: Id, b: Id) -> Id {
    let w = width(a);
    if let Some(v) = fold2(Bin::Xor, a, b) {
        return c(w, v);
    }
    if a == b {
        return cu(w, 0);
    }
    let (a, b) = comm(a, b);
    if let Some(k) = cv(b) {
        if k.is_zero() {
            return a;
        }
        let n = node(a);
        if n.k == K::Xor
            && let Some(k2) = cv(n.a[1])
        {
            return xor(n.a[0], c(w, k ^ k2));
        }
    }
    raw(K::Xor, w, vec![a, b])
}
pub fn not(a: Id) -> Id {
    let w = width(a);
    xor(a, c(w, U256::MAX))
}
fn not_peek(a: Id) -> Id {
    not(a)
}
pub fn shift(k: K, a: Id, b: Id) -> Id {
    let w = width(a);
    if let Some(s) = cv(b) {
        if s.is_zero() {
            return a;
        }
        if s >= U256::from(w) {
            if k != K::AShr {
                return cu(w, 0);
            }
            return shift(K::AShr, a, cu(w, w as u64 - 1));
        }
        if cv(a).is_some() {
            let op = match k {
                K::Shl => Bin::Shl,
                K::LShr => Bin::LShr,
                _ => Bin::AShr,
            };
            return c(w, fold2(op, a, b).unwrap());
        }
    }
    if let Some(x) = cv(a)
        && x.is_zero()
    {
        return a;
    }
    raw(k, w, vec![a, b])
}
pub fn eq(a: Id, b: Id) -> Id {
    if a == b {
        return tt();
    }
    let (a, b) = comm(a, b);
    let w = width(a);
    if let Some(k) = cv(b) {
        if let Some(x) = cv(a) {
            return cu(1, (x == k) as u64);
        }
        if w == 1 {
            return if k.is_zero() { not(a) } else { a };
        }
        let n = node(a);
        if n.k == K::Zext {
            let x = n.a[0];
            return if mask(width(x), k) == k { eq(x, c(width(x), k)) } else { ff() };
        }
        if n.k == K::Ite
            && let (Some(p), Some(q)) = (cv(n.a[1]), cv(n.a[2]))
        {
            return match (p == k, q == k) {
                (true, true) => tt(),
                (true, false) => n.a[0],
                (false, true) => not(n.a[0]),
                (false, false) => ff(),
            };
        }
    }
    raw(K::Eq, 1, vec![a, b])
}
pub fn ult(a: Id, b: Id) -> Id {
    if a == b {
        return ff();
    }
    match (cv(a), cv(b)) {
        (Some(x), Some(y)) => return cu(1, (x < y) as u64),
        (_, Some(y)) if y.is_zero() => return ff(),
        (Some(x), _) if x == ones(width(a)) => return ff(),
        _ => {}
    }
    raw(K::Ult, 1, vec![a, b])
}
pub fn slt(a: Id, b: Id) -> Id {
    if a == b {
        return ff();
    }
    if let (Some(x), Some(y)) = (cv(a), cv(b)) {
        return cu(1, interp::cmp(revmc_backend::IntCC::SignedLessThan, width(a), x, y) as u64);
    }
    raw(K::Slt, 1, vec![a, b])
}
pub fn ite(k: Id, a: Id, b: Id) -> Id {
    if a == b {
        return a;
    }
    if let Some(v) = cv(k) {
        return if v.is_zero() { b } else { a };
    }
    if width(a) == 1
        && let (Some(x), Some(_)) = (cv(a), cv(b))
    {
        return if x.is_zero() { not(k) } else { k };
    }
    raw(K::Ite, width(a), vec![k, a, b])
}
pub fn zext(w: u32, a: Id) -> Id {
    if width(a) == w {
        return a;
    }
    if let Some(v) = cv(a) {
        return c(w, v);
    }
    let n = node(a);
    if n.k == K::Zext {
        return zext(w, n.a[0]);
    }
    raw(K::Zext, w, vec![a])
}
pub fn sext(w: u32, a: Id) -> Id {
    let f = width(a);
    if f == w {
        return a;
    }
    if let Some(v) = cv(a) {
        let s = if v.bit(f as usize - 1) { v | (U256::MAX << f as usize) } else { v };
        return c(w, s);
    }
    raw(K::Sext, w, vec![a])
}
pub fn extract(lo: u32, w: u32, a: Id) -> Id {
    let f = width(a);
    if lo == 0 && f == w {
        return a;
    }
    if let Some(v) = cv(a) {
        return c(w, v >> lo as usize);
    }
    let n = node(a);
    match n.k {
        K::Zext => {
            let x = n.a[0];
            let fx = width(x);
            if lo >= fx {
                return cu(w, 0);
            }
            if lo + w <= fx {
                return extract(lo, w, x);
            }
            if lo == 0 {
                return zext(w, x);
            }
        }
        K::Extract(l2) => return extract(lo + l2, w, n.a[0]),
        K::Ite if cv(n.a[1]).is_some() && cv(n.a[2]).is_some() => {
            return ite(n.a[0], extract(lo, w, n.a[1]), extract(lo, w, n.a[2]));
        }
        _ => {}
    }
    raw(K::Extract(lo), w, vec![a])
}
pub fn bswap(a: Id) -> Id {
    let w = width(a);
    if let Some(v) = cv(a) {
        let nb = w as usize / 8;
        let mut by: [u8; 32] = v.to_le_bytes();
        by[..nb].reverse();
        return c(w, U256::from_le_bytes(by));
    }
    let n = node(a);
    if n.k == K::Bswap {
        return n.a[0];
    }
    raw(K::Bswap, w, vec![a])
}
pub fn clz(a: Id) -> Id {
    let w = width(a);
    if let Some(v) = cv(a) {
        return cu(w, (v.leading_zeros() - (256 - w as usize)) as u64);
    }
    raw(K::Clz, w, vec![a])
}
pub fn mzero() -> Id {
    raw(K::MZero, MEM, vec![])
}
pub fn mstore(m: Id, addr: Id, v: Id) -> Id {
    let n = node(m);
    // A later store of the same bytes hides the earlier one.
    if n.k == K::MStore && n.a[1] == addr && width(n.a[2]) <= width(v) {
        return mstore(n.a[0], addr, v);
    }
    raw(K::MStore, MEM, vec![m, addr, v])
}
pub fn mload(m: Id, addr: Id, w: u32) -> Id {
    let n = node(m);
    match n.k {
        K::MZero => return cu(w, 0),
        K::MStore => {
            let sw = width(n.a[2]);
            if n.a[1] == addr && sw == w {
                return n.a[2];
            }
            if let (Some(p), Some(q)) = (cv(n.a[1]), cv(addr)) {
                let (p, q) = (p.to::<u64>() as u128, q.to::<u64>() as u128);
                if p + sw as u128 / 8 <= q || q + w as u128 / 8 <= p {
                    return mload(n.a[0], addr, w);
                }
                if p <= q && q + w as u128 / 8 <= p + sw as u128 / 8 {
                    return extract(((q - p) * 8) as u32, w, n.a[2]);
                }
            }
        }
        _ => {}
    }
    raw(K::MLoad, w, vec![m, addr])
}

// -- SMT-LIB ------------------------------------------------------------------------------------------------------

fn sort(w: u32) -> String {
    if w == MEM { "(Array (_ BitVec 64) (_ BitVec 8))".into() } else { format!("(_ BitVec {w})") }
}
fn lit(w: u32, v: U256) -> String {
    if w % 4 == 0 { format!("#x{:0>1$x}", v, w as usize / 4) } else { format!("#b{:0>1$b}", v, w as usize) }
}

pub struct Query {
    pub text: String,
    pub vars: Vec<(String, u32)>,
}

/// `(assert (and asserts..))`: declarations, definitions, instantiated axioms and the assertion.
pub fn query(asserts: &[Id]) -> Query {
    let mut order: Vec<Id> = vec![];
    let mut seen: BTreeSet<Id> = BTreeSet::new();
    let mut st: Vec<(Id, bool)> = asserts.iter().rev().map(|a| (*a, false)).collect();
    while let Some((i, done)) = st.pop() {
        if done {
            order.push(i);
            continue;
        }
        if !seen.insert(i) {
            continue;
        }
        st.push((i, true));
        for x in node(i).a {
            if !seen.contains(&x) {
                st.push((x, false));
            }
        }
    }
    let mut t = String::new();
    let mut vars = vec![];
    let mut ufs: BTreeMap<String, (Vec<u32>, u32)> = BTreeMap::new();
    let mut costs: Vec<Id> = vec![];
    let mut decl = String::new();
    for &i in &order {
        let n = node(i);
        let s = |k: usize| name(n.a[k]);
        let w = n.w;
        let e = match &n.k {
            K::Const(_) => continue,
            K::Var(v) => {
                writeln!(decl, "(declare-const {v} {})", sort(w)).unwrap();
                vars.push((v.clone(), w));
                if is_gas_var(i) {
                    writeln!(t, "(assert (bvult {v} #x0004000000000000))").unwrap();
                }
                continue;
            }
            K::Uf(u) => {
                let mangled = format!("{u}_{}", n.a.iter().map(|x| width(*x).to_string()).collect::<Vec<_>>().join("_"));
                ufs.insert(mangled.clone(), (n.a.iter().map(|x| width(*x)).collect(), w));
                if *u == "memcost" {
                    costs.push(i);
                }
                format!("({mangled} {})", n.a.iter().map(|x| name(*x)).collect::<Vec<_>>().join(" "))
            }
            K::Add => format!("(bvadd {} {})", s(0), s(1)),
            K::Mul => format!("(bvmul {} {})", s(0), s(1)),
            K::UDiv => format!("(bvudiv {} {})", s(0), s(1)),
            K::URem => format!("(bvurem {} {})", s(0), s(1)),
            K::And => format!("(bvand {} {})", s(0), s(1)),
            K::Or => format!("(bvor {} {})", s(0), s(1)),
            K::Xor => format!("(bvxor {} {})", s(0), s(1)),
            K::Shl => format!("(bvshl {} {})", s(0), s(1)),
            K::LShr => format!("(bvlshr {} {})", s(0), s(1)),
            K::AShr => format!("(bvashr {} {})", s(0), s(1)),
            K::Eq => format!("(ite (= {} {}) #b1 #b0)", s(0), s(1)),
            K::Ult => format!("(ite (bvult {} {}) #b1 #b0)", s(0), s(1)),
            K::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", s(0), s(1)),
            K::Ite => format!("(ite (= {} #b1) {} {})", s(0), s(1), s(2)),
            K::Zext => format!("((_ zero_extend {}) {})", w - width(n.a[0]), s(0)),
            K::Sext => format!("((_ sign_extend {}) {})", w - width(n.a[0]), s(0)),
            K::Extract(lo) => format!("((_ extract {} {lo}) {})", lo + w - 1, s(0)),
            K::Bswap => {
                let nb = w / 8;
                let parts: Vec<String> = (0..nb).map(|b| format!("((_ extract {} {}) {})", 8 * b + 7, 8 * b, s(0))).collect();
                format!("(concat {})", parts.join(" "))
            }
            K::Clz => {
                let mut e = lit(w, U256::from(w));
                for b in 0..w {
                    e = format!("(ite (= ((_ extract {b} {b}) {}) #b1) {} {e})", s(0), lit(w, U256::from(w - 1 - b)));
                }
                e
            }
            K::MZero => format!("((as const {}) #x00)", sort(MEM)),
            K::MStore => {
                let nb = width(n.a[2]) / 8;
                let mut e = s(0);
                for b in 0..nb {
                    let addr = match cv(n.a[1]) {
                        Some(k) => lit(64, mask(64, k.wrapping_add(U256::from(b)))),
                        None if b == 0 => s(1),
                        None => format!("(bvadd {} {})", s(1), lit(64, U256::from(b))),
                    };
                    e = format!("(store {e} {addr} ((_ extract {} {}) {}))", 8 * b + 7, 8 * b, s(2));
                }
                e
            }
            K::MLoad => {
                let nb = w / 8;
                let parts: Vec<String> = (0..nb)
                    .rev()
                    .map(|b| {
                        let addr = match cv(n.a[1]) {
                            Some(k) => lit(64, mask(64, k.wrapping_add(U256::from(b)))),
                            None if b == 0 => s(1),
                            None => format!("(bvadd {} {})", s(1), lit(64, U256::from(b))),
                        };
                        format!("(select {} {addr})", s(0))
                    })
                    .collect();
                if nb == 1 { parts[0].clone() } else { format!("(concat {})", parts.join(" ")) }
            }
        };
        writeln!(t, "(define-fun {} () {} {e})", name(i), sort(w)).unwrap();
    }
    // memcost is monotone, and no affordable amount pays for 2^32 words.
    for &i in &costs {
        let a = node(i).a[0];
        writeln!(t, "(assert (=> (bvuge {} #x0000000100000000) (bvuge {} #x7fffffffffffff)))", name(a), name(i)).unwrap();
        for &j in &costs {
            if i != j {
                let b = node(j).a[0];
                writeln!(t, "(assert (=> (bvule {} {}) (bvule {} {})))", name(a), name(b), name(i), name(j)).unwrap();
            }
        }
    }
    for k in MEMCOST_POINTS.with(|p| p.borrow().clone()) {
        for &i in &costs {
            let a = name(node(i).a[0]);
            let (w, v) = (lit(64, U256::from(k.0)), lit(COST, U256::from(k.1.min((1 << COST) - 1))));
            writeln!(t, "(assert (and (=> (bvule {a} {w}) (bvule {i} {v})) (=> (bvuge {a} {w}) (bvuge {i} {v}))))", i = name(i)).unwrap();
        }
    }
    for (m, (args, w)) in ufs {
        writeln!(decl, "(declare-fun {m} ({}) {})", args.iter().map(|x| sort(*x)).collect::<Vec<_>>().join(" "), sort(w)).unwrap();
    }
    for a in asserts {
        writeln!(t, "(assert (= {} #b1))", name(*a)).unwrap();
    }
    Query { text: decl + &t, vars }
}
thread_local! {
    /// Constant arguments at which the memory cost was evaluated exactly.
    pub static MEMCOST_POINTS: RefCell<BTreeMap<u64, u64>> = const { RefCell::new(BTreeMap::new()) };
}
fn name(i: Id) -> String {
    let n = node(i);
    match n.k {
        K::Const(v) => lit(n.w, v),
        K::Var(v) => v,
        _ => format!("t{}", i.0),
    }
}
