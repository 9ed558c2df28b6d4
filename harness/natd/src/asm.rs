//! C20: generated instruction sequences, written as text in varied style, assembled by `parse_asm` and compared with their
//! byte encoding; and damaged text, which must give an error or bytes, never a panic.
use crate::{Ran, Rng, fold};
use alloy_primitives::U256;
use revm_bytecode::opcode::OpCode;
use revmc_codegen::parse_asm;

#[derive(Clone)]
enum I {
    /// Opcode and its immediate bytes (already encoded), and how it is written.
    Op(u8, Vec<u8>, String),
    /// `PUSH %l` (None) or `PUSHn %l`.
    Ref(Option<u8>, usize),
    Label(usize),
}

/// EIP-8024, written from its text: one-operand immediates 0..=90 and 128..=255, two-operand ones 0..=81 and 128..=255.
fn single(n: u8) -> Option<u8> {
    (0..=255u8).filter(|x| *x <= 90 || *x >= 128).find(|x| (*x as u16 + 145) % 256 == n as u16)
}
fn pair(n: u8, m: u8) -> Option<u8> {
    (0..=255u8).filter(|x| *x <= 81 || *x >= 128).find(|x| {
        let k = x ^ 143;
        let (q, r) = (k / 16, k % 16);
        let d = if q < r { (q + 1, r + 1) } else { (r + 1, 29 - q) };
        d == (n, m)
    })
}

fn number(r: &mut Rng, v: U256) -> String {
    match r.below(4) {
        0 => format!("{v}"),
        1 => format!("{v:#x}"),
        2 => format!("0x{:X}", v),
        _ => format!("0x{}{:x}", "0".repeat(r.below(4)), v),
    }
}
fn value(r: &mut Rng, bytes: usize) -> U256 {
    if bytes == 0 {
        return U256::ZERO;
    }
    let mut b = [0u8; 32];
    for x in &mut b[32 - bytes..] {
        *x = match r.below(4) {
            0 => 0,
            1 => 0xff,
            2 => 0x5b,
            _ => r.next() as u8,
        };
    }
    if r.chance(30) {
        b[32 - bytes] = 0;
    }
    if r.chance(10) {
        return U256::from(r.below(300)) & ((U256::from(1) << (8 * bytes).min(255)) - U256::from(1));
    }
    U256::from_be_bytes(b)
}
fn be(v: U256, n: usize) -> Vec<u8> {
    v.to_be_bytes::<32>()[32 - n..].to_vec()
}
fn width(v: U256) -> usize {
    v.byte_len()
}

fn gen_op(r: &mut Rng) -> I {
    match r.below(10) {
        0 | 1 => {
            let n = r.below(33);
            let v = value(r, n);
            if n == 0 {
                return I::Op(0x5f, vec![], "PUSH0".into());
            }
            I::Op(0x5f + n as u8, be(v, n), format!("PUSH{n} {}", number(r, v)))
        }
        2 => {
            let n = r.below(33);
            let v = value(r, n);
            let w = width(v);
            I::Op(0x5f + w as u8, be(v, w), format!("PUSH {}", number(r, v)))
        }
        3 => {
            let n = 1 + r.below(235) as u8;
            let swap = r.chance(50);
            let name = if swap { "SWAP" } else { "DUP" };
            let t = format!("{name} {}", number(r, U256::from(n)));
            if n <= 16 {
                I::Op(if swap { 0x8f } else { 0x7f } + n, vec![], t)
            } else {
                I::Op(if swap { 0xe7 } else { 0xe6 }, vec![single(n).unwrap()], t)
            }
        }
        4 => {
            let n = 17 + r.below(219) as u8;
            let swap = r.chance(50);
            I::Op(if swap { 0xe7 } else { 0xe6 }, vec![single(n).unwrap()], format!("{} {}", if swap { "SWAPN" } else { "DUPN" }, number(r, U256::from(n))))
        }
        5 => {
            let all: Vec<(u8, u8)> = (1..=30u8).flat_map(|a| (1..=30u8).map(move |b| (a, b))).filter(|(a, b)| pair(*a, *b).is_some()).collect();
            let (a, b) = *r.pick(&all);
            I::Op(0xe8, vec![pair(a, b).unwrap()], format!("EXCHANGE {} {}", number(r, U256::from(a)), number(r, U256::from(b))))
        }
        _ => loop {
            let o = r.next() as u8;
            let Some(op) = OpCode::new(o) else { continue };
            if op.info().immediate_size() == 0 {
                return I::Op(o, vec![], op.as_str().into());
            }
        },
    }
}

fn sep(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "\n".into(),
        1 => "  \t".into(),
        2 => " ; comment JUMP 12 %x\n".into(),
        3 => "\r\n\n".into(),
        _ => " ".into(),
    }
}

pub fn case(seed: u64) -> Result<Ran, String> {
    let r = &mut Rng(seed);
    let n = r.below(25);
    let labels = r.below(4);
    let mut prog: Vec<I> = (0..n).map(|_| gen_op(r)).collect();
    if r.chance(10) {
        // Long enough for two- and three-byte label offsets.
        let fill = if r.chance(2) { 65530 } else { *r.pick(&[240usize, 250, 254, 255, 256, 260]) };
        let at = r.below(prog.len() + 1);
        let rest = prog.split_off(at);
        prog.extend((0..fill).map(|_| I::Op(0x5b, vec![], "JUMPDEST".into())));
        prog.extend(rest);
    }
    for l in 0..labels {
        let at = r.below(prog.len() + 1);
        prog.insert(at, I::Label(l));
    }
    if labels > 0 {
        for _ in 0..r.below(6) {
            let at = r.below(prog.len() + 1);
            let w = if r.chance(60) { None } else { Some(1 + r.below(8) as u8) };
            prog.insert(at, I::Ref(w, r.below(labels)));
        }
    }
    let names = ["a", "_x1", "PUSH_", "loop", "JUMP"];
    let mut text = String::new();
    let mut defs = String::new();
    let mut nd = 0;
    for it in &prog {
        match it {
            I::Label(l) => text += &format!("{}:", names[*l]),
            I::Ref(None, l) => text += &format!("PUSH %{}", names[*l]),
            I::Ref(Some(w), l) => text += &format!("PUSH{w} %{}", names[*l]),
            I::Op(_, _, t) if prog.len() < 100 && r.chance(10) => {
                nd += 1;
                let w: Vec<&str> = t.split(' ').collect();
                if w.len() == 2 && r.chance(60) {
                    defs += &format!("#define M{nd}(p) {} $p\n", w[0]);
                    text += &format!("M{nd}({})", w[1]);
                } else {
                    defs += &format!("#define M{nd} {t}\n");
                    text += &format!("M{nd}");
                }
            }
            I::Op(_, _, t) => text += t,
        }
        text += &sep(r);
    }
    let text = format!("{defs}{text}");
    let got = std::panic::catch_unwind(|| parse_asm(&text).map_err(|e| e.to_string())).map_err(|_| format!("panic on\n{}", clip(&text)))?;

    // A fixed-width reference to a label beyond its width must be refused; everything else must assemble.
    match got {
        Ok(code) => {
            // Walk the bytes along the program: every instruction at its place; collect where labels are.
            let (mut at, mut pcs, mut refs) = (0usize, vec![usize::MAX; labels], vec![]);
            for it in &prog {
                match it {
                    I::Label(l) => pcs[*l] = at,
                    I::Op(o, imm, t) => {
                        if code.get(at) != Some(o) || code.get(at + 1..at + 1 + imm.len()) != Some(&imm[..]) {
                            return Err(format!("{t} is encoded as {:02x?} at {at}, want {o:02x} {imm:02x?}\n{}", &code[at.min(code.len())..(at + 34).min(code.len())], clip(&text)));
                        }
                        at += 1 + imm.len();
                    }
                    I::Ref(w, l) => {
                        let o = *code.get(at).ok_or_else(|| format!("code too short\n{}", clip(&text)))?;
                        let n = o.wrapping_sub(0x5f) as usize;
                        if n > 32 || w.is_some_and(|w| w as usize != n) || code.len() < at + 1 + n {
                            return Err(format!("a label reference is encoded with opcode {o:02x}\n{}", clip(&text)));
                        }
                        refs.push((*l, U256::from_be_slice(&code[at + 1..at + 1 + n])));
                        at += 1 + n;
                    }
                }
            }
            if at != code.len() {
                return Err(format!("{} extra bytes\n{}", code.len() - at, clip(&text)));
            }
            for (l, v) in refs {
                if v != U256::from(pcs[l]) {
                    return Err(format!("%{} is pushed as {v}, the label is at {}\n{}", names[l], pcs[l], clip(&text)));
                }
            }
        }
        Err(e) => {
            // Least layout: every automatic reference as short as possible.
            let mut w: Vec<usize> = vec![0; prog.len()];
            let pcs = loop {
                let (mut at, mut pcs) = (0usize, vec![0; labels]);
                for (i, it) in prog.iter().enumerate() {
                    match it {
                        I::Label(l) => pcs[*l] = at,
                        I::Op(_, imm, _) => at += 1 + imm.len(),
                        I::Ref(Some(n), _) => at += 1 + *n as usize,
                        I::Ref(None, _) => at += 1 + w[i],
                    }
                }
                let mut again = false;
                for (i, it) in prog.iter().enumerate() {
                    if let I::Ref(None, l) = it {
                        let need = width(U256::from(pcs[*l]));
                        again |= need > w[i];
                        w[i] = w[i].max(need);
                    }
                }
                if !again {
                    break pcs;
                }
            };
            if !prog.iter().any(|it| matches!(it, I::Ref(Some(n), l) if width(U256::from(pcs[*l])) > *n as usize)) {
                return Err(format!("well-formed text is refused: {e}\n{}", clip(&text)));
            }
        }
    }

    // Malformed text.
    let bad = match r.below(16) {
        0 => "PUSH %nowhere".into(),
        1 => format!("PUSH{} {}", 1, 256 + r.below(1000)),
        2 => format!("PUSH{n} 1{}", "00".repeat(n), n = 0).replace("PUSH0 1", "PUSH0 1"),
        3 => {
            let n = 1 + r.below(31);
            format!("PUSH{n} 0x1{}", "00".repeat(n))
        }
        4 => "FOO".into(),
        5 => format!("{} {}", r.pick(&["ADD", "STOP", "DUP1", "SWAP16", "JUMPDEST", "PUSH0"]), r.below(300)),
        6 => format!("PUSH{}", 1 + r.below(32)),
        7 => format!("{} {}", r.pick(&["DUP", "SWAP", "DUPN", "SWAPN"]), r.pick(&["0", "236", "255", "256", "18446744073709551633", "x", "%l", ""])),
        8 => format!("{} {}", r.pick(&["DUPN", "SWAPN"]), 1 + r.below(16)),
        9 => {
            let (a, b) = (r.below(40), r.below(40));
            if pair(a as u8, b as u8).is_some() { "EXCHANGE 1".into() } else { format!("EXCHANGE {a} {b}") }
        }
        10 => format!("#define M(a) PUSH $a\nM{}", r.pick(&["", "(", "(1", "(1,2)", "()", "(1))", " 1"])),
        11 => r.pick(&["#define", "#define 1", "#define M(", "#define M(a", "#define M(a,", "#define M(1)", "#define M(a b)"]).to_string(),
        12 => r.pick(&["PUSH1 @", "PUSH1 0x", "PUSH1 -1", "ADD )", "ADD (", "ADD ,", "%a", "$a", ":", "PUSH $q", "é", "PUSH %", "12", "PUSH1 0xzz"]).to_string(),
        13 => format!("PUSH32 0x1{}", "0".repeat(64 + r.below(10))),
        14 => format!("PUSH {}9{}", "1".repeat(78), r.below(10)),
        _ => "PUSH PUSH".into(),
    };
    // A damaged line may stand anywhere in good text without labels.
    let t = if r.chance(50) || bad.starts_with('#') { bad.clone() } else { format!("ADD\n{bad}\nSTOP ; x") };
    match std::panic::catch_unwind(|| parse_asm(&t).is_ok()) {
        Err(_) => return Err(format!("panic on malformed text {t:?}")),
        Ok(true) => return Err(format!("malformed text is accepted: {t:?}")),
        Ok(false) => {}
    }
    // Arbitrary damage: no panic.
    let mut d: Vec<char> = text.chars().take(400).collect();
    for _ in 0..1 + r.below(6) {
        let at = r.below(d.len() + 1);
        match r.below(3) {
            0 if at < d.len() => {
                d.remove(at);
            }
            1 => d.insert(at, *r.pick(&['%', '$', '(', ')', ',', ':', ';', '#', '0', 'x', 'é', '\u{7f}', '\n', ' ', 'P', '9', '\u{a0}'])),
            _ if at < d.len() => d[at] = (r.next() as u8 & 0x7f) as char,
            _ => {}
        }
    }
    let d: String = d.into_iter().collect();
    if std::panic::catch_unwind(|| parse_asm(&d).is_ok()).is_err() {
        return Err(format!("panic on {d:?}"));
    }
    let mut print = 7;
    for b in text.bytes() {
        print = fold(print, b as u64);
    }
    Ok(Ran { print, nontrivial: !prog.is_empty() })
}

fn clip(s: &str) -> String {
    s.chars().take(1500).collect()
}
