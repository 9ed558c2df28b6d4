use super::*;
use crate::verif_support::*;

// ---- C03: EIP-8024 immediates ------------------------------------------------------------------------------------

// The specification, from EIP-8024 (as implemented by revm's DUPN/SWAPN/EXCHANGE handlers).
fn spec_single(x: u8) -> Option<u32> {
    if x > 90 && x < 128 { None } else { Some((x as u32 + 145) % 256) }
}
fn spec_pair(x: u8) -> Option<(u32, u32)> {
    if x > 81 && x < 128 {
        return None;
    }
    let k = (x ^ 143) as u32;
    let (q, r) = (k / 16, k % 16);
    if q < r { Some((q + 1, r + 1)) } else { Some((r + 1, 29 - q)) }
}

harness! { fn c03_decode_single() {
    let x: u8 = any();
    let d = decode_single(x);
    assert!(d.map(u32::from) == spec_single(x), "C03.decode_single");
    if let Some(n) = d {
        assert!(17 <= n && n <= 235, "C03.decode_single range");
    }
}}
harness! { fn c03_encode_single() {
    let n: u8 = any();
    match encode_single(n) {
        Some(x) => assert!(spec_single(x) == Some(n as u32), "C03.encode_single is a right inverse of decode"),
        None => {
            let x: u8 = any();
            assert!(spec_single(x) != Some(n as u32), "C03.encode_single refuses only what no byte encodes");
        }
    }
}}
harness! { fn c03_decode_pair() {
    let x: u8 = any();
    let d = decode_pair(x);
    assert!(d.map(|(n, m)| (n as u32, m as u32)) == spec_pair(x), "C03.decode_pair");
    if let Some((n, m)) = d {
        assert!(1 <= n && n < m && n as u32 + m as u32 <= 30, "C03.decode_pair range");
    }
}}
harness! { fn c03_encode_pair() {
    let (n, m): (u8, u8) = (any(), any());
    match encode_pair(n, m) {
        Some(x) => assert!(spec_pair(x) == Some((n as u32, m as u32)), "C03.encode_pair is a right inverse"),
        None => {
            let x: u8 = any();
            assert!(spec_pair(x) != Some((n as u32, m as u32)), "C03.encode_pair refuses only the unencodable");
        }
    }
}}
harness! { fn c03_stack_io() {
    let (o, b, has): (u8, u8, bool) = (any(), any(), any());
    let buf = [b];
    let (i, out) = compute_stack_io(o, if has { Some(&buf) } else { None });
    let b = if has { b } else { 0 };
    let want = match o {
        op::DUPN => spec_single(b).map_or((0, 0), |n| (n, n + 1)),
        op::SWAPN => spec_single(b).map_or((0, 0), |n| (n + 1, n + 1)),
        op::EXCHANGE => spec_pair(b).map_or((0, 0), |(_, m)| (m + 1, m + 1)),
        _ => match &OPCODE_INFO[o as usize] {
            Some(info) => (info.inputs() as u32, info.outputs() as u32),
            None => (0, 0),
        },
    };
    assert!((i as u32, out as u32) == want, "C03.stack_io");
}}
