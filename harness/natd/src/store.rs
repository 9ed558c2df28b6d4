//! C18: histories of store / load / delete / clear on `RuntimeArtifactStore` against an ideal map from full keys.
use crate::{Ran, Rng, fold};
use alloy_primitives::B256;
use revm_primitives::hardfork::SpecId;
use revmc_backend::OptimizationLevel as O;
use revmc_runtime::runtime::{ArtifactKey, ArtifactManifest, ArtifactStore, BackendSelection, RuntimeArtifactStore, RuntimeCacheKey};
use std::collections::HashMap;

pub const OPTS: [O; 4] = [O::None, O::Less, O::Default, O::Aggressive];
pub const BACK: [BackendSelection; 2] = [BackendSelection::Auto, BackendSelection::Llvm];

pub fn specs() -> Vec<SpecId> {
    (0..=255u8).filter_map(SpecId::try_from_u8).collect()
}

/// Keys that are easy to confuse: equal but for one field, hashes that agree on prefixes, suffixes or leading zeros.
pub fn pool(r: &mut Rng) -> Vec<ArtifactKey> {
    let specs = specs();
    let mut base = [0u8; 32];
    if r.chance(70) {
        for b in &mut base {
            *b = r.next() as u8;
        }
    }
    let mut out = vec![];
    let k0 = ArtifactKey { runtime: RuntimeCacheKey { code_hash: B256::new(base), spec_id: *r.pick(&specs) }, backend: BACK[r.below(2)], opt_level: OPTS[r.below(4)] };
    out.push(k0);
    while out.len() < 7 {
        let mut k: ArtifactKey = out[r.below(out.len())].clone();
        match r.below(6) {
            0 => k.opt_level = OPTS[r.below(4)],
            1 => k.backend = BACK[r.below(2)],
            2 => k.runtime.spec_id = *r.pick(&specs),
            3 => k.runtime.code_hash.0[31] ^= 1 << r.below(8),
            4 => k.runtime.code_hash.0[0] ^= 1 << r.below(8),
            _ => k.runtime.code_hash.0[r.below(32)] ^= 1 << r.below(8),
        }
        if !out.contains(&k) {
            out.push(k);
        } else if r.chance(5) {
            break;
        }
    }
    out
}

#[derive(Clone, PartialEq, Debug)]
struct Entry {
    bytes: Vec<u8>,
    sym: String,
    blen: usize,
    alen: usize,
    at: u64,
    hash: [u8; 32],
}

pub fn history(seed: u64) -> Result<Ran, String> {
    let r = &mut Rng(seed);
    let keys = pool(r);
    let st = RuntimeArtifactStore::new().map_err(|e| format!("new: {e}"))?;
    let mut ideal: HashMap<ArtifactKey, Entry> = HashMap::new();
    let mut log = String::new();
    let mut print = seed % 7;
    let steps = 3 + r.below(25);
    for _ in 0..steps {
        let i = r.below(keys.len());
        let k = &keys[i];
        let opn = r.below(10);
        print = fold(print, (opn * 16 + i) as u64);
        match opn {
            0..=5 => {
                let e = Entry {
                    bytes: (0..r.below(40)).map(|_| r.next() as u8).collect(),
                    sym: format!("s{}", r.next()),
                    blen: r.below(1000),
                    alen: r.below(1000),
                    at: r.next(),
                    hash: std::array::from_fn(|_| r.next() as u8),
                };
                let m = ArtifactManifest { artifact_key: k.clone(), symbol_name: e.sym.clone(), bytecode_len: e.blen, artifact_len: e.alen, created_at_unix_secs: e.at, content_hash: e.hash };
                log += &format!("store {k:?} {} bytes\n", e.bytes.len());
                st.store(k, &m, &e.bytes).map_err(|e| format!("{log}store failed: {e}"))?;
                ideal.insert(k.clone(), e);
            }
            6..=8 => {
                log += &format!("delete {k:?}\n");
                st.delete(k).map_err(|e| format!("{log}delete failed: {e}"))?;
                ideal.remove(k);
            }
            _ if r.chance(30) => {
                log += "clear\n";
                st.clear().map_err(|e| format!("{log}clear failed: {e}"))?;
                ideal.clear();
            }
            _ => {}
        }
        let got = |a: &revmc_runtime::runtime::StoredArtifact| -> Result<(ArtifactKey, Entry), String> {
            let m = &a.manifest;
            let bytes = std::fs::read(&a.dylib_path).map_err(|e| format!("stored file {:?} unreadable: {e}", a.dylib_path))?;
            Ok((m.artifact_key.clone(), Entry { bytes, sym: m.symbol_name.clone(), blen: m.bytecode_len, alen: m.artifact_len, at: m.created_at_unix_secs, hash: m.content_hash }))
        };
        for k in &keys {
            let want = ideal.get(k);
            match (st.load(k).map_err(|e| format!("{log}load failed: {e}"))?, want) {
                (None, None) => {}
                (Some(a), Some(w)) => {
                    let (mk, e) = got(&a).map_err(|e| format!("{log}{e}"))?;
                    if mk != *k || e != *w {
                        return Err(format!("{log}load {k:?}\n gave {mk:?} {e:?}\n want {w:?}"));
                    }
                }
                (a, w) => return Err(format!("{log}load {k:?} present: {}, want present: {}", a.is_some(), w.is_some())),
            }
        }
        let all = st.load_all().map_err(|e| format!("{log}load_all failed: {e}"))?;
        if all.len() != ideal.len() || st.len() != ideal.len() || st.is_empty() != ideal.is_empty() {
            return Err(format!("{log}load_all lists {} entries, len {}, want {}", all.len(), st.len(), ideal.len()));
        }
        for (k, a) in &all {
            let (mk, e) = got(a).map_err(|e| format!("{log}{e}"))?;
            if mk != *k || ideal.get(k) != Some(&e) {
                return Err(format!("{log}load_all gives {k:?} with the contents of another entry"));
            }
        }
    }
    Ok(Ran { print, nontrivial: log.lines().count() > 2 })
}
