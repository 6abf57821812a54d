//! C04: reading depends only on what the offsets point at.
use super::first_diff;
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};

fn scatter(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let mut k = Knobs::all();
    k.utf8 = c.src.chance(4, 5);
    let v = gen_file(&mut c.src, kind, &mut k);
    let s = scattered(&mut c.src, kind, &v);
    c.label(kind.name());
    if s.shared > 0 {
        c.label("shared targets");
    }
    let canon = canonical(kind, &v);
    if canon != s.bytes {
        c.interesting(&s.bytes);
    }
    c.describe(|| format!("{v:?} as {}", hex(&s.bytes)));
    let f = match AnyFile::read_bytes(kind, &s.bytes)? {
        Ok(f) => f,
        Err(e) => fail!("{}: a rearranged file is not read: {e}", kind.name()),
    };
    let rv = f.to_val()?;
    if let Some(d) = lossy(&v).diff(&rv) {
        fail!("{}: a rearranged file is read as another value (expected vs read): {d}", kind.name());
    }
    let b = f.bytes()?;
    if let Some(d) = first_diff(&canon, &b) {
        fail!("{}: rewriting is not canonical (expected vs written): {d}", kind.name());
    }
    Ok(())
}

pub fn flag_mismatch(v: &Val) -> bool {
    let n = |f: &str| match v.field(f) {
        Val::Some(x) => match &**x {
            Val::Seq(s) => s.len(),
            _ => 0,
        },
        _ => 0,
    };
    n("entries") != n("entry_flags")
}

/// Bytes of a valid file with some numbers changed.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>, sites: &[Region]) {
    let n = s.range(1, 3);
    for _ in 0..n {
        let len = b.len().max(1);
        match s.weighted(&[8, 3, 2, 2, 1]) {
            0 if !sites.is_empty() => {
                let r = &sites[s.usize(sites.len())];
                let (at, w) = (r.at as usize, r.len as usize);
                if at + w > b.len() {
                    continue;
                }
                let mut x = [0u8; 8];
                x[..w].copy_from_slice(&b[at..at + w]);
                let old = u64::from_le_bytes(x);
                let new = match s.weighted(&[4, 3, 3, 2, 1]) {
                    0 => s.below(40),
                    1 => old.wrapping_add(s.below(64)).wrapping_sub(32),
                    2 => {
                        // another place in the file
                        let t = s.below(len as u64 + 16);
                        if s.chance(1, 3) {
                            t
                        } else {
                            t.wrapping_sub(at as u64)
                        }
                    }
                    3 => *s.pick(&[
                        0,
                        u64::MAX,
                        u64::MAX - 7,
                        1 << 63,
                        1 << 31,
                        1 << 32,
                        0xffff_ffff,
                        0xffff,
                        1 << 40,
                        100_000_000,
                        12_500_000,
                        i64::MAX as u64,
                    ]),
                    _ => s.u64(),
                };
                b[at..at + w].copy_from_slice(&new.to_le_bytes()[..w]);
            }
            1 | 0 => {
                let i = s.usize(len);
                if let Some(x) = b.get_mut(i) {
                    *x ^= 1 << s.below(8);
                }
            }
            2 => {
                let i = s.usize(len);
                let v = s.below(256) as u8;
                if let Some(x) = b.get_mut(i) {
                    *x = v;
                }
            }
            3 => {
                let n = s.usize(len + 1);
                b.truncate(n);
            }
            _ => {
                let (i, j, n) = (s.usize(len), s.usize(len), s.range(1, 16) as usize);
                for k in 0..n {
                    if i + k < b.len() && j + k < b.len() {
                        b[i + k] = b[j + k];
                    }
                }
            }
        }
    }
}

pub fn mutated_file(s: &mut Src, kind: Kind) -> Vec<u8> {
    let mut k = Knobs::small();
    k.utf8 = s.chance(4, 5);
    let v = gen_file(s, kind, &mut k);
    let mut b = if s.chance(1, 3) { scattered(s, kind, &v).bytes } else { canonical(kind, &v) };
    let sites = parse_kind(kind, &b).map(|p| p.sites).unwrap_or_default();
    mutate(s, &mut b, &sites);
    b
}

fn mutated(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let b = mutated_file(&mut c.src, kind);
    c.describe(|| hex(&b));
    let want = parse_kind(kind, &b);
    if matches!(want, Err(RefErr::Budget)) {
        c.label("too large to decide");
        return Ok(());
    }
    c.interesting(&b);
    let got = AnyFile::read_bytes(kind, &b)?;
    match (want, got) {
        (Ok(p), Ok(f)) => {
            c.label("accepted");
            let rv = f.to_val()?;
            if let Some(d) = lossy(&p.val).diff(&rv) {
                fail!("{}: read as another value than the bytes encode (expected vs read): {d}", p.kind.name());
            }
            let mut out = std::io::Cursor::new(vec![]);
            let w = f.write(&mut out)?;
            if matches!(p.kind, Kind::MeshEx) && flag_mismatch(&p.val) {
                ensure!(w.is_err(), "MeshEx with different numbers of entries and flags was written");
                return Ok(());
            }
            if let Err(e) = w {
                fail!("{}: writing a value that was read failed: {e}", p.kind.name());
            }
            let out = out.into_inner();
            if let Some(d) = first_diff(&canonical(p.kind, &p.val), &out) {
                fail!("{}: rewriting is not canonical (expected vs written): {d}", p.kind.name());
            }
            let f2 = match AnyFile::read_bytes(kind, &out)? {
                Ok(f) => f,
                Err(e) => fail!("{}: the rewritten file is not read: {e}", p.kind.name()),
            };
            if let Some(d) = rv.diff(&f2.to_val()?) {
                fail!("{}: the rewritten file is read as another value: {d}", p.kind.name());
            }
            let b3 = f2.bytes()?;
            if let Some(d) = first_diff(&out, &b3) {
                fail!("{}: writing again changes bytes: {d}", p.kind.name());
            }
        }
        (Err(_), Err(_)) => c.label("refused"),
        (Ok(p), Err(e)) => fail!("{}: a readable file is refused: {e}", p.kind.name()),
        (Err(RefErr::Bad(e)), Ok(_)) => fail!("{}: a file that encodes no value was accepted ({e})", kind.name()),
        (Err(RefErr::Budget), _) => unreachable!(),
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_scatter(c: &mut Ctx) -> R {
    c.src.large = true;
    scatter(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "scatter: the bytes differ from the canonical file; mutated: the reference reader decides within its budget",
        assumptions: &[
            "refcodec.rs (independent reader and writer over schema.txt) describes what a file encodes",
            "sharing is only generated where the format's offsets can express it (forward, non-zero)",
        ],
        subs: vec![
            Sub { name: "scatter", quick: 500_000, thorough: 6_000_000, enumerate: kinds().len() as u64, f: scatter },
            Sub { name: "large_scatter", quick: 400, thorough: 24000, enumerate: kinds().len() as u64, f: large_scatter },
            Sub { name: "mutated", quick: 600_000, thorough: 9_000_000, enumerate: kinds().len() as u64, f: mutated },
        ],
        probes: vec![],
    }
}
