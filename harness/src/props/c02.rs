//! C02: the bytes are those the format prescribes (independent schema and codec).
use super::c01::first_diff;
use crate::dgen::{clip, giant_file};
use crate::engine::*;
use crate::fail;
use crate::file::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;

fn write(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let v = gen_file(&mut c.src, kind, &mut Knobs::all());
    c.label(kind.name());
    if v.size() > 12 {
        c.interesting(&v);
    }
    c.describe(|| format!("{v:?}"));
    let want = canonical(kind, &v);
    let got = AnyFile::from_val(kind, &v)?.bytes()?;
    if let Some(d) = first_diff(&want, &got) {
        fail!("{}: layout (expected vs written): {d}", kind.name());
    }
    Ok(())
}

/// Values with a list, buffer or text far longer than usual.
fn large(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let (v, n) = giant_file(&mut c.src, kind, &mut Knobs::all());
    c.label(kind.name());
    if n > 254 {
        c.interesting(&(kind.name(), n, c.src.log.len()));
        c.label(if n > 65535 { "longer than 65535" } else if n > 4095 { "longer than 4095" } else { "longer than 254" });
    }
    c.describe(|| clip(format!("{n}: {v:?}")));
    let want = canonical(kind, &v);
    let got = AnyFile::from_val(kind, &v)?.bytes()?;
    if let Some(d) = first_diff(&want, &got) {
        fail!("{}: layout of a large value (expected vs written): {d}", kind.name());
    }
    match AnyFile::read_bytes(kind, &want)? {
        Ok(r) => {
            let rv = r.to_val()?;
            if let Some(d) = v.diff(&rv) {
                fail!("{}: large value read as a different one (expected vs read): {d}", kind.name());
            }
        }
        Err(e) => fail!("{}: a large file laid out as prescribed is not read: {e}", kind.name()),
    }
    c.evals += 1;
    Ok(())
}

fn read(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let mut k = Knobs::all();
    k.utf8 = c.src.chance(3, 4);
    let v = gen_file(&mut c.src, kind, &mut k);
    c.label(kind.name());
    if v.size() > 12 {
        c.interesting(&v);
    }
    c.describe(|| format!("{v:?}"));
    let b = canonical(kind, &v);
    match AnyFile::read_bytes(kind, &b)? {
        Ok(r) => {
            let rv = r.to_val()?;
            if let Some(d) = lossy(&v).diff(&rv) {
                fail!("{}: read as a different value (expected vs read): {d}", kind.name());
            }
        }
        Err(e) => fail!("{}: a file laid out as prescribed is not read: {e}", kind.name()),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "a generated file value with more than 12 nodes",
        assumptions: &[
            "harness/src/schema.txt (fields, codes, padding of every format) and refcodec.rs (layout rules of ssbh_offsets.md) describe the formats",
        ],
        subs: vec![
            Sub { name: "write", quick: 1_200_000, thorough: 1_500_000, enumerate: kinds().len() as u64, f: write },
            Sub { name: "large", quick: 600, thorough: 20_000, enumerate: kinds().len() as u64, f: large },
            Sub { name: "read", quick: 800_000, thorough: 700_000, enumerate: kinds().len() as u64, f: read },
        ],
        probes: vec![],
    }
}
