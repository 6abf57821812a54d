//! C05: no input bytes can crash or exhaust memory when read.
use super::c04::{mutate, mutated_file};
use super::c26::file_value;
use crate::alloc;
use crate::animref::*;
use crate::dgen::*;
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::shader::shader;
use crate::val::*;
use ssbh_data::shdr_data::{MetaData, ShaderBinary, ShdrData};
use std::io::Cursor;

/// One request may be the documented first buffer or grow with the input.
fn single(b: &[u8]) -> usize {
    (128 << 20) + 64 * b.len()
}
fn total(b: &[u8]) -> usize {
    (512 << 20) + 256 * b.len()
}

fn guard<T>(b: &[u8], f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    alloc::guarded(single(b), total(b), f).0
}

/// Every entry point that reads bytes.
fn everything(c: &mut Ctx, b: &[u8]) -> R {
    let ssbh = kinds()[0];
    let mut ok = 0;
    for k in [ssbh, Kind::MeshEx, Kind::Adj] {
        ok += guard(b, || AnyFile::read_bytes(k, b))?.is_ok() as u32;
    }
    for t in TYPED {
        guard(b, || typed_read(t, b))?;
    }
    for d in DKINDS {
        ok += guard(b, || AnyData::read_bytes(d, b))?.is_ok() as u32;
    }
    shdr(b)?;
    c.evals = (3 + TYPED.len() + DKINDS.len() + 3) as u64;
    if ok > 0 {
        c.label("read by some");
    }
    Ok(())
}

fn shdr(b: &[u8]) -> R {
    guard(b, || lib(|| MetaData::read(&mut Cursor::new(b)).is_ok()))?;
    guard(b, || lib(|| ShaderBinary::read(&mut Cursor::new(b)).is_ok()))?;
    guard(b, || lib(|| ShdrData::read(&mut Cursor::new(b)).is_ok()))?;
    Ok(())
}

fn done(c: &mut Ctx, b: &[u8]) -> R {
    c.describe(|| hex(b));
    c.interesting(b);
    everything(c, b)
}

/// Valid files of any type with some numbers, bytes or the length changed.
fn files(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let b = mutated_file(&mut c.src, kind);
    c.label(kind.name());
    done(c, &b)
}

/// Files saved from editable data, changed: their buffers mean something.
fn saved(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let (k, v) = file_value(&mut c.src, kind);
    let mut b = canonical(k, &v);
    if c.src.chance(2, 3) {
        let sites = parse_kind(k, &b).map(|p| p.sites).unwrap_or_default();
        mutate(&mut c.src, &mut b, &sites);
    }
    c.label(k.name());
    done(c, &b)
}

fn anims(c: &mut Ctx) -> R {
    let (k, v) = if c.src.chance(1, 4) {
        (kind("Anim", "V12"), anim_v12(&mut c.src))
    } else {
        let a = stored_anim(&mut c.src, true);
        (kind("Anim", a.version), a.val)
    };
    let mut b = canonical(k, &v);
    if c.src.chance(3, 4) {
        let mut sites = parse_kind(k, &b).map(|p| p.sites).unwrap_or_default();
        // numbers of the track headers: anywhere in the last part of the file
        let n = b.len();
        for _ in 0..6 {
            let w = *c.src.pick(&[2usize, 4]);
            let at = c.src.usize(n.saturating_sub(w) + 1);
            sites.push(Region { at: at as u64, len: w as u64, what: "number" });
        }
        mutate(&mut c.src, &mut b, &sites);
    }
    c.label(k.name());
    done(c, &b)
}

fn shaders(c: &mut Ctx) -> R {
    let mut x = shader(&mut c.src);
    mutate(&mut c.src, &mut x.bytes, &x.sites);
    c.describe(|| format!("{} bytes {}", x.bytes.len(), hex(&x.bytes[x.bytes.len().min(288)..])));
    c.interesting(&x.bytes);
    c.evals = 4;
    shdr(&x.bytes)?;
    // and inside a file
    let v = Val::Variant(
        "Shdr",
        Some(Box::new(Val::Variant(
            "V12",
            Some(Box::new(Val::Map(vec![(
                "shaders",
                Val::Seq(vec![Val::Map(vec![
                    ("name", Val::Some(Box::new(Val::Str(b"a".to_vec())))),
                    ("shader_stage", Val::Variant("Vertex", None)),
                    ("unk3", Val::U(0)),
                    ("shader_binary", Val::Bytes(x.bytes.clone())),
                    ("binary_size", Val::U(x.bytes.len() as u64)),
                ])]),
            )]))),
        ))),
    );
    let k = kind("Shdr", "V12");
    let b = canonical(k, &v);
    guard(&b, || lib(|| ShdrData::read(&mut Cursor::new(&b)).is_ok()))?;
    Ok(())
}

/// Any bytes, mostly behind the start of a file.
fn noise(c: &mut Ctx) -> R {
    let mut b = vec![];
    if c.src.chance(5, 6) {
        b.extend(b"HBSS");
        b.extend(64u64.to_le_bytes());
        b.extend(0u32.to_le_bytes());
        let f = *c.src.pick(&schema().formats.iter().collect::<Vec<_>>());
        let v = *c.src.pick(&f.vers.iter().collect::<Vec<_>>());
        b.extend(f.magic);
        b.extend(v.major.to_le_bytes());
        b.extend(v.minor.to_le_bytes());
    }
    let n = c.src.len(200, 4000);
    let style = c.src.below(3);
    while b.len() < n {
        match style {
            0 => b.push(c.src.below(256) as u8),
            1 => b.extend(c.src.below(n as u64).to_le_bytes()),
            _ => {
                let w = *c.src.pick(&[1usize, 2, 4, 8]);
                b.extend(&int(&mut c.src, w).to_le_bytes()[..w]);
            }
        }
    }
    done(c, &b)
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "every case: the bytes are given to every reading entry point of both libraries",
        assumptions: &[
            "out of proportion means one request above 128 MiB + 64 bytes per input byte, or more than 512 MiB + 256 bytes per input byte held at once",
            "inputs of a few kilobytes: values that share parts of the file may grow with the square of its length",
        ],
        subs: vec![
            Sub { name: "files", quick: 130_000, thorough: 5_000_000, enumerate: kinds().len() as u64, f: files },
            Sub { name: "saved", quick: 78_000, thorough: 3_000_000, enumerate: 8, f: saved },
            Sub { name: "anims", quick: 130_000, thorough: 5_000_000, enumerate: 0, f: anims },
            Sub { name: "shaders", quick: 78_000, thorough: 3_000_000, enumerate: 0, f: shaders },
            Sub { name: "noise", quick: 78_000, thorough: 3_000_000, enumerate: 0, f: noise },
        ],
        probes: vec![],
    }
}
