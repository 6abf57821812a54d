//! C25: shader metadata is read from the binary exactly as stored.
use super::c18::{body, seq};
use super::c21::text_or_empty;
use crate::engine::*;
use crate::gen::*;
use crate::io::scratch;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::shader::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::shdr_data::{MetaData, ShaderBinary, ShdrData};
use std::io::Cursor;

fn meta(b: &[u8]) -> Result<Result<Val, String>, Fail> {
    let r = lib(|| MetaData::read(&mut Cursor::new(b)).map_err(|e| e.to_string()))?;
    Ok(match r {
        Ok(m) => Ok(to_val(&m).map_err(|e| Fail(e.to_string()))?),
        Err(e) => Err(e),
    })
}

fn binary(c: &mut Ctx) -> R {
    let x = shader(&mut c.src);
    c.describe(|| format!("{} bytes, {:?}", x.bytes.len(), x.meta));
    if x.counts.iter().sum::<usize>() > 1 {
        c.interesting(&x.bytes);
    }
    match meta(&x.bytes)? {
        Ok(m) => {
            if let Some(d) = x.meta.diff(&m) {
                fail!("metadata differs from what is stored: {d}");
            }
        }
        Err(e) => fail!("metadata of a valid shader binary is refused: {e}"),
    }
    match lib(|| ShaderBinary::read(&mut Cursor::new(&x.bytes)))? {
        Ok(b) => ensure!(b.program_code == x.code, "program code differs"),
        Err(e) => fail!("a valid shader binary is refused: {e}"),
    }
    if c.src.chance(1, 10) {
        let p = scratch().join("shader.bin");
        std::fs::write(&p, &x.bytes).unwrap();
        match lib(|| MetaData::from_file(&p).map_err(|e| e.to_string()))? {
            Ok(m) => {
                if let Some(d) = x.meta.diff(&to_val(&m).unwrap()) {
                    fail!("metadata read from a file differs: {d}");
                }
            }
            Err(e) => fail!("metadata of a valid file is refused: {e}"),
        }
    }
    match ref_shader(&x.bytes) {
        Some((m, code)) => ensure!(m.diff(&x.meta).is_none() && code == x.code, "the two references disagree"),
        None => fail!("the two references disagree"),
    }
    match c.src.below(3) {
        1 => {
            let n = c.src.usize(x.needed);
            c.label("cut");
            ensure!(meta(&x.bytes[..n])?.is_err(), "metadata read from a shader binary cut at {n} of {}", x.needed);
        }
        2 if !x.types.is_empty() => {
            let at = *c.src.pick(&x.types);
            let code = match c.src.below(3) {
                0 => c.src.below(128) as u32,
                1 => u32::from_le_bytes(x.bytes[at..at + 4].try_into().unwrap()) ^ (1 << c.src.below(32)),
                _ => c.src.u64() as u32,
            };
            let mut b = x.bytes.clone();
            b[at..at + 4].copy_from_slice(&code.to_le_bytes());
            if !TYPES.iter().any(|t| t.0 == code) {
                c.label("undefined type");
                ensure!(meta(&b)?.is_err(), "undefined data type {code} was accepted");
            }
        }
        _ => {}
    }
    Ok(())
}

/// Binaries with changed numbers, bytes and lengths: read as the layout says, or refused.
fn mutated(c: &mut Ctx) -> R {
    let x = shader(&mut c.src);
    let mut b = x.bytes.clone();
    for _ in 0..1 + c.src.below(3) {
        match c.src.weighted(&[6, 1, 1]) {
            0 => {
                let r = c.src.pick(&x.sites).clone();
                let at = r.at as usize;
                if at + 4 > b.len() {
                    continue;
                }
                let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                let len = b.len() as u32;
                let new = match c.src.below(7) {
                    0 => old.wrapping_add(1 + c.src.below(8) as u32),
                    1 => old.wrapping_sub(1 + c.src.below(8) as u32),
                    2 => old ^ (1 << c.src.below(32)),
                    3 => c.src.below(len as u64 + 1) as u32,
                    // sums with other offsets wrap around 32 bits
                    4 => (c.src.below(len as u64) as u32).wrapping_neg(),
                    5 => int(&mut c.src, 4) as u32,
                    _ => c.src.below(4) as u32,
                };
                b[at..at + 4].copy_from_slice(&new.to_le_bytes());
                // two offsets that cancel out
                if c.src.chance(1, 4) {
                    let q = HEADER + 4;
                    if q + 4 <= b.len() && q != at {
                        let o = u32::from_le_bytes(b[q..q + 4].try_into().unwrap());
                        b[q..q + 4].copy_from_slice(&o.wrapping_sub(new.wrapping_sub(old)).to_le_bytes());
                    }
                }
            }
            1 => {
                if b.is_empty() {
                    continue;
                }
                let at = c.src.usize(b.len());
                b[at] = c.src.below(256) as u8;
            }
            _ => {
                if c.src.chance(1, 2) {
                    let n = c.src.usize(b.len() + 1);
                    b.truncate(n);
                } else {
                    let n = c.src.usize(60);
                    b.extend(std::iter::repeat_n(0x41u8, n));
                }
            }
        }
    }
    let want = ref_shader(&b);
    c.describe(|| format!("{} bytes, {:?}", b.len(), want));
    if want.as_ref().is_none_or(|w| w.0.diff(&x.meta).is_some()) {
        c.interesting(&b);
    }
    match (meta(&b)?, &want) {
        (Ok(m), Some((w, _))) => {
            if let Some(d) = w.diff(&m) {
                fail!("metadata differs from what is stored: {d}");
            }
        }
        (Ok(_), None) => fail!("metadata was read from a binary that refers to something outside of it or undefined"),
        (Err(e), Some(_)) => fail!("metadata of a readable shader binary is refused: {e}"),
        (Err(_), None) => c.label("refused"),
    }
    match (lib(|| ShaderBinary::read(&mut Cursor::new(&b)))?, &want) {
        (Ok(s), Some((_, code))) => ensure!(&s.program_code == code, "program code differs"),
        (Err(e), Some(_)) => fail!("a readable shader binary is refused: {e}"),
        _ => {}
    }
    Ok(())
}

fn file(c: &mut Ctx) -> R {
    let k = kinds().iter().copied().find(|k| k.format() == "Shdr").unwrap();
    let mut v = gen_file(&mut c.src, k, &mut Knobs::all());
    let mut want = vec![];
    let mut broken = false;
    {
        let b = match &mut v {
            Val::Variant(_, Some(x)) => match &mut **x {
                Val::Variant(_, Some(b)) => b,
                _ => unreachable!(),
            },
            _ => unreachable!(),
        };
        let Val::Map(m) = &mut **b else { unreachable!() };
        let Val::Seq(list) = &mut m[0].1 else { unreachable!() };
        list.truncate(6);
        for e in list {
            let Val::Map(f) = e else { unreachable!() };
            let mut x = shader(&mut c.src);
            if c.src.chance(1, 30) {
                let n = c.src.usize(x.needed);
                x.bytes.truncate(n);
                broken = true;
            }
            let name = text_or_empty(&lossy(&f[0].1));
            want.push(Val::Map(vec![
                ("name", name),
                ("shader_stage", f.iter().find(|x| x.0 == "shader_stage").unwrap().1.clone()),
                ("meta_data", x.meta.clone()),
            ]));
            f.iter_mut().find(|x| x.0 == "shader_binary").unwrap().1 = Val::Bytes(x.bytes);
        }
    }
    let n = want.len();
    let want = Val::Map(vec![("shaders", Val::Seq(want))]);
    let bytes = if c.src.chance(1, 3) { scattered(&mut c.src, k, &v).bytes } else { canonical(k, &v) };
    c.describe(|| format!("{n} shaders: {want:?}"));
    if n > 0 {
        c.interesting(&bytes);
    }
    debug_assert!(seq(body(&v).field("shaders")).len() == n);
    match lib(|| ShdrData::read(&mut Cursor::new(&bytes)).map_err(|e| e.to_string()))? {
        Ok(d) => {
            ensure!(!broken, "a file with a cut shader binary was accepted");
            let got = lib(|| to_val(&d))?.map_err(|e| Fail(e.to_string()))?;
            if let Some(d) = want.diff(&got) {
                fail!("shaders differ from what is stored: {d}");
            }
        }
        Err(e) => {
            c.label("refused");
            ensure!(broken, "a valid shader file is refused: {e}");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        rule: "binary: at least two buffers, uniforms or attributes; file: at least one shader; mutated: refused, or other metadata than before the change",
        assumptions: &["shader.rs states the layout of the metadata (positions 288, 2504, 2896; entries of 108, 164 and 92 bytes)"],
        subs: vec![
            Sub { name: "binary", quick: 900_000, thorough: 8_000_000, enumerate: 0, f: binary },
            Sub { name: "mutated", quick: 600_000, thorough: 8_000_000, enumerate: 0, f: mutated },
            Sub { name: "file", quick: 360_000, thorough: 3_000_000, enumerate: 0, f: file },
        ],
        probes: vec![],
    }
}
