//! C01: value -> bytes -> value -> bytes at the file level.
use crate::dgen::{clip, giant_file};
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};

pub fn first_diff(a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let w = |x: &[u8]| hex(&x[i.saturating_sub(8).min(x.len())..(i + 16).min(x.len())]);
    Some(format!("lengths {} and {}, first difference at byte {i}: ..{}.. vs ..{}..", a.len(), b.len(), w(a), w(b)))
}

/// The library's equality on a value is reflexive unless it holds NaN.
pub fn has_nan(v: &Val) -> bool {
    match v {
        Val::F(b) => f32::from_bits(*b).is_nan(),
        Val::Some(x) | Val::Variant(_, Some(x)) => has_nan(x),
        Val::Seq(x) => x.iter().any(has_nan),
        Val::Map(x) => x.iter().any(|x| has_nan(&x.1)),
        _ => false,
    }
}

fn roundtrip(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let v = gen_file(&mut c.src, kind, &mut Knobs::all());
    c.label(kind.name());
    if v.size() > 12 {
        c.interesting(&v);
    }
    c.describe(|| format!("{v:?}"));
    there_and_back(c, kind, v)
}

/// Values with a list, buffer or text far longer than usual.
fn large(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let (v, n) = giant_file(&mut c.src, kind, &mut Knobs::all());
    c.label(kind.name());
    if n > 254 {
        c.interesting(&(kind.name(), n, c.src.log.len()));
        c.label(if n > 65535 { "longer than 65535" } else if n > 4095 { "longer than 4095" } else { "longer than 254" });
    }
    c.describe(|| clip(format!("{n}: {v:?}")));
    there_and_back(c, kind, v)
}

/// Byte buffers around the 100 MB that are allocated at most before any data is seen.
#[allow(irrefutable_let_patterns, unreachable_code)]
fn huge(c: &mut Ctx) -> R {
    use ssbh_lib::formats::{anim::Anim, shdr::*};
    use ssbh_lib::SsbhByteBuffer;
    use std::io::Cursor;
    const LIMIT: usize = 104857600;
    let which = c.src.below(3) as usize;
    let n = LIMIT + *c.src.pick(&[1usize, 0, 4096]);
    let salt = c.src.below(251) as usize;
    let name = ["Anim 2.0", "Anim 1.2", "Shdr 1.2"][which];
    c.label(name);
    c.interesting(&(which, n, salt));
    c.describe(|| format!("{name} with a buffer of {n} bytes"));
    let want: Vec<u8> = (0..n).map(|i| ((i + salt) % 251) as u8).collect();
    let buffer = SsbhByteBuffer::from(want.clone());
    macro_rules! back {
        ($t:ty, $v:expr, $p:pat => $e:expr) => {{
            let v: $t = $v;
            let mut b = Cursor::new(Vec::new());
            if let Err(e) = lib(|| v.write(&mut b))? {
                fail!("{name}: writing a buffer of {n} bytes failed: {e}");
            }
            drop(v);
            let b = b.into_inner();
            ensure!(b.len() > n, "{name}: {} bytes written for a buffer of {n}", b.len());
            let r = match lib(|| <$t>::read(&mut Cursor::new(&b)))? {
                Ok(r) => r,
                Err(e) => fail!("{name}: reading a buffer of {n} bytes failed: {e}"),
            };
            let $p = &r else { fail!("{name}: read as something else") };
            let got: &SsbhByteBuffer = $e;
            ensure!(got.elements == want, "{name}: buffer of {n} bytes read as {} bytes or other ones", got.elements.len());
            let mut b2 = Cursor::new(Vec::new());
            if let Err(e) = lib(|| r.write(&mut b2))? {
                fail!("{name}: writing a buffer of {n} bytes failed: {e}");
            }
            ensure!(b == b2.into_inner(), "{name}: file with a buffer of {n} bytes is written differently after reading it");
        }};
    }
    match which {
        0 => back!(
            Anim,
            Anim::V20 { final_frame_index: 1.0, unk1: 1, unk2: 3, name: "a".into(), groups: Vec::new().into(), buffer },
            Anim::V20 { buffer, .. } => buffer
        ),
        1 => back!(
            Anim,
            Anim::V12 {
                name: "a".into(),
                unk1: 0.0,
                final_frame_index: 1.0,
                unk2: 0.0,
                unk3: 0.0,
                tracks: Vec::new().into(),
                buffers: vec![SsbhByteBuffer::from(vec![1, 2]), buffer, SsbhByteBuffer::from(vec![3])].into(),
            },
            Anim::V12 { buffers, .. } => match buffers.elements.get(1) {
                Some(b) if buffers.elements.len() == 3 => b,
                _ => fail!("{name}: {} buffers read", buffers.elements.len()),
            }
        ),
        _ => back!(
            Shdr,
            Shdr::V12 {
                shaders: vec![Shader {
                    name: "a".into(),
                    shader_stage: ShaderStage::Vertex,
                    unk3: 2,
                    shader_binary: buffer,
                    binary_size: n as u64,
                }]
                .into()
            },
            Shdr::V12 { shaders } => match &shaders.elements[..] {
                [s] => &s.shader_binary,
                _ => fail!("{name}: {} shaders read", shaders.elements.len()),
            }
        ),
    }
    Ok(())
}

fn there_and_back(c: &mut Ctx, kind: Kind, v: Val) -> R {
    let f = AnyFile::from_val(kind, &v)?;
    let b = f.bytes()?;
    let r = match AnyFile::read_bytes(kind, &b)? {
        Ok(r) => r,
        Err(e) => fail!("{}: reading what was written failed: {e}", kind.name()),
    };
    let rv = r.to_val()?;
    if let Some(d) = v.diff(&rv) {
        fail!("{}: value changed by write and read: {d}", kind.name());
    }
    if !has_nan(&v) {
        ensure!(f.lib_eq(&r), "{}: value read back is not equal to the written one", kind.name());
    }
    let b2 = r.bytes()?;
    if let Some(d) = first_diff(&b, &b2) {
        fail!("{}: second write differs: {d}", kind.name());
    }
    if let AnyFile::Ssbh(s) = &f {
        match typed_write(s)? {
            Ok(t) => {
                if let Some(d) = first_diff(&b, &t) {
                    fail!("{}: typed writer and SsbhFile writer differ: {d}", kind.name());
                }
            }
            Err(e) => fail!("typed writer failed: {e}"),
        }
        match typed_read(kind.format(), &b)? {
            Typed::Value(t) => {
                if let Some(d) = v.diff(&t) {
                    fail!("{}: typed reader: {d}", kind.name());
                }
            }
            e => fail!("{}: typed reader failed: {e:?}", kind.name()),
        }
    }
    c.evals += 2;
    Ok(())
}

/// Names in real files may hold any non-zero bytes.
fn raw_text(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let mut k = Knobs::all();
    k.utf8 = false;
    let v = gen_file(&mut c.src, kind, &mut k);
    if lossy(&v) != v {
        c.interesting(&v);
        c.label("not UTF-8");
    }
    c.describe(|| format!("{v:?}"));
    let b = canonical(kind, &v);
    let r = match AnyFile::read_bytes(kind, &b)? {
        Ok(r) => r,
        Err(e) => fail!("{}: reading failed: {e}", kind.name()),
    };
    let b2 = r.bytes()?;
    if let Some(d) = first_diff(&b, &b2) {
        fail!("{}: bytes changed by read and write: {d}", kind.name());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "a generated file value with more than 12 nodes (raw_text: text that is not UTF-8 somewhere)",
        assumptions: &["value equality is judged on the serde view of the value, floats by bits"],
        subs: vec![
            Sub { name: "roundtrip", quick: 1_200_000, thorough: 1_500_000, enumerate: kinds().len() as u64, f: roundtrip },
            Sub { name: "huge", quick: 8, thorough: 40, enumerate: 3, f: huge },
            Sub { name: "large", quick: 600, thorough: 20_000, enumerate: kinds().len() as u64, f: large },
            Sub { name: "raw_text", quick: 400_000, thorough: 300_000, enumerate: kinds().len() as u64, f: raw_text },
        ],
        probes: vec![],
    }
}
