//! C28: the building blocks hold exactly the value they are given.
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::runner::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::anim_data::{Transform, TrackValues};
use ssbh_data::hlpb_data::{AimConstraintData, OrientConstraintData};
use ssbh_data::matl_data::{BlendStateData, ParamData, RasterizerStateData, SamplerData};
use ssbh_data::mesh_data::VectorData;
use ssbh_data::modl_data::ModlEntryData;
use ssbh_lib::formats::hlpb::{AimConstraint, OrientConstraint};
use ssbh_lib::formats::matl::*;
use ssbh_lib::formats::modl::ModlEntry;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::Cursor;
use std::str::FromStr;

/// What a text of the file formats can hold: everything before the first NUL.
fn cut(b: &[u8]) -> &[u8] {
    &b[..b.iter().position(|x| *x == 0).unwrap_or(b.len())]
}

fn wrote<T: SsbhWrite>(t: &T) -> Result<Vec<u8>, Fail> {
    let mut w = Cursor::new(vec![]);
    let mut dp = 0;
    match lib(|| t.ssbh_write(&mut w, &mut dp))? {
        Ok(_) => Ok(w.into_inner()),
        Err(e) => fail!("writing failed: {e}"),
    }
}

fn reread<T>(b: &[u8]) -> Result<T, Fail>
where
    T: for<'a> binrw::BinRead<Args<'a> = ()>,
{
    match lib(|| T::read_le(&mut Cursor::new(b)))? {
        Ok(v) => Ok(v),
        Err(e) => fail!("reading what was written failed: {e}"),
    }
}

fn bytes_of(s: &mut Src) -> Vec<u8> {
    let mut b = match s.below(3) {
        0 => text(s, true),
        1 => text(s, false),
        _ => (0..s.len(6, 60)).map(|_| s.below(256) as u8).collect(),
    };
    if s.chance(1, 3) {
        // NUL characters at the start, inside and at the end
        for _ in 0..s.range(1, 2) {
            let i = s.usize(b.len() + 1);
            b.insert(i, 0);
        }
    }
    b
}

macro_rules! texts_of {
    ($f:ident, $s:ident, $n:expr) => {
        fn $f(c: &mut Ctx, b: &[u8], other: &[u8]) -> R {
            const N: usize = $n;
            let want = cut(b);
            let utf = std::str::from_utf8(want).ok();
            let s = lib(|| $s::from_bytes(b))?;
            let p = lib(|| CString::<N>::from_bytes(b))?;
            let (st, pt) = lib(|| (s.to_str().map(str::to_owned), p.to_str().map(str::to_owned)))?;
            ensure!(st.as_deref() == utf, "align {N}: to_str of a string from {b:?} is {st:?}, expected {utf:?}");
            ensure!(pt.as_deref() == utf, "align {N}: to_str of an inline string from {b:?} is {pt:?}, expected {utf:?}");
            let (sl, pl) = lib(|| (s.to_string_lossy(), p.to_string_lossy()))?;
            if let Some(u) = utf {
                ensure!(sl == u && pl == u, "align {N}: the text of a string from {b:?} is {sl:?} and {pl:?}");
            }
            // the bytes that go into the file
            let mut tail = want.to_vec();
            if want.is_empty() {
                tail.resize(N, 0);
            } else {
                tail.push(0);
            }
            let mut full = 8u64.div_ceil(N as u64).wrapping_mul(N as u64).to_le_bytes().to_vec();
            full.resize(u64::from_le_bytes(full[..8].try_into().unwrap()) as usize, 0);
            full.extend(&tail);
            let got = wrote(&s)?;
            ensure!(got == full, "align {N}: string from {b:?} is written as {}", hex(&got));
            let got = wrote(&p)?;
            ensure!(got == tail, "align {N}: inline string from {b:?} is written as {}", hex(&got));
            let back: $s = reread(&full)?;
            ensure!(back == s, "align {N}: string from {b:?} is read back as {back:?}");
            let back: CString<N> = reread(&tail)?;
            ensure!(back == p, "align {N}: inline string from {b:?} is read back as {back:?}");
            // every way of making it from text
            if let Ok(t) = std::str::from_utf8(b) {
                let owned = t.to_string();
                let ways = lib(|| {
                    [
                        $s::from(t),
                        $s::from(&owned),
                        $s::from(owned.clone()),
                        $s::from_str(t).unwrap(),
                        t.parse().unwrap(),
                    ]
                })?;
                for (i, w) in ways.iter().enumerate() {
                    ensure!(*w == s, "align {N}: string {i} made from {t:?} is {w:?}, expected {s:?}");
                }
                let ways = lib(|| {
                    [
                        CString::<N>::from(t),
                        CString::<N>::from(&owned),
                        CString::<N>::from(owned.clone()),
                        CString::<N>::from_str(t).unwrap(),
                        t.parse().unwrap(),
                    ]
                })?;
                for (i, w) in ways.iter().enumerate() {
                    ensure!(*w == p, "align {N}: inline string {i} made from {t:?} is {w:?}, expected {p:?}");
                }
                c.label("made from text");
            }
            // equality and copies
            let o = lib(|| $s::from_bytes(other))?;
            let eq = cut(other) == want;
            ensure!((s == o) == eq && (o == s) == eq, "align {N}: strings from {b:?} and {other:?} compare as {}", s == o);
            let op = lib(|| CString::<N>::from_bytes(other))?;
            ensure!((p == op) == eq, "align {N}: inline strings from {b:?} and {other:?} compare as {}", p == op);
            ensure!(s.clone() == s && p.clone() == p, "align {N}: the copy of a string from {b:?} differs");
            // a missing string is no text and is not the empty one
            let none: $s = reread(&[0u8; 8])?;
            let t = lib(|| (none.to_str().map(str::to_owned), none.to_string_lossy()))?;
            ensure!(t == (None, String::new()), "align {N}: a null string has the text {t:?}");
            ensure!(none != s && none == none.clone(), "align {N}: a null string equals the one from {b:?}");
            ensure!(wrote(&none)? == [0u8; 8], "align {N}: a null string is written as {}", hex(&wrote(&none)?));
            Ok(())
        }
    };
}

texts_of!(text4, SsbhString, 4);
texts_of!(text8, SsbhString8, 8);

fn texts(c: &mut Ctx) -> R {
    let b = bytes_of(&mut c.src);
    let other = if c.src.chance(1, 2) {
        // nearly the same
        let mut o = b.clone();
        match c.src.below(3) {
            0 => o.push(c.src.below(256) as u8),
            1 => drop(o.pop()),
            _ => {
                if !o.is_empty() {
                    let i = c.src.usize(o.len());
                    o[i] = c.src.below(256) as u8;
                }
            }
        }
        o
    } else {
        bytes_of(&mut c.src)
    };
    c.describe(|| format!("{:?} {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&other)));
    if b.contains(&0) {
        c.label("with NUL");
    }
    if std::str::from_utf8(&b).is_err() {
        c.label("not UTF-8");
    }
    if b.len() > 1 {
        c.interesting(&(&b, &other));
    }
    if c.src.chance(1, 2) {
        text8(c, &b, &other)
    } else {
        text4(c, &b, &other)
    }
}

fn bits<const N: usize>(a: [f32; N]) -> [u32; N] {
    a.map(f32::to_bits)
}

/// min and max of two numbers; zeros of different sign and NaNs have no fixed result
fn picked(got: f32, a: f32, b: f32, low: bool) -> bool {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => got.is_nan(),
        (true, false) => got == b,
        (false, true) => got == a,
        _ => (got == a || got == b) && (if low { got <= a && got <= b } else { got >= a && got >= b }),
    }
}

fn vectors_(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let a: [f32; 16] = std::array::from_fn(|_| f32_any(s));
    let b: [f32; 4] = std::array::from_fn(|i| if s.chance(1, 4) { a[i] } else { f32_any(s) });
    c.describe(|| format!("{a:?} {b:?}"));
    if a.iter().any(|x| x.is_nan()) {
        c.label("NaN");
    }
    c.interesting(&(bits(a), bits(b)));
    let a3 = [a[0], a[1], a[2]];
    let a4 = [a[0], a[1], a[2], a[3]];
    let b3 = [b[0], b[1], b[2]];
    let v = Vector3::new(a[0], a[1], a[2]);
    let w = Vector4::new(a[0], a[1], a[2], a[3]);
    ensure!(bits([v.x, v.y, v.z]) == bits(a3), "Vector3::new{a3:?} is {v:?}");
    ensure!(bits([w.x, w.y, w.z, w.w]) == bits(a4), "Vector4::new{a4:?} is {w:?}");
    let got: Vec<[u32; 3]> = lib(|| {
        let t: (f32, f32, f32) = v.into();
        vec![
            bits(v.to_array()),
            bits(v.into()),
            bits([t.0, t.1, t.2]),
            bits(Vector3::from(a3).to_array()),
            bits(Vector3::from((a[0], a[1], a[2])).to_array()),
            bits(w.xyz().to_array()),
        ]
    })?;
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == bits(a3), "conversion {i} of {v:?} gives {:?}", g.map(f32::from_bits));
    }
    let got: Vec<[u32; 4]> = lib(|| {
        let t: (f32, f32, f32, f32) = w.into();
        vec![
            bits(w.to_array()),
            bits(w.into()),
            bits([t.0, t.1, t.2, t.3]),
            bits(Vector4::from(a4).to_array()),
            bits(Vector4::from((a[0], a[1], a[2], a[3])).to_array()),
            bits(v.extend(a[3]).to_array()),
        ]
    })?;
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == bits(a4), "conversion {i} of {w:?} gives {:?}", g.map(f32::from_bits));
    }
    let o3 = Vector3::from(b3);
    let o4 = Vector4::from(b);
    let (l3, h3, l4, h4) = lib(|| (v.min(o3).to_array(), v.max(o3).to_array(), w.min(o4).to_array(), w.max(o4).to_array()))?;
    for i in 0..4 {
        if i < 3 {
            ensure!(picked(l3[i], a[i], b[i], true), "component {i} of the minimum of {v:?} and {o3:?} is {}", l3[i]);
            ensure!(picked(h3[i], a[i], b[i], false), "component {i} of the maximum of {v:?} and {o3:?} is {}", h3[i]);
        }
        ensure!(picked(l4[i], a[i], b[i], true), "component {i} of the minimum of {w:?} and {o4:?} is {}", l4[i]);
        ensure!(picked(h4[i], a[i], b[i], false), "component {i} of the maximum of {w:?} and {o4:?} is {}", h4[i]);
    }
    let same = (0..4).all(|i| a[i] == b[i]);
    ensure!((w == o4) == same, "{w:?} and {o4:?} compare as {}", w == o4);
    ensure!((v == o3) == (0..3).all(|i| a[i] == b[i]), "{v:?} and {o3:?} compare as {}", v == o3);

    // matrices: columns in order
    let c4: [[f32; 4]; 4] = std::array::from_fn(|i| std::array::from_fn(|j| a[i * 4 + j]));
    let c3: [[f32; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| a[i * 3 + j]));
    let m4 = lib(|| Matrix4x4::from_cols_array(&c4))?;
    let m3 = lib(|| Matrix3x3::from_cols_array(&c3))?;
    for (i, col) in [m4.col1, m4.col2, m4.col3, m4.col4].iter().enumerate() {
        ensure!(bits([col.x, col.y, col.z, col.w]) == bits(c4[i]), "column {} of the matrix from {c4:?} is {col:?}", i + 1);
    }
    for (i, col) in [m3.col1, m3.col2, m3.col3].iter().enumerate() {
        ensure!(bits([col.x, col.y, col.z]) == bits(c3[i]), "column {} of the matrix from {c3:?} is {col:?}", i + 1);
    }
    let (r4, r3) = lib(|| (m4.to_cols_array(), m3.to_cols_array()))?;
    ensure!(r4.map(bits) == c4.map(bits), "{c4:?} comes back as {r4:?}");
    ensure!(r3.map(bits) == c3.map(bits), "{c3:?} comes back as {r3:?}");
    let flat: Vec<u8> = c4.iter().flatten().flat_map(|x| x.to_le_bytes()).collect();
    ensure!(wrote(&m4)? == flat, "{c4:?} is written as {}", hex(&wrote(&m4)?));
    ensure!(reread::<Matrix4x4>(&flat)?.to_cols_array().map(bits) == c4.map(bits), "{c4:?} is read as another matrix");
    let flat: Vec<u8> = c3.iter().flatten().flat_map(|x| x.to_le_bytes()).collect();
    ensure!(wrote(&m3)? == flat, "{c3:?} is written as {}", hex(&wrote(&m3)?));
    ensure!(reread::<Matrix3x3>(&flat)?.to_cols_array().map(bits) == c3.map(bits), "{c3:?} is read as another matrix");
    let (i4, i3) = lib(|| (Matrix4x4::identity().to_cols_array(), Matrix3x3::identity().to_cols_array()))?;
    for i in 0..4 {
        for j in 0..4 {
            let want = (i == j) as u32 as f32;
            ensure!(i4[i][j] == want, "the 4x4 identity has {} at {i} {j}", i4[i][j]);
            if i < 3 && j < 3 {
                ensure!(i3[i][j] == want, "the 3x3 identity has {} at {i} {j}", i3[i][j]);
            }
        }
    }
    ensure!(Vector3::ZERO.to_array() == [0.0; 3] && Vector4::ZERO.to_array() == [0.0; 4], "ZERO is not zero");
    // an identity animation transform leaves every point where it is
    let t = Transform::IDENTITY;
    ensure!(
        t.scale.to_array() == [1.0; 3] && t.translation.to_array() == [0.0; 3] && t.rotation.to_array() == [0.0, 0.0, 0.0, 1.0],
        "Transform::IDENTITY is {t:?}"
    );
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
struct Item {
    n: u32,
    text: Vec<u8>,
}

/// A chain of edits on the containers against plain lists and options.
fn containers(c: &mut Ctx) -> R {
    let n = c.src.len(5, 40);
    let items: Vec<Item> = (0..n).map(|_| Item { n: int(&mut c.src, 4) as u32, text: cut(&text(&mut c.src, true)).to_vec() }).collect();
    c.describe(|| format!("{items:?}"));
    if n > 1 {
        c.interesting(&format!("{items:?}"));
    }
    // arrays
    let nums: Vec<u32> = items.iter().map(|i| i.n).collect();
    let strs: Vec<SsbhString> = items.iter().map(|i| SsbhString::from_bytes(&i.text)).collect();
    let made: Vec<SsbhArray<u32>> = lib(|| {
        vec![
            SsbhArray::from_vec(nums.clone()),
            SsbhArray::from(nums.clone()),
            nums.iter().copied().collect(),
            // an iterator with a wrong hint of its length
            nums.iter().copied().filter(|_| true).collect(),
            SsbhArray::from_vec(nums.clone()).clone(),
        ]
    })?;
    for (i, m) in made.iter().enumerate() {
        ensure!(m.elements == nums && *m == made[0], "array {i} made from {nums:?} is {m:?}");
    }
    let sarr: SsbhArray<SsbhString> = lib(|| strs.iter().cloned().collect())?;
    ensure!(sarr.elements == strs, "array made from {strs:?} is {sarr:?}");
    let back: SsbhArray<SsbhString> = reread(&wrote(&sarr)?)?;
    ensure!(back == sarr, "{sarr:?} is read back as {back:?}");
    let back: SsbhArray<u32> = reread(&wrote(&made[0])?)?;
    ensure!(back == made[0], "{:?} is read back as {back:?}", made[0]);
    ensure!(SsbhArray::<u32>::new().elements.is_empty() && SsbhArray::<u32>::default().elements.is_empty(), "a new array is not empty");
    if n > 0 {
        let mut other = nums.clone();
        let i = c.src.usize(n);
        if c.src.chance(1, 2) {
            other[i] ^= 1 << c.src.below(32);
        } else {
            other.remove(i);
        }
        ensure!(SsbhArray::from_vec(other.clone()) != made[0], "{nums:?} equals {other:?}");
        let raw: Vec<u8> = other.iter().map(|x| *x as u8).collect();
        let full: Vec<u8> = nums.iter().map(|x| *x as u8).collect();
        ensure!((SsbhByteBuffer::from_vec(raw.clone()) == SsbhByteBuffer::from_vec(full.clone())) == (raw == full), "{raw:?} and {full:?} compare wrongly");
    }
    // byte buffers
    let raw: Vec<u8> = items.iter().flat_map(|i| i.text.clone()).collect();
    let made = lib(|| [SsbhByteBuffer::from_vec(raw.clone()), SsbhByteBuffer::from(raw.clone()), SsbhByteBuffer::from(raw.clone()).clone()])?;
    for (i, m) in made.iter().enumerate() {
        ensure!(m.elements == raw && *m == made[0], "buffer {i} made from {raw:?} is {m:?}");
    }
    let back: SsbhByteBuffer = reread(&wrote(&made[0])?)?;
    ensure!(back == made[0], "{:?} is read back as {back:?}", made[0]);
    ensure!(SsbhByteBuffer::new().elements.is_empty() && SsbhByteBuffer::default().elements.is_empty(), "a new buffer is not empty");

    // pointers: a history of edits
    let mut model: Option<u32> = if c.src.chance(1, 2) { Some(1) } else { None };
    let mut rel: RelPtr64<u32> = lib(|| RelPtr64::from(model))?;
    let mut abs: Ptr32<u32> = lib(|| if let Some(x) = model { Ptr32::new(x) } else { Ptr32::null() })?;
    let mut narrow: Ptr16<u32> = lib(|| if let Some(x) = model { Ptr16::new(x) } else { Ptr16::null() })?;
    let mut wide: Ptr64<u32> = lib(|| if let Some(x) = model { Ptr64::new(x) } else { Ptr64::null() })?;
    for it in &items {
        let x = it.n;
        let op = c.src.below(6);
        macro_rules! edit {
            ($p:expr, $new:expr, $null:expr) => {
                match op {
                    0 => *$p = Some(x),
                    1 => drop($p.take()),
                    2 => {
                        if let Some(v) = $p.as_mut() {
                            *v = v.wrapping_add(x);
                        }
                    }
                    3 => $p = $new,
                    4 => $p = $null,
                    _ => drop($p.get_or_insert(x)),
                }
            };
        }
        lib(|| {
            edit!(rel, RelPtr64::new(x), RelPtr64::null());
            edit!(abs, Ptr32::new(x), Ptr32::null());
            edit!(narrow, Ptr16::new(x), Ptr16::null());
            edit!(wide, Ptr64::new(x), Ptr64::null());
        })?;
        match op {
            0 | 3 => model = Some(x),
            1 | 4 => model = None,
            2 => model = model.map(|v| v.wrapping_add(x)),
            _ => model = model.or(Some(x)),
        }
        ensure!(
            *rel == model && *abs == model && *narrow == model && *wide == model,
            "after edit {op} with {x}: {rel:?} {abs:?} {narrow:?} {wide:?}, expected {model:?}"
        );
        ensure!(rel.clone() == rel && abs.clone() == abs && narrow.clone() == narrow && wide.clone() == wide, "a copied pointer differs");
        let other = model.map(|x| x ^ 1).or(Some(0));
        ensure!(rel != RelPtr64::from(other), "{model:?} equals {other:?}");
    }
    ensure!(*reread::<RelPtr64<u32>>(&wrote(&rel)?)? == model, "{rel:?} is read back as another value");
    // an absolute pointer can only be read where its own value does not start the file at 0
    ensure!(*reread::<Ptr32<u32>>(&wrote(&abs)?)? == model, "{abs:?} is read back as another value");
    ensure!(*reread::<Ptr16<u32>>(&wrote(&narrow)?)? == model, "{narrow:?} is read back as another value");
    ensure!(*reread::<Ptr64<u32>>(&wrote(&wide)?)? == model, "{wide:?} is read back as another value");
    Ok(())
}

fn val<T: serde::Serialize>(t: &T) -> Result<Val, Fail> {
    lib(|| to_val(t))?.map_err(|e| Fail(format!("not serializable: {e}")))
}

macro_rules! agree {
    ($what:expr, $a:expr, $b:expr) => {{
        let (x, y) = (val(&$a)?, val(&$b)?);
        if let Some(d) = x.diff(&y) {
            fail!("{}: {d}", $what);
        }
    }};
}

/// The parts of a file convert on their own as they do inside it.
fn parts(c: &mut Ctx) -> R {
    let k = DK::valid();
    let kind = *c.src.pick(&[DKind::Hlpb, DKind::Modl, DKind::Matl]);
    c.label(kind.name());
    let d = gen_data(&mut c.src, kind, &k);
    c.describe(|| d.debug());
    let v = d.to_val()?;
    if v.size() > 12 {
        c.interesting(&v);
    }
    match &d {
        AnyData::Hlpb(h) => {
            let f = lib(|| ssbh_lib::formats::hlpb::Hlpb::from(h))?;
            #[allow(irrefutable_let_patterns)]
            let ssbh_lib::formats::hlpb::Hlpb::V11 { aim_constraints, orient_constraints, .. } = &f
            else {
                fail!("saved as something else")
            };
            for (x, y) in h.aim_constraints.iter().zip(&aim_constraints.elements) {
                let a = lib(|| AimConstraint::from(x))?;
                agree!("aim constraint in the file and on its own", a, *y);
                agree!("aim constraint by reference and by value", a, lib(|| AimConstraint::from(x.clone()))?);
                agree!("aim constraint and back", *x, lib(|| AimConstraintData::from(&a))?);
                agree!("aim constraint and back by value", *x, lib(|| AimConstraintData::from(a))?);
            }
            for (x, y) in h.orient_constraints.iter().zip(&orient_constraints.elements) {
                let a = lib(|| OrientConstraint::from(x))?;
                agree!("orient constraint in the file and on its own", a, *y);
                agree!("orient constraint by reference and by value", a, lib(|| OrientConstraint::from(x.clone()))?);
                agree!("orient constraint and back", *x, lib(|| OrientConstraintData::from(&a))?);
                agree!("orient constraint and back by value", *x, lib(|| OrientConstraintData::from(a))?);
            }
        }
        AnyData::Modl(m) => {
            for x in &m.entries {
                let a = lib(|| ModlEntry::from(x))?;
                agree!("model entry by reference and by value", a, lib(|| ModlEntry::from(x.clone()))?);
                agree!("model entry and back", *x, lib(|| ModlEntryData::from(&a))?);
                agree!("model entry and back by value", *x, lib(|| ModlEntryData::from(a))?);
            }
        }
        AnyData::Matl(m) => {
            for e in &m.entries {
                for p in &e.samplers {
                    let x = &p.data;
                    let a = lib(|| Sampler::from(x))?;
                    agree!("sampler by reference and by value", a, lib(|| Sampler::from(x.clone()))?);
                    agree!("sampler and back", *x, lib(|| SamplerData::from(&a))?);
                    agree!("sampler and back by value", *x, lib(|| SamplerData::from(a))?);
                    let q = lib(|| ParamData::new(p.param_id, x.clone()))?;
                    agree!("a new parameter", *p, q);
                }
                for p in &e.blend_states {
                    let x = &p.data;
                    let a = lib(|| BlendStateV16::from(x))?;
                    agree!("blend state by reference and by value", a, lib(|| BlendStateV16::from(x.clone()))?);
                    agree!("blend state and back", *x, lib(|| BlendStateData::from(&a))?);
                    agree!("blend state and back by value", *x, lib(|| BlendStateData::from(a))?);
                    // the older form keeps the colors
                    let a = lib(|| BlendStateV15::from(x))?;
                    agree!("old blend state by reference and by value", a, lib(|| BlendStateV15::from(x.clone()))?);
                    let b = lib(|| BlendStateData::from(&a))?;
                    agree!("old blend state's source color", x.source_color, b.source_color);
                    agree!("old blend state's destination color", x.destination_color, b.destination_color);
                    agree!("old blend state and back by value", b, lib(|| BlendStateData::from(a))?);
                }
                for p in &e.rasterizer_states {
                    let x = &p.data;
                    let a = lib(|| RasterizerStateV16::from(x))?;
                    agree!("rasterizer state by reference and by value", a, lib(|| RasterizerStateV16::from(x.clone()))?);
                    agree!("rasterizer state and back", *x, lib(|| RasterizerStateData::from(&a))?);
                    agree!("rasterizer state and back by value", *x, lib(|| RasterizerStateData::from(a))?);
                    let a = lib(|| RasterizerStateV15::from(x))?;
                    agree!("old rasterizer state by reference and by value", a, lib(|| RasterizerStateV15::from(x.clone()))?);
                    let b = lib(|| RasterizerStateData::from(&a))?;
                    agree!("old rasterizer state's cull mode", x.cull_mode, b.cull_mode);
                    agree!("old rasterizer state and back by value", b, lib(|| RasterizerStateData::from(a))?);
                }
            }
        }
        _ => {}
    }
    Ok(())
}

/// The number of elements and the padding of vector lists and tracks.
fn lengths(c: &mut Ctx) -> R {
    let k = DK::valid();
    let n = c.src.len(6, 200);
    let dim = c.src.range(2, 4);
    let v = vectors(&mut c.src, &k, dim, n, 0);
    let w = f32_any(&mut c.src);
    c.describe(|| clip(format!("{v:?} {w}")));
    if n > 0 {
        c.interesting(&val(&v)?);
    }
    let (len, empty, padded) = lib(|| (v.len(), v.is_empty(), v.to_vec4_with_w(w)))?;
    ensure!(len == n && empty == (n == 0), "{n} vectors have the length {len}, empty {empty}");
    let rows: Vec<Vec<f32>> = match &v {
        VectorData::Vector2(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector3(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector4(v) => v.iter().map(|x| x.to_vec()).collect(),
    };
    ensure!(padded.len() == n, "{n} vectors are padded to {}", padded.len());
    for (r, p) in rows.iter().zip(&padded) {
        let mut want = [0.0f32; 4];
        want[..r.len()].copy_from_slice(r);
        want[3] = w;
        ensure!(bits(want) == bits(*p), "{r:?} with {w} is padded to {p:?}");
    }
    let m = c.src.len(4, 60);
    let kind = c.src.below(6) as usize;
    let t: TrackValues = track_values(&mut c.src, &k, m, kind);
    let (len, empty) = lib(|| (t.len(), t.is_empty()))?;
    let want = match val(&t)? {
        Val::Variant(_, Some(x)) => match &*x {
            Val::Seq(s) => s.len(),
            x => fail!("a track is {x:?}"),
        },
        x => fail!("a track is {x:?}"),
    };
    ensure!(len == want && empty == (want == 0), "a track of {want} values has the length {len}, empty {empty}");
    c.label(format!("track kind {kind}"));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        level: "exploration",
        rule: "texts: more than one byte; vectors: any; containers: more than one element; parts: a value with more than 12 parts; lengths: at least one vector",
        assumptions: &["minimum and maximum of zeros with different signs may be either"],
        subs: vec![
            Sub { name: "texts", quick: 1_600_000, thorough: 40_000_000, enumerate: 3, f: texts },
            Sub { name: "vectors", quick: 1_200_000, thorough: 40_000_000, enumerate: 0, f: vectors_ },
            Sub { name: "containers", quick: 800_000, thorough: 24_000_000, enumerate: 0, f: containers },
            Sub { name: "parts", quick: 240_000, thorough: 8_000_000, enumerate: 3, f: parts },
            Sub { name: "lengths", quick: 600_000, thorough: 24_000_000, enumerate: 0, f: lengths },
        ],
        probes: vec![],
    }
}
