//! Independent definition of how a stored animation track decodes, and a generator of stored tracks.
use crate::engine::*;
use crate::gen::*;
use crate::val::Val;
use ssbh_data::anim_data::TrackValues;

pub const TYPES: [&str; 6] = ["Transform", "UvTransform", "Float", "PatternIndex", "Boolean", "Vector4"];
pub const COMPRESSIONS: [&str; 4] = ["Direct", "ConstTransform", "Compressed", "Constant"];

/// What one component of one frame has to be.
#[derive(Clone, Debug)]
pub enum Exp {
    Bits(u32),
    /// min*(1-t) + max*t in double precision
    Lerp(f64, f64),
    /// the missing quaternion component, from the three components before it; true = negative
    W(bool),
}

#[derive(Debug)]
pub struct Decoded {
    pub frames: Vec<Vec<Exp>>,
    pub compensate: bool,
}

struct Rd<'a> {
    b: &'a [u8],
    at: usize,
}
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Result<u64, String> {
        let x = self.b.get(self.at..self.at + n).ok_or("data ends early")?;
        self.at += n;
        let mut w = [0u8; 8];
        w[..n].copy_from_slice(x);
        Ok(u64::from_le_bytes(w))
    }
    fn words(&mut self, n: usize) -> Result<Vec<u32>, String> {
        (0..n).map(|_| self.take(4).map(|x| x as u32)).collect()
    }
}

struct BitsRd<'a> {
    b: &'a [u8],
    at: usize,
}
impl BitsRd<'_> {
    fn take(&mut self, n: usize) -> Result<u64, String> {
        let mut v = 0u64;
        for i in 0..n {
            let byte = self.b.get(self.at / 8).ok_or("not enough bits")?;
            v |= ((byte >> (self.at % 8)) as u64 & 1) << i;
            self.at += 1;
        }
        Ok(v)
    }
}

/// min, max (bits), number of bits
type Comp = (u32, u32, u64);

fn width(c: &Comp) -> usize {
    if f32::from_bits(c.0) == f32::from_bits(c.1) {
        0
    } else {
        c.2 as usize
    }
}

fn comp(c: &Comp, default: u32, bits: &mut BitsRd) -> Result<Exp, String> {
    let n = width(c);
    if n == 0 {
        return Ok(Exp::Bits(default));
    }
    let raw = bits.take(n)?;
    let t = raw as f64 / ((1u64 << n) - 1) as f64;
    let (min, max) = (f32::from_bits(c.0) as f64, f32::from_bits(c.1) as f64);
    Ok(Exp::Lerp(min * (1.0 - t) + max * t, min.abs().max(max.abs())))
}

pub fn decode(ty: &str, compression: &str, count: u64, b: &[u8]) -> Result<Decoded, String> {
    let size = match ty {
        "Transform" => 44,
        "UvTransform" => 20,
        "Float" | "PatternIndex" => 4,
        "Boolean" => 1,
        _ => 16,
    };
    let uncompressed_frame = |r: &mut Rd| -> Result<(Vec<u32>, u32), String> {
        if ty == "Boolean" {
            return Ok((vec![(r.take(1)? != 0) as u32], 0));
        }
        let mut w = r.words(size / 4)?;
        // scale, rotation, translation, compensate
        let c = if ty == "Transform" { w.pop().unwrap() } else { 0 };
        Ok((w, c))
    };
    if compression != "Compressed" {
        if count.checked_mul(size as u64).map(|n| n > b.len() as u64).unwrap_or(true) {
            return Err("data ends early".into());
        }
        let mut r = Rd { b, at: 0 };
        let mut frames = vec![];
        let mut compensate = false;
        for i in 0..count {
            let (w, c) = uncompressed_frame(&mut r)?;
            if i == 0 {
                compensate = c != 0;
            }
            frames.push(w.into_iter().map(Exp::Bits).collect());
        }
        return Ok(Decoded { frames, compensate });
    }

    let mut r = Rd { b, at: 0 };
    let _unk = r.take(2)?;
    let flags = r.take(2)?;
    let default_at = r.take(2)? as usize;
    let bits_per_entry = r.take(2)? as usize;
    let data_at = r.take(4)? as usize;
    let _frames = r.take(4)?;
    let (has_scale, uniform, has_rot, has_trans) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, flags & 8 != 0);
    let default = if default_at == 0 {
        None
    } else {
        if default_at > b.len() {
            return Err("default outside the data".into());
        }
        Some(uncompressed_frame(&mut Rd { b, at: default_at })?)
    };
    // compression parameters follow the header
    let n_comp = match ty {
        "Transform" => 9,
        "UvTransform" => 5,
        "Float" | "PatternIndex" => 1,
        "Vector4" => 4,
        _ => 0,
    };
    let mut comps: Vec<Comp> = vec![];
    for _ in 0..n_comp {
        let min = r.take(4)? as u32;
        let max = r.take(4)? as u32;
        let n = r.take(8)?;
        if n > 32 {
            return Err("too many bits".into());
        }
        comps.push((min, max, n));
    }
    if ty == "Boolean" {
        r.take(8)?;
        r.take(8)?;
    }
    let expected: usize = match ty {
        "Transform" => {
            let mut n = 0;
            if has_scale {
                n += if uniform { width(&comps[0]) } else { comps[..3].iter().map(width).sum() };
            }
            if has_rot {
                n += comps[3..6].iter().map(width).sum::<usize>() + 1;
            }
            if has_trans {
                n += comps[6..9].iter().map(width).sum::<usize>();
            }
            n
        }
        "UvTransform" => {
            width(&comps[0])
                + if uniform { 0 } else { width(&comps[1]) }
                + comps[2..].iter().map(width).sum::<usize>()
        }
        "PatternIndex" => comps[0].2 as usize,
        "Boolean" => 1,
        _ => comps.iter().map(width).sum(),
    };
    if bits_per_entry != expected {
        return Err("bits per entry".into());
    }
    if data_at == 0 {
        return Err("no data".into());
    }
    let mut bits = BitsRd { b: b.get(data_at..).unwrap_or(&[]), at: 0 };
    let n = if expected == 0 && count > 0 { 1 } else { count };
    if n.checked_mul(expected as u64).map(|x| x > 8 * bits.b.len() as u64).unwrap_or(true) {
        return Err("not enough bits".into());
    }
    let mut frames = vec![];
    let mut compensate = false;
    for _ in 0..n {
        let (d, comp_scale) = default.as_ref().ok_or("no default")?;
        compensate = *comp_scale != 0;
        let f = match ty {
            "Transform" => {
                let scale = match (has_scale, uniform) {
                    (true, true) => {
                        let x = comp(&comps[0], d[0], &mut bits)?;
                        vec![x.clone(), x.clone(), x]
                    }
                    (true, false) => (0..3).map(|i| comp(&comps[i], d[i], &mut bits)).collect::<Result<_, _>>()?,
                    (false, true) => vec![Exp::Bits(d[0]); 3],
                    (false, false) => d[..3].iter().map(|x| Exp::Bits(*x)).collect(),
                };
                let mut rot: Vec<Exp> = if has_rot {
                    (0..3).map(|i| comp(&comps[3 + i], d[3 + i], &mut bits)).collect::<Result<_, _>>()?
                } else {
                    d[3..6].iter().map(|x| Exp::Bits(*x)).collect()
                };
                let trans: Vec<Exp> = if has_trans {
                    (0..3).map(|i| comp(&comps[6 + i], d[7 + i], &mut bits)).collect::<Result<_, _>>()?
                } else {
                    d[7..10].iter().map(|x| Exp::Bits(*x)).collect()
                };
                rot.push(if has_rot { Exp::W(bits.take(1)? != 0) } else { Exp::Bits(d[6]) });
                [scale, rot, trans].concat()
            }
            "UvTransform" => {
                let u = comp(&comps[0], d[0], &mut bits)?;
                let v = if uniform { u.clone() } else { comp(&comps[1], d[1], &mut bits)? };
                let mut f = vec![u, v];
                for i in 2..5 {
                    f.push(comp(&comps[i], d[i], &mut bits)?);
                }
                f
            }
            "PatternIndex" => {
                let raw = bits.take(comps[0].2 as usize)?;
                // wraps like any 32 bit number
                vec![Exp::Bits((raw as u32).wrapping_add(comps[0].0))]
            }
            "Boolean" => vec![Exp::Bits(bits.take(1)? as u32)],
            _ => (0..comps.len()).map(|i| comp(&comps[i], d[i], &mut bits)).collect::<Result<_, _>>()?,
        };
        frames.push(f);
    }
    Ok(Decoded { frames, compensate })
}

/// The values of a track, one list of 32 bit patterns per frame.
pub fn flatten(v: &TrackValues) -> (&'static str, Vec<Vec<u32>>) {
    match v {
        TrackValues::Transform(v) => (
            "Transform",
            v.iter()
                .map(|t| {
                    [
                        t.scale.x, t.scale.y, t.scale.z, t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w,
                        t.translation.x, t.translation.y, t.translation.z,
                    ]
                    .iter()
                    .map(|f| f.to_bits())
                    .collect()
                })
                .collect(),
        ),
        TrackValues::UvTransform(v) => (
            "UvTransform",
            v.iter()
                .map(|t| {
                    [t.scale_u, t.scale_v, t.rotation, t.translate_u, t.translate_v]
                        .iter()
                        .map(|f| f.to_bits())
                        .collect()
                })
                .collect(),
        ),
        TrackValues::Float(v) => ("Float", v.iter().map(|f| vec![f.to_bits()]).collect()),
        TrackValues::PatternIndex(v) => ("PatternIndex", v.iter().map(|f| vec![*f]).collect()),
        TrackValues::Boolean(v) => ("Boolean", v.iter().map(|f| vec![*f as u32]).collect()),
        TrackValues::Vector4(v) => (
            "Vector4",
            v.iter().map(|t| [t.x, t.y, t.z, t.w].iter().map(|f| f.to_bits()).collect()).collect(),
        ),
    }
}

fn ulp(x: f32) -> f64 {
    let a = x.abs().max(f32::MIN_POSITIVE);
    (f32::from_bits(a.to_bits() + 1) as f64) - a as f64
}

/// Does the frame the library decoded match?
pub fn matches(exp: &[Exp], got: &[u32]) -> Result<(), String> {
    if exp.len() != got.len() {
        return Err(format!("{} components, expected {}", got.len(), exp.len()));
    }
    for (i, (e, g)) in exp.iter().zip(got).enumerate() {
        let gf = f32::from_bits(*g);
        match e {
            Exp::Bits(b) => {
                if b != g {
                    return Err(format!("component {i} is {gf:?} ({g:#x}), expected {:?} ({b:#x})", f32::from_bits(*b)));
                }
            }
            Exp::Lerp(v, mag) => {
                let ok = if v.is_nan() {
                    gf.is_nan()
                } else if v.is_infinite() {
                    gf as f64 == *v
                } else {
                    let w = *v as f32;
                    (gf as f64 - v).abs() <= 1.01 * ulp(w) + mag * 1e-15
                        || (w.is_infinite() && gf.is_infinite())
                };
                if !ok {
                    return Err(format!("component {i} is {gf:?}, expected {v:?}"));
                }
            }
            Exp::W(neg) => {
                let q: Vec<f64> = got[i - 3..i].iter().map(|b| f32::from_bits(*b) as f64).collect();
                let n2: f64 = q.iter().map(|x| x * x).sum();
                let w2 = 1.0 - n2;
                let ok = if w2.is_nan() || n2 > 1e30 {
                    true
                } else {
                    let a = gf.abs() as f64;
                    let sign_ok = gf == 0.0 || gf.is_sign_negative() == *neg;
                    sign_ok && (a * a - w2.max(0.0)).abs() <= 4e-7 * (1.0 + n2)
                };
                if !ok {
                    return Err(format!("component {i} (w) is {gf:?}, expected the root of {w2:?}, negative: {neg}"));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generator

#[derive(Clone)]
pub struct Stored {
    pub ty: &'static str,
    pub compression: &'static str,
    pub count: u64,
    pub bytes: Vec<u8>,
    pub broken: bool,
}

fn range(s: &mut Src) -> (f32, f32) {
    match s.weighted(&[3, 5, 2, 1, 1]) {
        0 => {
            let a = f32_geo(s);
            (a, a)
        }
        1 => (f32_geo(s), f32_geo(s)),
        2 => *s.pick(&[(0.0, 1.0), (-1.0, 1.0), (0.0, -0.0), (-0.75, -0.5), (1.0, 0.0), (100.0, 100.00001)]),
        3 => (f32_any(s), f32_any(s)),
        _ => {
            let a = f32_geo(s);
            (a, f32::from_bits(a.to_bits() ^ 1))
        }
    }
}

pub fn stored(s: &mut Src, may_break: bool) -> Stored {
    let ty = *s.pick(&TYPES);
    let compression = COMPRESSIONS[s.weighted(&[2, 1, 6, 1])];
    let count = match s.weighted(&[1, 3, 5]) {
        0 => 0,
        1 => 1,
        _ => s.range(2, 12),
    };
    let mut b: Vec<u8> = vec![];
    let words = |ty: &str| match ty {
        "Transform" => 11,
        "UvTransform" => 5,
        "Float" | "PatternIndex" => 1,
        _ => 4,
    };
    let frame = |s: &mut Src, b: &mut Vec<u8>| {
        if ty == "Boolean" {
            b.push(match s.weighted(&[4, 1]) {
                0 => s.below(2) as u8,
                _ => s.below(256) as u8,
            });
        } else if ty == "PatternIndex" {
            b.extend((int(s, 4) as u32).to_le_bytes());
        } else {
            let n = words(ty);
            for i in 0..n {
                if ty == "Transform" && i == 10 {
                    b.extend((*s.pick(&[0u32, 1, 1, 2, u32::MAX])).to_le_bytes());
                } else {
                    b.extend(if s.chance(3, 4) { f32_geo(s) } else { f32_any(s) }.to_bits().to_le_bytes());
                }
            }
        }
    };
    if compression != "Compressed" {
        for _ in 0..count {
            frame(s, &mut b);
        }
    } else {
        let n_comp = match ty {
            "Transform" => 9,
            "UvTransform" => 5,
            "Float" | "PatternIndex" => 1,
            "Vector4" => 4,
            _ => 0,
        };
        let flags = (s.below(16) | if s.chance(1, 6) { s.below(4096) << 4 } else { 0 }) as u16;
        let mut comps = vec![];
        for _ in 0..n_comp {
            let (min, max) = range(s);
            let n = match s.weighted(&[3, 3, 4, 1]) {
                0 => 0,
                1 => 24,
                2 => s.range(1, 24),
                _ => s.range(25, 32),
            };
            if ty == "PatternIndex" {
                let min = int(s, 4) as u32;
                let max = if s.chance(1, 4) { min } else { int(s, 4) as u32 };
                comps.push((min, max, n));
            } else {
                comps.push((min.to_bits(), max.to_bits(), n));
            }
        }
        let w = |i: usize| width(&comps[i]);
        let bits = match ty {
            "Transform" => {
                let mut n = 0;
                if flags & 1 != 0 {
                    n += if flags & 2 != 0 { w(0) } else { w(0) + w(1) + w(2) };
                }
                if flags & 4 != 0 {
                    n += w(3) + w(4) + w(5) + 1;
                }
                if flags & 8 != 0 {
                    n += w(6) + w(7) + w(8);
                }
                n
            }
            "UvTransform" => w(0) + if flags & 2 != 0 { 0 } else { w(1) } + w(2) + w(3) + w(4),
            "PatternIndex" => comps[0].2 as usize,
            "Boolean" => 1,
            _ => (0..n_comp).map(w).sum(),
        };
        // header and parameters, then default and data in any order with gaps
        let mut d = vec![];
        frame(s, &mut d);
        let head = 16 + if ty == "Boolean" { 16 } else { 16 * n_comp };
        let mut data: Vec<u8> = (0..(bits as u64 * count).div_ceil(8)).map(|_| s.below(256) as u8).collect();
        if s.chance(1, 6) {
            data.push(0xa5);
        }
        let (gap1, gap2) = if s.chance(1, 3) { (s.usize(9), s.usize(9)) } else { (0, 0) };
        let data_first = s.chance(1, 3);
        // the default may also lie inside the parameters
        let overlap = s.chance(1, 8) && d.len() <= head - 16;
        let (default_at, data_at, end);
        if overlap {
            default_at = head - d.len();
            data_at = head + gap1;
            end = data_at + data.len();
        } else if data_first {
            data_at = head + gap1;
            default_at = data_at + data.len() + gap2;
            end = default_at + d.len();
        } else {
            default_at = head + gap1;
            data_at = default_at + d.len() + gap2;
            end = data_at + data.len();
        }
        b.extend((if s.chance(1, 8) { s.below(65536) as u16 } else { 4 }).to_le_bytes());
        b.extend(flags.to_le_bytes());
        b.extend((default_at as u16).to_le_bytes());
        b.extend((bits as u16).to_le_bytes());
        b.extend((data_at as u32).to_le_bytes());
        b.extend((count as u32).to_le_bytes());
        for (a, z, n) in &comps {
            b.extend(a.to_le_bytes());
            b.extend(z.to_le_bytes());
            b.extend(n.to_le_bytes());
        }
        b.resize(head, 0);
        b.resize(end, 0x77);
        if !overlap {
            b[default_at..default_at + d.len()].copy_from_slice(&d);
        }
        b[data_at..data_at + data.len()].copy_from_slice(&data);
    }
    let mut broken = false;
    let mut count = count;
    if may_break && s.chance(1, 2) {
        broken = true;
        match s.weighted(&[3, 3, 2, 2, 2]) {
            0 => {
                let n = s.usize(b.len() + 1);
                b.truncate(n);
            }
            1 if b.len() >= 16 => {
                // a header field
                let (at, w) = *s.pick(&[(2, 2), (4, 2), (6, 2), (8, 4), (12, 4)]);
                let old = u64::from(b[at]) | u64::from(b[at + 1]) << 8;
                let v = match s.weighted(&[3, 2, 2]) {
                    0 => old.wrapping_add(s.below(5)).wrapping_sub(2),
                    1 => s.below(64),
                    _ => int(s, w),
                };
                b[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
            }
            2 if b.len() >= 32 => {
                // a bit count
                let n = (b.len() - 16) / 16;
                let i = 16 + 16 * s.usize(n) + 8;
                if i + 8 <= b.len() {
                    let v = match s.weighted(&[2, 2]) {
                        0 => s.range(30, 70),
                        _ => int(s, 8),
                    };
                    b[i..i + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
            3 => {
                count = match s.weighted(&[3, 2]) {
                    0 => count + s.range(1, 9),
                    _ => int(s, 4),
                };
            }
            _ => {
                for _ in 0..s.range(1, 3) {
                    if !b.is_empty() {
                        let i = s.usize(b.len());
                        b[i] = s.below(256) as u8;
                    }
                }
            }
        }
    }
    Stored { ty, compression, count, bytes: b, broken }
}

pub struct StoredAnim {
    pub val: Val,
    pub version: &'static str,
    /// type, values or why not, in order; and the position in groups and nodes
    pub tracks: Vec<(Stored, Result<Decoded, String>)>,
}

/// An animation file around stored tracks, placed anywhere in the buffer.
pub fn stored_anim(s: &mut Src, may_break: bool) -> StoredAnim {
    let version = *s.pick(&["V20", "V21"]);
    let n_tracks = 1 + s.below(4) as usize;
    let mut tracks: Vec<Stored> = vec![];
    for i in 0..n_tracks {
        // mostly one broken track at most
        tracks.push(stored(s, may_break && i == 0));
    }
    let mut order: Vec<usize> = (0..n_tracks).collect();
    s.shuffle(&mut order);
    let mut buffer: Vec<u8> = vec![];
    let mut place = vec![(0u64, 0u64); n_tracks];
    for i in &order {
        if s.chance(1, 3) {
            let n = s.below(6);
            buffer.extend((0..n).map(|_| 0x5au8));
        }
        place[*i] = (buffer.len() as u64, tracks[*i].bytes.len() as u64);
        buffer.extend(&tracks[*i].bytes);
    }
    if s.chance(1, 3) {
        buffer.extend([1, 2, 3]);
    }
    if may_break && s.chance(1, 3) {
        let i = s.usize(n_tracks);
        tracks[i].broken = true;
        match s.weighted(&[2, 2, 1, 1]) {
            0 => place[i].1 = (buffer.len() as u64 - place[i].0) + s.below(3),
            1 => place[i].0 = buffer.len() as u64 - place[i].1.min(buffer.len() as u64) + s.below(3),
            2 => place[i].0 = int(s, 4),
            _ => place[i].1 = int(s, 8),
        }
    }
    let mut out = vec![];
    for (i, t) in tracks.iter().enumerate() {
        let (at, n) = place[i];
        let slice = at
            .checked_add(n)
            .filter(|e| *e <= buffer.len() as u64)
            .map(|e| &buffer[at as usize..e as usize]);
        let d = match slice {
            Some(b) => decode(t.ty, t.compression, t.count, b),
            None => Err("outside the buffer".into()),
        };
        out.push((t.clone(), d));
    }
    // spread the tracks over groups and nodes
    let track_val = |s: &mut Src, i: usize| {
        let t = &tracks[i];
        let bits: Vec<Val> = (0..4).map(|j| Val::U(if j == 0 { s.below(16) } else { 0 })).collect();
        Val::Map(vec![
            ("name", Val::Some(Box::new(Val::Str(text(s, true))))),
            (
                "flags",
                Val::Map(vec![
                    ("track_type", Val::Variant(t.ty, None)),
                    ("compression_type", Val::Variant(t.compression, None)),
                ]),
            ),
            ("frame_count", Val::U(t.count)),
            ("transform_flags", Val::Map(vec![("bytes", Val::Seq(bits))])),
            ("data_offset", Val::U(place[i].0)),
            ("data_size", Val::U(place[i].1)),
        ])
    };
    let mut groups = vec![];
    let mut nodes: Vec<Val> = vec![];
    let mut cur: Vec<Val> = vec![];
    let kinds = ["Transform", "Visibility", "Material", "Camera"];
    for i in 0..n_tracks {
        cur.push(track_val(s, i));
        if i + 1 == n_tracks || s.chance(1, 3) {
            let name = text(s, true);
            nodes.push(Val::Map(vec![
                ("name", Val::Some(Box::new(Val::Str(name)))),
                ("tracks", Val::Seq(std::mem::take(&mut cur))),
            ]));
        }
        if i + 1 == n_tracks || s.chance(1, 4) {
            if !cur.is_empty() {
                continue;
            }
            groups.push(Val::Map(vec![
                ("group_type", Val::Variant(s.pick(&kinds), None)),
                ("nodes", Val::Seq(std::mem::take(&mut nodes))),
            ]));
        }
    }
    let mut body = vec![
        ("final_frame_index", Val::F(f32_geo(s).to_bits())),
        ("unk1", Val::U(1)),
        ("unk2", Val::U(3)),
        ("name", Val::Some(Box::new(Val::Str(vec![])))),
        ("groups", Val::Seq(groups)),
        ("buffer", Val::Bytes(buffer)),
    ];
    if version == "V21" {
        body.push(("unk_data", Val::Map(vec![("unk1", Val::Seq(vec![])), ("unk2", Val::Seq(vec![]))])));
    }
    let val = Val::Variant("Anim", Some(Box::new(Val::Variant(version, Some(Box::new(Val::Map(body)))))));
    StoredAnim { val, version, tracks: out }
}

/// A version 1.2 animation with buffers of the known kinds, whole or cut.
pub fn anim_v12(s: &mut Src) -> Val {
    let buffers: Vec<Val> = (0..s.below(5))
        .map(|_| {
            let h = *s.pick(&[0x1003u32, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4308, 0x4409, 0, 0x1234]);
            let mut b = h.to_le_bytes().to_vec();
            if h == 0x4308 {
                b.extend((match s.weighted(&[3, 1]) {
                    0 => s.below(40) as u32,
                    _ => int(s, 4) as u32,
                })
                .to_le_bytes());
            }
            let n = match s.weighted(&[3, 2, 1]) {
                0 => s.range(60, 120),
                1 => s.below(80),
                _ => s.below(4),
            };
            b.extend((0..n).map(|_| s.below(256) as u8));
            if s.chance(1, 8) {
                let n = s.usize(5);
                b.truncate(n);
            }
            Val::Bytes(b)
        })
        .collect();
    let n = buffers.len() as u64;
    let tracks = (0..s.below(5))
        .map(|_| {
            let props = (0..s.below(3))
                .map(|_| {
                    let idx = if s.chance(1, 8) { int(s, 8) } else { s.below(n.max(1)) };
                    Val::Map(vec![
                        ("name", Val::Some(Box::new(Val::Str(text(s, true))))),
                        ("buffer_index", Val::U(idx)),
                    ])
                })
                .collect();
            Val::Map(vec![
                ("name", Val::Some(Box::new(Val::Str(text(s, true))))),
                ("track_type", Val::Variant(s.pick(&["Transform", "UvTransform", "Visibility"]), None)),
                ("properties", Val::Seq(props)),
            ])
        })
        .collect();
    let f = |x: f32| Val::F(x.to_bits());
    let body = Val::Map(vec![
        ("name", Val::Some(Box::new(Val::Str(vec![])))),
        ("unk1", f(1.0)),
        ("final_frame_index", f(f32_geo(s))),
        ("unk2", f(0.0)),
        ("unk3", f(0.0)),
        ("tracks", Val::Seq(tracks)),
        ("buffers", Val::Seq(buffers)),
    ]);
    Val::Variant("Anim", Some(Box::new(Val::Variant("V12", Some(Box::new(body))))))
}
