//! Random value trees for the schema's types.
use crate::engine::Src;
use crate::schema::*;
use crate::val::Val;

#[derive(Clone)]
pub struct Knobs {
    pub finite: bool,
    pub utf8: bool,
    /// *str pointing at a null string (JSON cannot tell it from a null pointer)
    pub nested_null: bool,
    /// may cut long arrays down (fuel for nested values)
    pub fuel: i64,
    pub big: bool,
}

impl Knobs {
    pub fn all() -> Self {
        Knobs { finite: false, utf8: true, nested_null: true, fuel: 400, big: true }
    }
    pub fn json() -> Self {
        Knobs { finite: true, utf8: true, nested_null: false, fuel: 300, big: true }
    }
    pub fn small() -> Self {
        Knobs { finite: false, utf8: true, nested_null: true, fuel: 60, big: false }
    }
}

/// A small difference of either sign.
pub fn tiny(s: &mut Src) -> f32 {
    let m = s.range(1, 9) as f32 * *s.pick(&[1e-5f32, 1e-4, 1e-3, 1e-2, 1e-6, 1e-7, 1e-8, 1e-10]);
    if s.chance(1, 2) {
        -m
    } else {
        m
    }
}

/// A value next to a special one.
pub fn near(s: &mut Src) -> f32 {
    let base = *s.pick(&[1.0f32, 0.0, -1.0, 0.5, 2.0]);
    if s.chance(1, 4) {
        let d = s.below(5) as i32 - 2;
        return f32::from_bits((base.to_bits() as i32).wrapping_add(d) as u32 & if base == 0.0 { 0x8000_0003 } else { u32::MAX });
    }
    base + tiny(s)
}

pub fn f32_any(s: &mut Src) -> f32 {
    match s.weighted(&[4, 4, 4, 2, 3, 1]) {
        5 => near(s),
        0 => s.below(9) as f32 - 4.0,
        1 => (s.below(4001) as f32 - 2000.0) / 128.0,
        2 => f32_finite(s),
        3 => *s.pick(&[
            0.0,
            -0.0,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::NAN,
            f32::MAX,
            f32::MIN,
            f32::MIN_POSITIVE,
            f32::from_bits(1),
            f32::from_bits(0x7fa00001),
            f32::from_bits(0xffc12345),
            f32::EPSILON,
        ]),
        _ => f32::from_bits(s.u64() as u32),
    }
}

pub fn f32_finite(s: &mut Src) -> f32 {
    match s.weighted(&[4, 4, 2, 2, 1]) {
        4 => near(s),
        0 => s.below(9) as f32 - 4.0,
        1 => (s.below(200001) as f32 - 100000.0) / 3137.0,
        2 => *s.pick(&[0.0, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), f32::EPSILON, 16777216.0, 0.1]),
        _ => {
            let b = s.u64() as u32;
            let f = f32::from_bits(b);
            if f.is_finite() {
                f
            } else {
                f32::from_bits(b & 0xff7f_ffff)
            }
        }
    }
}

/// A moderately sized float for geometry.
pub fn f32_geo(s: &mut Src) -> f32 {
    match s.weighted(&[8, 12, 4, 2, 1]) {
        4 => near(s),
        0 => s.below(9) as f32 - 4.0,
        1 => (s.below(200001) as f32 - 100000.0) / 3137.0,
        2 => (s.below(2001) as f32 - 1000.0) / 1.0e5,
        _ => (s.below(2001) as f32 - 1000.0) * 37.5,
    }
}

pub fn int(s: &mut Src, w: usize) -> u64 {
    let bits = 8 * w as u32;
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    (match s.weighted(&[6, 3, 3]) {
        0 => s.below(11),
        1 => *s.pick(&[
            0xff, 0x100, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
            0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX, 64, 255, 256,
        ]),
        _ => s.u64(),
    }) & mask
}

const PIECES: [&str; 60] = [
    "a", "A", "/", "\\", "//", ".", "./", "../", "_", " ", "  ", "\t", "\r\n", "\u{feff}", "e\u{301}", "ß", "İ", "B", "0", "00", "1", "-",
    "null", "None", "true", "NaN", "default", "#", ".numatb", ".nutexb", ".nuanmb", "Position0", "map1", "uvSet", "colorSet1", ":", "|", ";",
    ",", "Shape", "_VIS", "_O_", "_VIS_O_OBJ", "%20", "&amp;", "\\u0041", "\\0", "\u{1}", "\u{2028}", "'", "\"", "<", "{", "[", "(", "*", "?", "~",
    "$", "model",
];

pub fn text(s: &mut Src, utf8: bool) -> Vec<u8> {
    match s.weighted(&[3, 8, 2, 2, 1, 3, if utf8 { 0 } else { 3 }]) {
        0 => vec![],
        1 => {
            let n = s.range(1, 9);
            (0..n).map(|_| b'a' + s.below(26) as u8).collect()
        }
        2 => {
            let n = s.range(1, 40);
            (0..n).map(|_| s.range(1, 127) as u8).collect()
        }
        3 => {
            let n = s.range(1, 8);
            let pool = ["é", "ナ", "_VIS_O_OBJShape", "😀", "\u{7f}", " ", "\u{200b}", "Shape", "\"", "\\", "\n"];
            (0..n).flat_map(|_| s.pick(&pool).bytes().collect::<Vec<u8>>()).collect()
        }
        4 => {
            let n = s.range(100, 300);
            let c = b'a' + s.below(26) as u8;
            vec![c; n as usize]
        }
        5 => {
            // what could be mistaken for something to tidy up
            let n = s.range(1, 4);
            (0..n).flat_map(|_| s.pick(&PIECES).bytes().collect::<Vec<u8>>()).collect()
        }
        _ => {
            let n = s.range(1, 12);
            (0..n).map(|_| s.range(1, 255) as u8).collect()
        }
    }
}

fn opt(s: &mut Src, v: impl FnOnce(&mut Src) -> Val) -> Val {
    if s.chance(1, 10) {
        Val::None
    } else {
        Val::Some(Box::new(v(s)))
    }
}

pub fn gen(s: &mut Src, t: T, k: &mut Knobs) -> Val {
    k.fuel -= 1;
    match t {
        Ty::Int { w, signed } => {
            let v = int(s, *w);
            if *signed {
                let sh = 64 - 8 * *w as u32;
                Val::I(((v << sh) as i64) >> sh)
            } else {
                Val::U(v)
            }
        }
        Ty::F32 => Val::F(if k.finite { f32_finite(s) } else { f32_any(s) }.to_bits()),
        Ty::Enum { vars, .. } => Val::Variant(s.pick(vars).0, None),
        Ty::Bits(n) => {
            let all = s.chance(1, 3);
            let seq = (0..*n)
                .map(|i| {
                    Val::U(if all {
                        s.below(256)
                    } else if i == 0 {
                        s.below(64)
                    } else {
                        0
                    })
                })
                .collect();
            Val::Map(vec![("bytes", Val::Seq(seq))])
        }
        Ty::Str(_) => opt(s, |s| Val::Str(text(s, k.utf8))),
        Ty::CStr(_) => Val::Str(text(s, k.utf8)),
        Ty::Bytes => {
            let n = if k.big && s.chance(1, 12) { s.len(60, 400) } else { s.len(8, 40) };
            Val::Bytes((0..n).map(|_| s.below(256) as u8).collect())
        }
        Ty::Arr(e) | Ty::Vec(e) => {
            let prim = matches!(e, Ty::Int { .. } | Ty::F32 | Ty::Enum { .. });
            let n = if k.fuel <= 0 {
                s.below(2) as usize
            } else if prim {
                s.len(5, if k.big { 60 } else { 12 })
            } else if matches!(e, Ty::Str(_) | Ty::Tag(_) | Ty::Bits(_)) {
                s.len(3, 8)
            } else {
                s.len(2, if k.big { 5 } else { 3 })
            };
            Val::Seq((0..n).map(|_| gen(s, e, k)).collect())
        }
        Ty::Rel(_, e) => opt(s, |s| {
            let mut v = gen(s, e, k);
            if !k.nested_null && v == Val::None {
                v = Val::Some(Box::new(Val::Str(vec![])));
            }
            v
        }),
        Ty::Abs(_, e) => opt(s, |s| gen(s, e, k)),
        Ty::Tag(e) => Val::Map(vec![("data", opt(s, |s| gen(s, e, k)))]),
        Ty::Tagged { cases, .. } => {
            let (_, n, t) = s.pick(cases);
            let v = gen(s, t, k);
            Val::Variant(n, Some(Box::new(v)))
        }
        Ty::Fixed(e, n) => Val::Seq((0..*n).map(|_| gen(s, e, k)).collect()),
        Ty::Struct { fields, .. } => Val::Map(fields.iter().map(|(n, t)| (*n, gen(s, t, k))).collect()),
        Ty::Unit => Val::Unit,
    }
}

/// A whole file's value (without the outer Ssbh/version variants for MeshEx and Adj).
pub fn gen_file(s: &mut Src, kind: Kind, k: &mut Knobs) -> Val {
    if s.large {
        s.large = false;
        let v = crate::dgen::giant_file(s, kind, k).0;
        s.large = true;
        return v;
    }
    match kind {
        Kind::Ssbh(f, v) => {
            let body = gen(s, v.body, k);
            Val::Variant(f.name, Some(Box::new(Val::Variant(v.name, Some(Box::new(body))))))
        }
        Kind::MeshEx => {
            let sc = schema();
            let all = opt(s, |s| gen(s, sc.types["AllData"], k));
            let groups = opt(s, |s| {
                let n = s.len(3, 7);
                Val::Seq((0..n).map(|_| gen(s, sc.types["MeshObjectGroup"], k)).collect())
            });
            let n = if s.chance(1, 8) { 0 } else { s.len(3, 20) };
            let entries = if n == 0 && s.chance(1, 2) {
                Val::None
            } else {
                Val::Some(Box::new(Val::Seq((0..n).map(|_| gen(s, sc.types["MeshEntry"], k)).collect())))
            };
            static BITS: Ty = Ty::Bits(2);
            let flags = if n == 0 && s.chance(1, 2) {
                Val::None
            } else {
                Val::Some(Box::new(Val::Seq((0..n).map(|_| gen(s, &BITS, k)).collect())))
            };
            let unk1 = Val::U(int(s, 4));
            Val::Map(vec![
                ("all_data", all),
                ("mesh_object_groups", groups),
                ("entries", entries),
                ("entry_flags", flags),
                ("unk1", unk1),
            ])
        }
        Kind::Adj => {
            let sc = schema();
            let n = s.len(3, 30);
            let entries = Val::Seq((0..n).map(|_| gen(s, sc.types["AdjEntry"], k)).collect());
            let m = s.len(8, 90);
            let idx = Val::Seq((0..m).map(|_| Val::I(int(s, 2) as u16 as i16 as i64)).collect());
            Val::Map(vec![("entries", entries), ("index_buffer", idx)])
        }
    }
}

pub fn pick_kind(s: &mut Src) -> Kind {
    *s.pick(kinds())
}
