//! Independent model of the metadata inside a shader binary, and an encoder that lays it out.
use crate::engine::Src;
use crate::gen::*;
use crate::refcodec::Region;
use crate::val::Val;

pub const HEADER: usize = 288;
pub const CODE_LENGTH: usize = 2504;
pub const CODE: usize = 2896;

pub const TYPES: [(u32, &str); 15] = [
    (0, "Boolean"),
    (4, "Int"),
    (7, "Unk7"),
    (20, "UnsignedInt"),
    (22, "UVec3"),
    (36, "Float"),
    (37, "Vector2"),
    (38, "Vector3"),
    (39, "Vector4"),
    (50, "Matrix4x4"),
    (67, "Sampler2d"),
    (68, "Sampler3d"),
    (69, "SamplerCube"),
    (73, "Sampler2dArray"),
    (103, "Image2d"),
];

#[derive(Clone, Debug)]
struct Entry {
    name: Vec<u8>,
    /// the stored length is 0 instead of 1 for an empty name
    no_terminator: bool,
    ty: usize,
    /// the fields after the name (and type)
    nums: Vec<u32>,
}

pub struct Shader {
    pub bytes: Vec<u8>,
    /// what MetaData shows
    pub meta: Val,
    pub code: Vec<u8>,
    pub sites: Vec<Region>,
    /// cutting the bytes anywhere before this loses something that is referred to
    pub needed: usize,
    /// positions of the data type codes
    pub types: Vec<usize>,
    pub counts: [usize; 4],
}

fn i32_val(x: u32) -> Val {
    Val::I(x as i32 as i64)
}

struct Space {
    /// free ranges
    free: Vec<(usize, usize)>,
    end: usize,
}

impl Space {
    fn take(&mut self, s: &mut Src, n: usize) -> usize {
        let fits: Vec<usize> = (0..self.free.len()).filter(|i| self.free[*i].1 - self.free[*i].0 >= n).collect();
        if n > 0 && !fits.is_empty() && s.chance(1, 2) {
            let i = *s.pick(&fits);
            let (a, b) = self.free.swap_remove(i);
            let at = a + s.usize(b - a - n + 1);
            for r in [(a, at), (at + n, b)] {
                if r.1 > r.0 {
                    self.free.push(r);
                }
            }
            return at;
        }
        let at = self.end + if s.chance(1, 2) { s.below(40) as usize } else { 0 };
        self.end = at + n;
        at
    }
}

fn word(s: &mut Src) -> u32 {
    match s.weighted(&[3, 1]) {
        0 => s.below(300) as u32,
        _ => int(s, 4) as u32,
    }
}

pub fn shader(s: &mut Src) -> Shader {
    let max = *s.pick(&[2u64, 4, 12]);
    let utf8 = s.chance(7, 8);
    let entries: Vec<Vec<Entry>> = (0..4)
        .map(|t| {
            let n = s.below(max + 1);
            (0..n)
                .map(|_| {
                    let name = text(s, utf8);
                    let no_terminator = name.is_empty() && s.chance(1, 2);
                    let ty = s.usize(TYPES.len());
                    let nums = (0..[9, 15, 4, 4][t]).map(|_| word(s)).collect();
                    Entry { no_terminator, name, ty, nums }
                })
                .collect()
        })
        .collect();
    let code: Vec<u8> = {
        let max = if s.chance(1, 4) { 400 } else { 20 };
        let n = s.below(max);
        (0..n).map(|_| s.below(256) as u8).collect()
    };
    let header_len = 12 + 32 + 4 * 8 + 8 * 4;
    let mut space =
        Space { free: vec![(0, HEADER), (HEADER + header_len, CODE_LENGTH), (CODE_LENGTH + 4, CODE)], end: CODE + code.len() };
    // Trailing padding of the last element may be missing.
    let full = [108usize, 164, 92, 92];
    let used = [8 + 32 + 36, 8 + 32 + 4 + 60, 8 + 32 + 20, 8 + 32 + 20];
    let mut tables = [0usize; 4];
    for t in 0..4 {
        let n = entries[t].len();
        tables[t] = space.take(s, n * full[t]);
    }
    // the names
    let mut places: Vec<Vec<usize>> = vec![];
    let packed = s.chance(1, 2);
    if packed {
        let total: usize = entries.iter().flatten().map(|e| e.name.len() + 1).sum();
        let mut at = space.take(s, total);
        for t in &entries {
            let mut p = vec![];
            for e in t {
                p.push(at);
                at += e.name.len() + 1;
            }
            places.push(p);
        }
    } else {
        let mut seen: Vec<(Vec<u8>, usize)> = vec![];
        for t in &entries {
            let mut p = vec![];
            for e in t {
                // names may be shared, also as the end of another one
                let hit: Vec<usize> =
                    seen.iter().filter(|(n, _)| n.ends_with(&e.name)).map(|(n, a)| a + n.len() - e.name.len()).collect();
                if !hit.is_empty() && s.chance(1, 2) {
                    let at = *s.pick(&hit);
                    p.push(at);
                } else {
                    let at = space.take(s, e.name.len() + 1);
                    seen.push((e.name.clone(), at));
                    p.push(at);
                }
            }
            places.push(p);
        }
    }
    let lowest_string = places.iter().flatten().copied().min().unwrap_or(0);
    let lowest = tables.iter().copied().min().unwrap().min(lowest_string);
    let entry_offset = match s.weighted(&[2, 1, 1]) {
        0 => lowest,
        1 => 0,
        _ => s.usize(lowest + 1),
    };
    let strings = match s.weighted(&[2, 1]) {
        0 => lowest_string,
        _ => entry_offset + s.usize(lowest_string - entry_offset + 1),
    };
    let fill = *s.pick(&[0u8, 0xff, 0x5a]);
    let mut b = vec![fill; space.end];
    let mut sites = vec![];
    let mut types = vec![];
    let mut needed = if code.is_empty() { CODE_LENGTH + 4 } else { CODE + code.len() };
    let mut put = |b: &mut Vec<u8>, at: usize, v: u32| {
        b[at..at + 4].copy_from_slice(&v.to_le_bytes());
        sites.push(Region { at: at as u64, len: 4, what: "number" });
    };
    b[CODE..CODE + code.len()].copy_from_slice(&code);
    put(&mut b, CODE_LENGTH, code.len() as u32);
    put(&mut b, HEADER, s.below(5000) as u32);
    put(&mut b, HEADER + 4, entry_offset as u32);
    put(&mut b, HEADER + 8, s.below(3) as u32);
    for t in 0..4 {
        put(&mut b, HEADER + 44 + 8 * t, entries[t].len() as u32);
        put(&mut b, HEADER + 48 + 8 * t, (tables[t] - entry_offset) as u32);
    }
    for i in 0..7 {
        put(&mut b, HEADER + 76 + 4 * i, s.below(300) as u32);
    }
    put(&mut b, HEADER + 104, (strings - entry_offset) as u32);
    for t in 0..4 {
        for (i, e) in entries[t].iter().enumerate() {
            let at = tables[t] + i * full[t];
            needed = needed.max(at + used[t]);
            let p = places[t][i];
            b[p..p + e.name.len()].copy_from_slice(&e.name);
            b[p + e.name.len()] = 0;
            if !e.name.is_empty() {
                needed = needed.max(p + e.name.len());
            }
            put(&mut b, at, (p - strings) as u32);
            put(&mut b, at + 4, if e.no_terminator { 0 } else { e.name.len() as u32 + 1 });
            let mut q = at + 40;
            if t > 0 {
                types.push(q);
                put(&mut b, q, TYPES[e.ty].0);
                q += 4;
            }
            for n in &e.nums {
                put(&mut b, q, *n);
                q += 4;
            }
        }
    }
    let text = |e: &Entry| Val::Str(String::from_utf8_lossy(&e.name).into_owned().into_bytes());
    let ty = |e: &Entry| Val::Variant(TYPES[e.ty].1, None);
    let attribute = |e: &Entry| {
        Val::Map(vec![("name", text(e)), ("data_type", ty(e)), ("location", i32_val(e.nums[1]))])
    };
    let meta = Val::Map(vec![
        (
            "buffers",
            Val::Seq(
                entries[0]
                    .iter()
                    .map(|e| {
                        Val::Map(vec![
                            ("name", text(e)),
                            ("used_size_in_bytes", Val::U(e.nums[0] as u64)),
                            ("uniform_count", Val::U(e.nums[1] as u64)),
                            ("unk4", i32_val(e.nums[2])),
                            ("unk5", i32_val(e.nums[3])),
                            ("unk6", i32_val(e.nums[4])),
                            ("unk7", i32_val(e.nums[5])),
                        ])
                    })
                    .collect(),
            ),
        ),
        (
            "uniforms",
            Val::Seq(
                entries[1]
                    .iter()
                    .map(|e| {
                        Val::Map(vec![
                            ("name", text(e)),
                            ("data_type", ty(e)),
                            ("buffer_index", i32_val(e.nums[0])),
                            ("uniform_buffer_offset", i32_val(e.nums[1])),
                            ("unk11", i32_val(e.nums[8])),
                        ])
                    })
                    .collect(),
            ),
        ),
        ("inputs", Val::Seq(entries[2].iter().map(attribute).collect())),
        ("outputs", Val::Seq(entries[3].iter().map(attribute).collect())),
    ]);
    let counts = [entries[0].len(), entries[1].len(), entries[2].len(), entries[3].len()];
    Shader { bytes: b, meta, code, sites, needed, types, counts }
}

/// Reads the metadata and the code of any bytes by the layout alone; None where something stored lies outside of them or is
/// undefined.
pub fn ref_shader(b: &[u8]) -> Option<(Val, Vec<u8>)> {
    let bytes = |at: u64, n: u64| -> Option<&[u8]> {
        if n == 0 {
            return Some(&[]);
        }
        let end = at.checked_add(n)?;
        if end > b.len() as u64 {
            return None;
        }
        Some(&b[at as usize..end as usize])
    };
    let word = |at: u64| -> Option<u32> { Some(u32::from_le_bytes(bytes(at, 4)?.try_into().unwrap())) };
    let h = HEADER as u64;
    let entries = word(h + 4)? as u64;
    // the last word of the header
    let strings = entries + word(h + 104)? as u64;
    let code_length = word(CODE_LENGTH as u64)? as u64;
    let code = bytes(CODE as u64, code_length)?.to_vec();
    let full = [108u64, 164, 92, 92];
    // the typed tables: where the shown numbers are
    let mut tables = vec![];
    for t in 0..4u64 {
        let count = word(h + 44 + 8 * t)? as u64;
        let at = entries + word(h + 48 + 8 * t)? as u64;
        let mut list = vec![];
        for i in 0..count {
            let e = at + i * full[t as usize];
            // all fields have to be there
            let fields = [36, 64, 20, 20][t as usize];
            bytes(e, 40 + fields)?;
            let (offset, length) = (word(e)? as u64, word(e + 4)? as u64);
            let name = String::from_utf8_lossy(bytes(strings + offset, length.saturating_sub(1))?).into_owned();
            let name = Val::Str(name.into_bytes());
            let signed = |k: u64| -> Option<Val> { Some(i32_val(word(e + 40 + 4 * k)?)) };
            let ty = || -> Option<Val> {
                let code = word(e + 40)?;
                Some(Val::Variant(TYPES.iter().find(|t| t.0 == code)?.1, None))
            };
            list.push(Val::Map(match t {
                0 => vec![
                    ("name", name),
                    ("used_size_in_bytes", Val::U(word(e + 40)? as u64)),
                    ("uniform_count", Val::U(word(e + 44)? as u64)),
                    ("unk4", signed(2)?),
                    ("unk5", signed(3)?),
                    ("unk6", signed(4)?),
                    ("unk7", signed(5)?),
                ],
                1 => vec![
                    ("name", name),
                    ("data_type", ty()?),
                    ("buffer_index", signed(1)?),
                    ("uniform_buffer_offset", signed(2)?),
                    ("unk11", signed(9)?),
                ],
                _ => vec![("name", name), ("data_type", ty()?), ("location", signed(2)?)],
            }));
        }
        tables.push(Val::Seq(list));
    }
    let names = ["buffers", "uniforms", "inputs", "outputs"];
    Some((Val::Map(names.into_iter().zip(tables).collect()), code))
}
