//! Reference codec: an independent writer (canonical and scattered layouts) and reader for
//! value trees, following ssbh_offsets.md and schema.txt. It shares no code with the library.
use crate::engine::{splitmix, Src};
use crate::schema::*;
use crate::val::Val;
use std::collections::HashMap;

fn up(v: u64, a: u64) -> u64 {
    v.div_ceil(a) * a
}

fn int_bytes(v: &Val, w: usize) -> Vec<u8> {
    match v {
        Val::U(x) => x.to_le_bytes()[..w].to_vec(),
        Val::I(x) => x.to_le_bytes()[..w].to_vec(),
        o => panic!("not a number: {o:?}"),
    }
}

pub fn enum_code(vars: &[(&'static str, u64)], v: &Val) -> u64 {
    match v {
        Val::Variant(n, None) => vars.iter().find(|x| x.0 == *n).unwrap_or_else(|| panic!("no variant {n}")).1,
        o => panic!("not an enum: {o:?}"),
    }
}

fn seq(v: &Val) -> &[Val] {
    match v {
        Val::Seq(x) => x,
        o => panic!("not a sequence: {o:?}"),
    }
}

/// Bytes without pointers inside.
fn flat(t: T, v: &Val) -> Option<Vec<u8>> {
    Some(match (t, v) {
        (Ty::Int { w, .. }, v) => int_bytes(v, *w),
        (Ty::F32, Val::F(x)) => x.to_le_bytes().to_vec(),
        (Ty::Enum { w, vars, .. }, v) => enum_code(vars, v).to_le_bytes()[..*w].to_vec(),
        (Ty::Bits(_), v) => seq(v.field("bytes")).iter().flat_map(|x| int_bytes(x, 1)).collect(),
        (Ty::CStr(n), Val::Str(s)) => cstr(s, *n),
        (Ty::Unit, _) => vec![],
        _ => return None,
    })
}

fn cstr(s: &[u8], n: u64) -> Vec<u8> {
    if s.is_empty() {
        vec![0; n as usize]
    } else {
        let mut b = s.to_vec();
        b.push(0);
        b
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Region {
    pub at: u64,
    pub len: u64,
    pub what: &'static str,
}

// ---------------------------------------------------------------- canonical writer

#[derive(Default)]
pub struct Canon {
    pub buf: Vec<u8>,
    pub dp: u64,
}

impl Canon {
    fn put(&mut self, at: u64, b: &[u8]) {
        let end = at as usize + b.len();
        if self.buf.len() < end {
            self.buf.resize(end, 0);
        }
        self.buf[at as usize..end].copy_from_slice(b);
    }
    fn past(&mut self, end: u64) {
        self.dp = self.dp.max(end);
    }
    fn target(&mut self, align: u64, at: u64, absolute: bool) -> u64 {
        self.dp = up(self.dp, align);
        let t = self.dp;
        self.put(at, &(if absolute { t } else { t - at }).to_le_bytes());
        t
    }
    fn finish_target(&mut self, end: u64, align: u64) {
        if end > self.dp {
            self.dp = up(end, align);
        }
    }
    /// Write `v` at `at`; returns the end of its own bytes.
    fn emit(&mut self, t: T, v: &Val, at: u64) -> u64 {
        if let Some(b) = flat(t, v) {
            if !b.is_empty() {
                self.put(at, &b);
            }
            return at + b.len() as u64;
        }
        match (t, v) {
            (Ty::Struct { fields, pad, .. }, Val::Map(m)) => {
                self.past(at + t.size());
                let mut p = at;
                for ((n, ft), (vn, fv)) in fields.iter().zip(m) {
                    assert_eq!(n, vn);
                    p = self.emit(ft, fv, p);
                }
                self.put(p, &vec![0; *pad]);
                p + *pad as u64
            }
            (Ty::Fixed(e, _), Val::Seq(x)) => {
                let mut p = at;
                for v in x {
                    p = self.emit(e, v, p);
                }
                p
            }
            (Ty::Str(n), v) => {
                match v {
                    Val::None => self.put(at, &[0; 8]),
                    Val::Some(s) => {
                        let Val::Str(s) = &**s else { panic!() };
                        let p = self.target(*n, at, false);
                        let b = cstr(s, *n);
                        self.put(p, &b);
                        self.finish_target(p + b.len() as u64, *n);
                    }
                    o => panic!("{o:?}"),
                }
                at + 8
            }
            (Ty::Rel(a, e) | Ty::Abs(a, e), v) => {
                match v {
                    Val::None => self.put(at, &[0; 8]),
                    Val::Some(x) => {
                        let p = self.target(*a, at, matches!(t, Ty::Abs(..)));
                        if let (Ty::Vec(_), Val::Seq(s)) = (e, &**x) {
                            let end = self.elements(e, s, p);
                            self.finish_target(end, *a);
                        } else {
                            if !matches!(e, Ty::CStr(_)) {
                                if matches!(e, Ty::Struct { .. } | Ty::Str(_) | Ty::Rel(..)) {
                                    self.past(p + e.size());
                                }
                            }
                            let end = self.emit(e, x, p);
                            self.finish_target(end, *a);
                        }
                    }
                    o => panic!("{o:?}"),
                }
                at + 8
            }
            (Ty::Tag(e), v) => {
                let Ty::Tagged { cases, .. } = e else { panic!() };
                match v.field("data") {
                    Val::None => self.put(at, &[0; 16]),
                    Val::Some(x) => {
                        let Val::Variant(n, Some(x)) = &**x else { panic!() };
                        let (tag, _, ct) = cases.iter().find(|c| c.1 == *n).unwrap();
                        let p = self.target(8, at, false);
                        self.put(at + 8, &tag.to_le_bytes());
                        if !matches!(ct, Ty::Unit | Ty::CStr(_)) {
                            self.past(p + ct.size());
                        }
                        let end = self.emit(ct, x, p);
                        self.finish_target(end, 8);
                    }
                    o => panic!("{o:?}"),
                }
                at + 16
            }
            (Ty::Arr(e), Val::Seq(x)) => {
                self.dp = up(self.dp, 8);
                let p = self.dp;
                let off = if x.is_empty() { 0 } else { p - at };
                self.put(at, &off.to_le_bytes());
                self.put(at + 8, &(x.len() as u64).to_le_bytes());
                self.elements(e, x, p);
                at + 16
            }
            (Ty::Bytes, Val::Bytes(x)) => {
                self.dp = up(self.dp, 8);
                let p = self.dp;
                let off = if x.is_empty() { 0 } else { p - at };
                self.put(at, &off.to_le_bytes());
                self.put(at + 8, &(x.len() as u64).to_le_bytes());
                // a byte buffer reserves its aligned position even when empty
                self.put(p, x);
                self.dp = p + x.len() as u64;
                at + 16
            }
            (t, v) => panic!("type {t:?} does not fit {v:?}"),
        }
    }
    fn elements(&mut self, e: T, x: &[Val], at: u64) -> u64 {
        let e = if let Ty::Vec(e) = e { e } else { e };
        if x.is_empty() {
            return at;
        }
        self.past(at + x.len() as u64 * e.size());
        let mut p = at;
        for v in x {
            p = self.emit(e, v, p);
        }
        p
    }
}

fn unwrap_file<'a>(kind: Kind, v: &'a Val) -> &'a Val {
    match (kind, v) {
        (Kind::Ssbh(f, ver), Val::Variant(n, Some(x))) => {
            assert_eq!(*n, f.name);
            let Val::Variant(m, Some(x)) = &**x else { panic!() };
            assert_eq!(*m, ver.name);
            x
        }
        (_, v) => v,
    }
}

struct MeshExTys {
    all: Ty,
    groups: Ty,
    entries: Ty,
    flags: Ty,
}
fn meshex_tys() -> &'static MeshExTys {
    static M: std::sync::OnceLock<MeshExTys> = std::sync::OnceLock::new();
    static BITS: Ty = Ty::Bits(2);
    M.get_or_init(|| {
        let s = schema();
        let vec = |t| -> T { Box::leak(Box::new(Ty::Vec(t))) };
        MeshExTys {
            all: Ty::Abs(16, s.types["AllData"]),
            groups: Ty::Abs(16, vec(s.types["MeshObjectGroup"])),
            entries: Ty::Abs(16, vec(s.types["MeshEntry"])),
            flags: Ty::Abs(16, vec(&BITS)),
        }
    })
}

fn opt_len(v: &Val) -> usize {
    match v {
        Val::None => 0,
        Val::Some(x) => seq(x).len(),
        _ => panic!(),
    }
}

/// The bytes the format prescribes for a value.
pub fn canonical(kind: Kind, v: &Val) -> Vec<u8> {
    let body = unwrap_file(kind, v);
    let mut c = Canon::default();
    match kind {
        Kind::Ssbh(f, ver) => {
            c.put(0, b"HBSS");
            c.put(4, &64u64.to_le_bytes());
            c.put(12, &0u32.to_le_bytes());
            c.put(16, &f.magic);
            c.put(20, &ver.major.to_le_bytes());
            c.put(22, &ver.minor.to_le_bytes());
            c.dp = 24 + ver.body.size() + ver.padfile as u64;
            let end = c.emit(ver.body, body, 24);
            c.put(end, &vec![0; ver.padfile]);
            let n = up(c.buf.len() as u64, ver.alignfile);
            c.buf.resize(n as usize, 0);
        }
        Kind::MeshEx => {
            let m = meshex_tys();
            c.dp = 64;
            c.put(0, &[0; 8]);
            c.put(8, &(opt_len(body.field("entries")) as u32).to_le_bytes());
            c.put(12, &(opt_len(body.field("mesh_object_groups")) as u32).to_le_bytes());
            c.emit(&m.all, body.field("all_data"), 16);
            c.emit(&m.groups, body.field("mesh_object_groups"), 24);
            c.emit(&m.entries, body.field("entries"), 32);
            c.emit(&m.flags, body.field("entry_flags"), 40);
            c.put(48, &int_bytes(body.field("unk1"), 4));
            let n = up(c.buf.len() as u64, 16);
            c.buf.resize(n as usize, 0);
            c.put(0, &n.to_le_bytes());
        }
        Kind::Adj => {
            let e = seq(body.field("entries"));
            c.put(0, &(e.len() as u32).to_le_bytes());
            let mut p = 4;
            for x in e {
                p = c.emit(schema().types["AdjEntry"], x, p);
            }
            for x in seq(body.field("index_buffer")) {
                c.put(p, &int_bytes(x, 2));
                p += 2;
            }
        }
    }
    c.buf
}

/// Bytes the canonical emission of a single type at offset `at` (base data pointer after it).
pub fn canonical_type(t: T, v: &Val) -> Vec<u8> {
    let mut c = Canon { buf: vec![], dp: t.size() };
    c.emit(t, v, 0);
    c.buf
}

// ---------------------------------------------------------------- scattered writer

struct Job<'a> {
    at: u64,
    what: Target<'a>,
}
enum Target<'a> {
    Text(&'a [u8]),
    /// elements of a type one after another (also a single pointed-to value)
    Elems(T, &'a [Val], bool),
    Raw(&'a [u8]),
}

struct Scatter<'a, 's> {
    buf: Vec<u8>,
    jobs: Vec<Job<'a>>,
    texts: Vec<(u64, &'a [u8])>,
    placed: HashMap<(usize, &'a [Val]), Vec<u64>>,
    noise: u64,
    s: &'s mut Src,
    shared: usize,
    reordered: usize,
    gaps: usize,
}

impl<'a> Scatter<'a, '_> {
    fn noise(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| splitmix(&mut self.noise) as u8).collect()
    }
    fn inline(&mut self, t: T, v: &'a Val, at: u64) -> u64 {
        let put = |b: &mut Vec<u8>, at: u64, x: &[u8]| b[at as usize..at as usize + x.len()].copy_from_slice(x);
        if let Some(b) = flat(t, v) {
            put(&mut self.buf, at, &b);
            return at + b.len() as u64;
        }
        match (t, v) {
            (Ty::Struct { fields, pad, .. }, Val::Map(m)) => {
                let mut p = at;
                for ((_, ft), (_, fv)) in fields.iter().zip(m) {
                    p = self.inline(ft, fv, p);
                }
                let n = self.noise(*pad);
                put(&mut self.buf, p, &n);
                p + *pad as u64
            }
            (Ty::Fixed(e, _), Val::Seq(x)) => {
                let mut p = at;
                for v in x {
                    p = self.inline(e, v, p);
                }
                p
            }
            (Ty::Str(_), v) => {
                put(&mut self.buf, at, &[0; 8]);
                if let Val::Some(x) = v {
                    let Val::Str(x) = &**x else { panic!() };
                    self.jobs.push(Job { at, what: Target::Text(x) });
                }
                at + 8
            }
            (Ty::Rel(_, e) | Ty::Abs(_, e), v) => {
                put(&mut self.buf, at, &[0; 8]);
                let abs = matches!(t, Ty::Abs(..));
                if let Val::Some(x) = v {
                    let what = match (e, &**x) {
                        (Ty::CStr(_), Val::Str(x)) => {
                            // absolute text pointer
                            self.jobs.push(Job { at: at | (1 << 63), what: Target::Text(x) });
                            return at + 8;
                        }
                        (Ty::Vec(e), Val::Seq(x)) => Target::Elems(e, x, abs),
                        (e, x) => Target::Elems(e, std::slice::from_ref(x), abs),
                    };
                    self.jobs.push(Job { at, what });
                }
                at + 8
            }
            (Ty::Tag(e), v) => {
                let Ty::Tagged { cases, .. } = e else { panic!() };
                match v.field("data") {
                    Val::Some(x) => {
                        let Val::Variant(n, Some(x)) = &**x else { panic!() };
                        let (tag, _, ct) = cases.iter().find(|c| c.1 == *n).unwrap();
                        put(&mut self.buf, at + 8, &tag.to_le_bytes());
                        self.jobs.push(Job { at, what: Target::Elems(ct, std::slice::from_ref(&**x), false) });
                    }
                    _ => {
                        // the case number of a null pointer is unused
                        put(&mut self.buf, at, &[0; 8]);
                        let n = self.noise(8);
                        put(&mut self.buf, at + 8, &n);
                    }
                }
                at + 16
            }
            (Ty::Arr(_) | Ty::Bytes, v) => {
                let n = match v {
                    Val::Seq(x) => x.len(),
                    Val::Bytes(x) => x.len(),
                    _ => panic!(),
                };
                put(&mut self.buf, at + 8, &(n as u64).to_le_bytes());
                if n == 0 {
                    // any offset is as good as another
                    let o = *self.s.pick(&[0u64, 8, 16, 1, 0x1000, 0xffff_ffff, 1 << 40]);
                    put(&mut self.buf, at, &o.to_le_bytes());
                } else {
                    match (t, v) {
                        (Ty::Arr(e), Val::Seq(x)) => {
                            self.jobs.push(Job { at, what: Target::Elems(e, x, false) })
                        }
                        (_, Val::Bytes(x)) => self.jobs.push(Job { at, what: Target::Raw(x) }),
                        _ => unreachable!(),
                    }
                }
                at + 16
            }
            (t, v) => panic!("type {t:?} does not fit {v:?}"),
        }
    }
    fn alloc(&mut self, n: usize) -> u64 {
        let gap = if self.s.chance(1, 2) { self.s.usize(24) } else { 0 };
        self.gaps += (gap > 0) as usize;
        let g = self.noise(gap);
        self.buf.extend_from_slice(&g);
        let p = self.buf.len();
        self.buf.resize(p + n, 0);
        p as u64
    }
    fn run(&mut self) {
        let mut order = 0;
        while !self.jobs.is_empty() {
            let i = match order {
                0 => self.s.usize(self.jobs.len()),
                _ => self.jobs.len() - 1,
            };
            if self.jobs.len() > 200 {
                order = 1;
            }
            if i != 0 {
                self.reordered += 1;
            }
            let job = self.jobs.swap_remove(i);
            let abs = job.at >> 63 == 1;
            let at = job.at & !(1 << 63);
            let share = self.s.chance(1, 2);
            let (pos, abs) = match job.what {
                Target::Text(x) => {
                    let hit = self
                        .texts
                        .iter()
                        .rev()
                        .take(100)
                        .find(|(p, y)| y.ends_with(x) && (abs || p + (y.len() - x.len()) as u64 > at))
                        .map(|(p, y)| p + (y.len() - x.len()) as u64);
                    match hit {
                        Some(p) if share => {
                            self.shared += 1;
                            (p, abs)
                        }
                        _ => {
                            let p = self.alloc(x.len() + 1);
                            self.buf[p as usize..p as usize + x.len()].copy_from_slice(x);
                            self.texts.push((p, x));
                            (p, abs)
                        }
                    }
                }
                Target::Raw(x) => {
                    let p = self.alloc(x.len());
                    self.buf[p as usize..p as usize + x.len()].copy_from_slice(x);
                    (p, false)
                }
                Target::Elems(e, x, abs) => {
                    let key = (e as *const Ty as usize, x);
                    let hit = self.placed.get(&key).and_then(|l| l.iter().rev().take(100).find(|p| abs || **p > at).copied());
                    match hit {
                        Some(p) if share => {
                            self.shared += 1;
                            (p, abs)
                        }
                        _ => {
                            let size: u64 = if x.is_empty() { 0 } else { e.size() * x.len() as u64 };
                            let p = self.alloc(size as usize);
                            self.placed.entry(key).or_default().push(p);
                            let mut q = p;
                            for v in x {
                                q = self.inline(e, v, q);
                            }
                            (p, abs)
                        }
                    }
                }
            };
            let val = if abs { pos } else { pos - at };
            // A zero-size target may sit at the pointer itself only for absolute pointers; never 0.
            assert!(val != 0);
            self.buf[at as usize..at as usize + 8].copy_from_slice(&val.to_le_bytes());
        }
    }
}

pub struct Scattered {
    pub bytes: Vec<u8>,
    pub shared: usize,
    pub reordered: usize,
    pub gaps: usize,
}

/// A file encoding `v` with its data placed anywhere and garbage in unused bytes.
pub fn scattered(s: &mut Src, kind: Kind, v: &Val) -> Scattered {
    let body = unwrap_file(kind, v);
    let noise = s.u64();
    let mut c = Scatter {
        buf: vec![],
        jobs: vec![],
        texts: vec![],
        placed: HashMap::new(),
        noise,
        s,
        shared: 0,
        reordered: 0,
        gaps: 0,
    };
    match kind {
        Kind::Ssbh(f, ver) => {
            c.buf.extend_from_slice(b"HBSS");
            let n = c.noise(12);
            c.buf.extend_from_slice(&n);
            c.buf.extend_from_slice(&f.magic);
            c.buf.extend_from_slice(&ver.major.to_le_bytes());
            c.buf.extend_from_slice(&ver.minor.to_le_bytes());
            c.buf.resize(24 + ver.body.size() as usize, 0);
            c.inline(ver.body, body, 24);
            c.run();
            if c.s.chance(1, 2) {
                let k = c.s.usize(20);
                let n = c.noise(k);
                c.buf.extend_from_slice(&n);
            }
        }
        Kind::MeshEx => {
            let m = meshex_tys();
            let n = c.noise(8);
            c.buf.extend_from_slice(&n);
            c.buf.extend_from_slice(&(opt_len(body.field("entries")) as u32).to_le_bytes());
            c.buf.extend_from_slice(&(opt_len(body.field("mesh_object_groups")) as u32).to_le_bytes());
            c.buf.resize(52, 0);
            c.inline(&m.all, body.field("all_data"), 16);
            c.inline(&m.groups, body.field("mesh_object_groups"), 24);
            c.inline(&m.entries, body.field("entries"), 32);
            c.inline(&m.flags, body.field("entry_flags"), 40);
            let u = int_bytes(body.field("unk1"), 4);
            c.buf[48..52].copy_from_slice(&u);
            c.run();
            if c.s.chance(1, 2) {
                let k = c.s.usize(20);
                let n = c.noise(k);
                c.buf.extend_from_slice(&n);
            }
        }
        Kind::Adj => {
            c.buf = canonical(kind, v);
            // a dangling odd byte is not an index
            if c.s.chance(1, 2) {
                let n = c.noise(1);
                c.buf.extend_from_slice(&n);
                c.gaps = 1;
            }
        }
    }
    Scattered { bytes: c.buf, shared: c.shared, reordered: c.reordered, gaps: c.gaps }
}

// ---------------------------------------------------------------- reader

#[derive(Debug, Clone, PartialEq)]
pub enum RefErr {
    /// Not a valid file
    Bad(String),
    /// Too much work to decide
    Budget,
}

pub struct Parser<'a> {
    b: &'a [u8],
    /// first byte after everything that was needed
    pub needed: u64,
    budget: i64,
    /// places of enumeration codes, tags, offsets and counts, for targeted corruption
    pub sites: Vec<Region>,
}

impl<'a> Parser<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Parser { b, needed: 0, budget: 400_000 + 4 * b.len() as i64, sites: vec![] }
    }
    fn get(&mut self, at: u64, n: u64) -> Result<&'a [u8], RefErr> {
        if n == 0 {
            return Ok(&[]);
        }
        let end = at.checked_add(n).ok_or(RefErr::Bad("position overflow".into()))?;
        if end > self.b.len() as u64 {
            return Err(RefErr::Bad(format!("needs byte {end} of {}", self.b.len())));
        }
        self.needed = self.needed.max(end);
        Ok(&self.b[at as usize..end as usize])
    }
    fn num(&mut self, at: u64, n: usize) -> Result<u64, RefErr> {
        let b = self.get(at, n as u64)?;
        let mut x = [0; 8];
        x[..n].copy_from_slice(b);
        Ok(u64::from_le_bytes(x))
    }
    fn text(&mut self, at: u64) -> Result<Val, RefErr> {
        let rest = self.b.get(at.min(self.b.len() as u64) as usize..).unwrap_or(&[]);
        match rest.iter().position(|b| *b == 0) {
            Some(n) => {
                self.budget -= n as i64;
                self.needed = self.needed.max(at + n as u64 + 1);
                Ok(Val::Str(rest[..n].to_vec()))
            }
            None => Err(RefErr::Bad("text without end".into())),
        }
    }
    fn site(&mut self, at: u64, len: u64, what: &'static str) {
        self.sites.push(Region { at, len, what });
    }
    fn rel(&mut self, at: u64) -> Result<Option<u64>, RefErr> {
        let o = self.num(at, 8)?;
        self.site(at, 8, "offset");
        if o == 0 {
            return Ok(None);
        }
        Ok(Some(at.checked_add(o).ok_or(RefErr::Bad("offset overflow".into()))?))
    }
    pub fn parse(&mut self, t: T, at: u64) -> Result<Val, RefErr> {
        self.budget -= 1;
        if self.budget < 0 {
            return Err(RefErr::Budget);
        }
        Ok(match t {
            Ty::Int { w, signed } => {
                let v = self.num(at, *w)?;
                if *signed {
                    let sh = 64 - 8 * *w as u32;
                    Val::I(((v << sh) as i64) >> sh)
                } else {
                    Val::U(v)
                }
            }
            Ty::F32 => Val::F(self.num(at, 4)? as u32),
            Ty::Enum { w, vars, .. } => {
                let c = self.num(at, *w)?;
                self.site(at, *w as u64, "enum");
                match vars.iter().find(|v| v.1 == c) {
                    Some(v) => Val::Variant(v.0, None),
                    None => return Err(RefErr::Bad(format!("enum code {c} at {at}"))),
                }
            }
            Ty::Bits(n) => {
                let b = self.get(at, *n as u64)?;
                Val::Map(vec![("bytes", Val::Seq(b.iter().map(|x| Val::U(*x as u64)).collect()))])
            }
            Ty::Str(_) => match self.rel(at)? {
                None => Val::None,
                Some(p) => Val::Some(Box::new(self.text(p)?)),
            },
            Ty::CStr(_) => self.text(at)?,
            Ty::Bytes => {
                let o = self.num(at, 8)?;
                let n = self.num(at + 8, 8)?;
                self.site(at, 8, "offset");
                self.site(at + 8, 8, "count");
                let p = at.checked_add(o).ok_or(RefErr::Bad("offset overflow".into()))?;
                self.budget -= (n.min(1 << 20) / 8) as i64;
                Val::Bytes(self.get(p, n)?.to_vec())
            }
            Ty::Arr(e) => {
                let o = self.num(at, 8)?;
                let n = self.num(at + 8, 8)?;
                self.site(at, 8, "offset");
                self.site(at + 8, 8, "count");
                let p = at.checked_add(o).ok_or(RefErr::Bad("offset overflow".into()))?;
                self.elems(e, p, n)?
            }
            Ty::Rel(_, e) => match self.rel(at)? {
                None => Val::None,
                Some(p) => Val::Some(Box::new(self.parse(e, p)?)),
            },
            Ty::Abs(_, e) => {
                let o = self.num(at, 8)?;
                self.site(at, 8, "offset");
                if o == 0 {
                    Val::None
                } else {
                    Val::Some(Box::new(self.parse(e, o)?))
                }
            }
            Ty::Tag(e) => {
                let Ty::Tagged { cases, .. } = e else { panic!() };
                let o = self.num(at, 8)?;
                let tag = self.num(at + 8, 8)?;
                self.site(at, 8, "offset");
                let data = if o == 0 {
                    Val::None
                } else {
                    self.site(at + 8, 8, "tag");
                    let p = at.checked_add(o).ok_or(RefErr::Bad("offset overflow".into()))?;
                    let Some((_, n, ct)) = cases.iter().find(|c| c.0 == tag) else {
                        return Err(RefErr::Bad(format!("case number {tag} at {at}")));
                    };
                    Val::Some(Box::new(Val::Variant(n, Some(Box::new(self.parse(ct, p)?)))))
                };
                Val::Map(vec![("data", data)])
            }
            Ty::Tagged { .. } | Ty::Vec(_) => panic!(),
            Ty::Fixed(e, n) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.parse(e, at + i as u64 * e.size())?);
                }
                Val::Seq(v)
            }
            Ty::Struct { fields, .. } => {
                let mut p = at;
                let mut m = vec![];
                for (n, ft) in fields {
                    m.push((*n, self.parse(ft, p)?));
                    p += ft.size();
                }
                Val::Map(m)
            }
            Ty::Unit => Val::Unit,
        })
    }
    fn elems(&mut self, e: T, p: u64, n: u64) -> Result<Val, RefErr> {
        let mut v = vec![];
        let mut q = p;
        for _ in 0..n {
            v.push(self.parse(e, q)?);
            q = q.checked_add(e.size()).ok_or(RefErr::Bad("position overflow".into()))?;
        }
        Ok(Val::Seq(v))
    }
    fn counted(&mut self, t: &'static Ty, at: u64, n: u64) -> Result<Val, RefErr> {
        let Ty::Abs(_, Ty::Vec(e)) = t else { panic!() };
        let o = self.num(at, 8)?;
        self.site(at, 8, "offset");
        if o == 0 {
            return Ok(Val::None);
        }
        Ok(Val::Some(Box::new(self.elems(e, o, n)?)))
    }
}

fn bad<X>(m: &str) -> Result<X, RefErr> {
    Err(RefErr::Bad(m.to_string()))
}

pub struct Parsed {
    pub kind: Kind,
    pub val: Val,
    pub needed: u64,
    pub sites: Vec<Region>,
}

/// Read an SSBH file of any type.
pub fn parse_ssbh(b: &[u8]) -> Result<Parsed, RefErr> {
    let mut p = Parser::new(b);
    if p.get(0, 4)? != b"HBSS" {
        return bad("header");
    }
    let magic: [u8; 4] = p.get(16, 4)?.try_into().unwrap();
    p.site(16, 4, "magic");
    let Some(f) = schema().formats.iter().find(|f| f.magic == magic) else { return bad("magic") };
    let major = p.num(20, 2)? as u16;
    let minor = p.num(22, 2)? as u16;
    p.site(20, 2, "version");
    p.site(22, 2, "version");
    let Some(ver) = f.vers.iter().find(|v| v.major == major && v.minor == minor) else { return bad("version") };
    let body = p.parse(ver.body, 24)?;
    let val = Val::Variant(f.name, Some(Box::new(Val::Variant(ver.name, Some(Box::new(body))))));
    Ok(Parsed { kind: Kind::Ssbh(f, ver), val, needed: p.needed, sites: p.sites })
}

pub fn parse_meshex(b: &[u8]) -> Result<Parsed, RefErr> {
    let m = meshex_tys();
    let mut p = Parser::new(b);
    p.num(0, 8)?;
    let ne = p.num(8, 4)?;
    let ng = p.num(12, 4)?;
    p.site(8, 4, "count");
    p.site(12, 4, "count");
    let all = p.parse(&m.all, 16)?;
    let groups = p.counted(&m.groups, 24, ng)?;
    let entries = p.counted(&m.entries, 32, ne)?;
    let flags = p.counted(&m.flags, 40, ne)?;
    let unk1 = Val::U(p.num(48, 4)?);
    let val = Val::Map(vec![
        ("all_data", all),
        ("mesh_object_groups", groups),
        ("entries", entries),
        ("entry_flags", flags),
        ("unk1", unk1),
    ]);
    Ok(Parsed { kind: Kind::MeshEx, val, needed: p.needed, sites: p.sites })
}

pub fn parse_adj(b: &[u8]) -> Result<Parsed, RefErr> {
    let mut p = Parser::new(b);
    let n = p.num(0, 4)?;
    p.site(0, 4, "count");
    let entries = p.elems(schema().types["AdjEntry"], 4, n)?;
    let start = 4 + 8 * n;
    let idx = b[start as usize..]
        .chunks_exact(2)
        .map(|c| Val::I(i16::from_le_bytes([c[0], c[1]]) as i64))
        .collect();
    Ok(Parsed {
        kind: Kind::Adj,
        val: Val::Map(vec![("entries", entries), ("index_buffer", Val::Seq(idx))]),
        needed: p.needed,
        sites: p.sites,
    })
}

pub fn parse_kind(kind: Kind, b: &[u8]) -> Result<Parsed, RefErr> {
    match kind {
        Kind::Ssbh(..) => parse_ssbh(b),
        Kind::MeshEx => parse_meshex(b),
        Kind::Adj => parse_adj(b),
    }
}

/// The value as it appears through serde: text that is not UTF-8 shows as empty.
pub fn lossy(v: &Val) -> Val {
    match v {
        Val::Str(s) if std::str::from_utf8(s).is_err() => Val::Str(vec![]),
        Val::Some(x) => Val::Some(Box::new(lossy(x))),
        Val::Seq(x) => Val::Seq(x.iter().map(lossy).collect()),
        Val::Map(x) => Val::Map(x.iter().map(|(k, v)| (*k, lossy(v))).collect()),
        Val::Variant(n, Some(x)) => Val::Variant(n, Some(Box::new(lossy(x)))),
        v => v.clone(),
    }
}
