//! Reference layout model for arbitrary types composed with the library's pointer types (C03).
//! `Gen` makes a random value of a type together with a `Node` describing its layout; `Emit`
//! lays a node out by the rules of ssbh_offsets.md without any of the library's code.
use crate::engine::*;
use crate::{ensure, fail};
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::Cursor;
use std::num::*;

#[derive(Debug, Clone, Hash)]
pub enum Node {
    Flat(Vec<u8>),
    Struct { magic: &'static [u8], parts: Vec<(Node, u64, u64)>, pad: u64, align_after: u64 },
    Rel(u64, Option<Box<Node>>),
    Abs(u32, u64, Option<Box<Node>>),
    Arr(Vec<Node>),
    Bytes(Vec<u8>),
    Text(u64, Vec<u8>),
    Tag(u64, Option<(u64, Box<Node>)>),
    Seq(Vec<Node>),
    Opt(Option<Box<Node>>),
}

impl Node {
    pub fn size(&self) -> u64 {
        match self {
            Node::Flat(b) => b.len() as u64,
            Node::Struct { magic, parts, pad, .. } => {
                magic.len() as u64 + parts.iter().map(|p| p.0.size() + p.1).sum::<u64>() + pad
            }
            Node::Rel(..) => 8,
            Node::Abs(w, ..) => *w as u64,
            Node::Arr(_) | Node::Bytes(_) | Node::Tag(..) => 16,
            // only used behind pointers
            Node::Text(_, b) => b.len() as u64,
            Node::Seq(v) => v.iter().map(|x| x.size()).sum(),
            Node::Opt(v) => v.as_ref().map(|x| x.size()).unwrap_or(0),
        }
    }
    /// pointers, arrays and texts inside
    pub fn links(&self) -> usize {
        match self {
            Node::Flat(_) | Node::Text(..) => 0,
            Node::Struct { parts, .. } => parts.iter().map(|p| p.0.links()).sum(),
            Node::Rel(_, v) | Node::Abs(_, _, v) => v.as_ref().map(|x| 1 + x.links()).unwrap_or(0),
            Node::Tag(_, v) => v.as_ref().map(|x| 1 + x.1.links()).unwrap_or(0),
            Node::Arr(v) => (!v.is_empty()) as usize + v.iter().map(|x| x.links()).sum::<usize>(),
            Node::Seq(v) => v.iter().map(|x| x.links()).sum(),
            Node::Bytes(b) => (!b.is_empty()) as usize,
            Node::Opt(v) => v.as_ref().map(|x| x.links()).unwrap_or(0),
        }
    }
}

pub struct Emit {
    pub buf: Vec<u8>,
    pub dp: u64,
    /// an absolute offset does not fit its width
    pub overflow: bool,
}

fn up(v: u64, a: u64) -> u64 {
    if a == 0 {
        v
    } else {
        v.div_ceil(a) * a
    }
}

impl Emit {
    fn put(&mut self, at: u64, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let end = at as usize + b.len();
        if self.buf.len() < end {
            self.buf.resize(end, 0);
        }
        self.buf[at as usize..end].copy_from_slice(b);
    }
    fn past(&mut self, end: u64) {
        self.dp = self.dp.max(end);
    }
    fn behind(&mut self, align: u64, n: &Node) -> u64 {
        self.dp = up(self.dp, align);
        let t = self.dp;
        let end = self.emit(n, t);
        if end > self.dp {
            self.dp = up(end, align);
        }
        t
    }
    pub fn emit(&mut self, n: &Node, at: u64) -> u64 {
        match n {
            Node::Flat(b) => {
                self.put(at, b);
                at + b.len() as u64
            }
            Node::Text(a, b) => {
                let t = if b.is_empty() { vec![0; *a as usize] } else { [b.as_slice(), &[0]].concat() };
                self.put(at, &t);
                at + t.len() as u64
            }
            Node::Struct { magic, parts, pad, align_after } => {
                self.past(at + n.size());
                self.put(at, magic);
                let mut p = at + magic.len() as u64;
                for (x, fp, fa) in parts {
                    p = self.emit(x, p);
                    self.put(p, &vec![0; *fp as usize]);
                    p += fp;
                    if *fa > 0 {
                        let e = up(self.buf.len() as u64, *fa);
                        self.buf.resize(e as usize, 0);
                        p = e;
                    }
                }
                self.put(p, &vec![0; *pad as usize]);
                p += pad;
                if *align_after > 0 {
                    let e = up(self.buf.len() as u64, *align_after);
                    self.buf.resize(e as usize, 0);
                    p = e;
                }
                p
            }
            Node::Rel(a, v) => {
                self.past(at + 8);
                let off = match v {
                    Some(x) => {
                        // reserve the pointer first so that the file is never shorter than it
                        self.put(at, &[0; 8]);
                        self.behind(*a, x) - at
                    }
                    None => 0,
                };
                self.put(at, &off.to_le_bytes());
                at + 8
            }
            Node::Abs(w, a, v) => {
                self.past(at + *w as u64);
                let off = match v {
                    Some(x) => {
                        self.put(at, &vec![0; *w as usize]);
                        self.behind(*a, x)
                    }
                    None => 0,
                };
                if *w < 8 && off >> (8 * w) != 0 {
                    self.overflow = true;
                }
                self.put(at, &off.to_le_bytes()[..*w as usize]);
                at + *w as u64
            }
            Node::Tag(a, v) => {
                self.past(at + 16);
                self.put(at, &[0; 8]);
                let (off, tag) = match v {
                    Some((t, x)) => (self.behind(*a, x) - at, *t),
                    None => (0, 0),
                };
                self.put(at, &off.to_le_bytes());
                self.put(at + 8, &tag.to_le_bytes());
                at + 16
            }
            Node::Arr(v) => {
                self.past(at + 16);
                self.dp = up(self.dp, 8);
                let p = self.dp;
                let off = if v.is_empty() { 0 } else { p - at };
                self.put(at, &off.to_le_bytes());
                self.put(at + 8, &(v.len() as u64).to_le_bytes());
                if !v.is_empty() {
                    self.past(p + v.iter().map(|x| x.size()).sum::<u64>());
                    let mut q = p;
                    for x in v {
                        q = self.emit(x, q);
                    }
                }
                at + 16
            }
            Node::Bytes(b) => {
                self.past(at + 16);
                self.dp = up(self.dp, 8);
                let p = self.dp;
                let off = if b.is_empty() { 0 } else { p - at };
                self.put(at, &off.to_le_bytes());
                self.put(at + 8, &(b.len() as u64).to_le_bytes());
                self.put(p, b);
                // an empty buffer keeps its aligned place
                if self.buf.len() < p as usize {
                    self.buf.resize(p as usize, 0);
                }
                self.dp = p + b.len() as u64;
                at + 16
            }
            Node::Seq(v) => {
                self.past(at + n.size());
                let mut p = at;
                for x in v {
                    p = self.emit(x, p);
                }
                p
            }
            Node::Opt(v) => match v {
                Some(x) => {
                    self.past(at + x.size());
                    self.emit(x, at)
                }
                None => at,
            },
        }
    }
}

pub trait Gen: SsbhWrite {
    fn gen(s: &mut Src, d: u32) -> (Self, Node);
    fn align() -> u64;
}

const DEEP: u32 = 9;

macro_rules! prim {
    ($($t:ident)*) => { $(
        impl Gen for $t {
            fn gen(s: &mut Src, _: u32) -> (Self, Node) {
                let v = crate::gen::int(s, 8) as $t;
                (v, Node::Flat(v.to_le_bytes().to_vec()))
            }
            fn align() -> u64 { std::mem::align_of::<$t>() as u64 }
        }
    )* };
}
prim!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
macro_rules! nonzero {
    ($($t:ident $p:ident)*) => { $(
        impl Gen for $t {
            fn gen(s: &mut Src, _: u32) -> (Self, Node) {
                let v = (crate::gen::int(s, 8) as $p).max(1);
                ($t::new(v).unwrap(), Node::Flat(v.to_le_bytes().to_vec()))
            }
            fn align() -> u64 { std::mem::align_of::<$p>() as u64 }
        }
    )* };
}
nonzero!(NonZeroU8 u8 NonZeroU32 u32 NonZeroI16 i16 NonZeroU64 u64);

impl Gen for f32 {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        let b = crate::gen::f32_any(s);
        (b, Node::Flat(b.to_bits().to_le_bytes().to_vec()))
    }
    fn align() -> u64 {
        4
    }
}
impl Gen for f64 {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        let b = s.u64();
        (f64::from_bits(b), Node::Flat(b.to_le_bytes().to_vec()))
    }
    fn align() -> u64 {
        8
    }
}
impl Gen for () {
    fn gen(_: &mut Src, _: u32) -> (Self, Node) {
        ((), Node::Flat(vec![]))
    }
    fn align() -> u64 {
        1
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let mut nodes = vec![];
        let v = std::array::from_fn(|_| {
            let (v, n) = T::gen(s, d + 1);
            nodes.push(n);
            v
        });
        (v, Node::Seq(nodes))
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}
fn many<T: Gen>(s: &mut Src, d: u32) -> (Vec<T>, Vec<Node>) {
    let n = if d > DEEP { 0 } else if d > 4 { s.below(3) as usize } else { s.len(3, 9) };
    (0..n).map(|_| T::gen(s, d + 1)).unzip()
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (v, n) = many(s, d);
        (v, Node::Seq(n))
    }
    fn align() -> u64 {
        T::align()
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        if d > DEEP || s.chance(1, 3) {
            (None, Node::Opt(None))
        } else {
            let (v, n) = T::gen(s, d + 1);
            (Some(v), Node::Opt(Some(Box::new(n))))
        }
    }
    fn align() -> u64 {
        T::align()
    }
}
impl<T: Gen> Gen for RelPtr64<T> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        if d > DEEP || s.chance(1, 6) {
            (RelPtr64::null(), Node::Rel(T::align(), None))
        } else {
            let (v, n) = T::gen(s, d + 1);
            (RelPtr64::new(v), Node::Rel(T::align(), Some(Box::new(n))))
        }
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}
impl<P, T: Gen> Gen for Ptr<P, T>
where
    P: SsbhWrite + Default + TryFrom<u64>,
{
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let w = std::mem::size_of::<P>() as u32;
        if d > DEEP || s.chance(1, 6) {
            (Ptr::null(), Node::Abs(w, T::align(), None))
        } else {
            let (v, n) = T::gen(s, d + 1);
            (Ptr::new(v), Node::Abs(w, T::align(), Some(Box::new(n))))
        }
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}
impl<T: Gen> Gen for SsbhArray<T> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (v, n) = many(s, d);
        (SsbhArray { elements: v }, Node::Arr(n))
    }
    fn align() -> u64 {
        8
    }
}
impl Gen for SsbhByteBuffer {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        let n = s.len(6, 40);
        let v: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
        (SsbhByteBuffer { elements: v.clone() }, Node::Bytes(v))
    }
    fn align() -> u64 {
        8
    }
}
fn name(s: &mut Src) -> Vec<u8> {
    crate::gen::text(s, true)
}
impl<const N: usize> Gen for CString<N> {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        let t = name(s);
        (CString::from_bytes(&t), Node::Text(N as u64, t))
    }
    fn align() -> u64 {
        N as u64
    }
}
macro_rules! strings {
    ($($t:ident $n:literal)*) => { $(
        impl Gen for $t {
            fn gen(s: &mut Src, _: u32) -> (Self, Node) {
                let t = name(s);
                ($t::from_bytes(&t), Node::Rel($n, Some(Box::new(Node::Text($n, t)))))
            }
            fn align() -> u64 {
                std::mem::align_of::<Self>() as u64
            }
        }
    )* };
}
strings!(SsbhString 4 SsbhString8 8);
impl<E: Gen + DataType> Gen for SsbhEnum64<E> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        if d > DEEP || s.chance(1, 6) {
            (SsbhEnum64 { data: RelPtr64::null() }, Node::Tag(E::align(), None))
        } else {
            let (v, n) = E::gen(s, d + 1);
            let t = v.data_type();
            (SsbhEnum64 { data: RelPtr64::new(v) }, Node::Tag(E::align(), Some((t, Box::new(n)))))
        }
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}

/// User-defined generic types.
#[derive(SsbhWrite)]
pub struct Pair<A: SsbhWrite, B: SsbhWrite> {
    pub a: A,
    pub b: RelPtr64<B>,
    #[ssbhwrite(pad_after = 5)]
    pub c: SsbhArray<A>,
}
impl<A: Gen, B: Gen> Gen for Pair<A, B> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (a, na) = A::gen(s, d + 1);
        let (b, nb) = RelPtr64::gen(s, d + 1);
        // elements of an array have one size: use copies of the layout only when it is fixed
        let (c, nc) = (SsbhArray { elements: vec![] }, Node::Arr(vec![]));
        (
            Pair { a, b, c },
            Node::Struct { magic: b"", parts: vec![(na, 0, 0), (nb, 0, 0), (nc, 5, 0)], pad: 0, align_after: 0 },
        )
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}
#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, pad_after = 3)]
pub struct Boxed<A: SsbhWrite>(pub u8, pub RelPtr64<A>, pub Ptr64<A>);
impl<A: Gen> Gen for Boxed<A> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (x, nx) = u8::gen(s, d + 1);
        let (a, na) = RelPtr64::gen(s, d + 1);
        let (b, nb) = Ptr64::gen(s, d + 1);
        (
            Boxed(x, a, b),
            Node::Struct { magic: b"", parts: vec![(nx, 0, 0), (na, 0, 0), (nb, 0, 0)], pad: 3, align_after: 0 },
        )
    }
    fn align() -> u64 {
        16
    }
}

pub fn check<T: Gen>(c: &mut Ctx) -> R {
    let (v, n) = T::gen(&mut c.src, 0);
    let name = std::any::type_name::<T>().replace("ssbh_verif::types_gen::", "").replace("ssbh_verif::typemodel::", "");
    let (start, dp) = match c.src.weighted(&[3, 1]) {
        0 => (0, 0),
        _ => (c.src.below(70), c.src.below(200)),
    };
    if n.links() >= 2 {
        c.interesting(&(n.clone(), start, dp));
    }
    c.describe(|| format!("{name} at {start}, data pointer {dp}: {n:?}"));
    ensure!(
        lib(|| v.size_in_bytes())? == n.size(),
        "{name}: size_in_bytes is {} but the fields and padding take {}",
        v.size_in_bytes(),
        n.size()
    );
    ensure!(
        T::alignment_in_bytes() == T::align(),
        "{name}: alignment_in_bytes is {} instead of {}",
        T::alignment_in_bytes(),
        T::align()
    );
    let mut e = Emit { buf: vec![0; start as usize], dp, overflow: false };
    let end = e.emit(&n, start);
    let mut w = Cursor::new(vec![0u8; start as usize]);
    w.set_position(start);
    let mut ldp = dp;
    let r = lib(|| v.ssbh_write(&mut w, &mut ldp))?;
    if e.overflow {
        c.label("offset too large for its width");
        ensure!(r.is_err(), "{name}: an absolute offset that does not fit its width was written");
        return Ok(());
    }
    if let Err(x) = r {
        fail!("{name}: writing failed: {x}");
    }
    let pos = w.position();
    let got = w.into_inner();
    if let Some(d) = crate::props::first_diff(&e.buf, &got) {
        fail!("{name}: layout (expected vs written): {d}");
    }
    ensure!(pos == end, "{name}: the writer ends at {pos} instead of {end}");
    let (ldp, edp) = (ldp.max(end), e.dp.max(end));
    ensure!(ldp == edp, "{name}: next free position is {ldp} instead of {edp}");
    Ok(())
}

/// Arrays, vectors and buffers of any length up to a few hundred thousand elements, followed by
/// offsets that have to point past them.
#[derive(SsbhWrite)]
pub struct Long<T: SsbhWrite> {
    pub a: u8,
    pub v: Vec<T>,
    pub p: RelPtr64<u32>,
    pub q: SsbhArray<T>,
    pub b: SsbhByteBuffer,
    pub r: RelPtr64<Vec<T>>,
    pub s: SsbhString,
}
fn long_len(s: &mut Src) -> usize {
    match s.weighted(&[3, 2, 3, 1]) {
        0 => s.below(4) as usize,
        1 => s.below(600) as usize,
        2 => {
            let b = *s.pick(&[127usize, 128, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536]);
            (b + s.below(4) as usize).saturating_sub(1)
        }
        _ => s.below(140_000) as usize,
    }
}
fn long<T: Gen>(s: &mut Src) -> (Vec<T>, Vec<Node>) {
    let n = long_len(s);
    (0..n).map(|_| T::gen(s, 8)).unzip()
}
impl<T: Gen> Gen for Long<T> {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (a, na) = u8::gen(s, d + 1);
        let (v, nv) = long(s);
        let (p, np) = RelPtr64::gen(s, d + 1);
        let (q, nq) = long(s);
        let b: Vec<u8> = (0..long_len(s)).map(|i| i as u8 | 1).collect();
        let (r, nr) = long(s);
        let (t, nt) = SsbhString::gen(s, d + 1);
        (
            Long { a, v, p, q: SsbhArray { elements: q }, b: SsbhByteBuffer { elements: b.clone() }, r: RelPtr64::new(r), s: t },
            Node::Struct {
                magic: b"",
                parts: vec![
                    (na, 0, 0),
                    (Node::Seq(nv), 0, 0),
                    (np, 0, 0),
                    (Node::Arr(nq), 0, 0),
                    (Node::Bytes(b), 0, 0),
                    (Node::Rel(T::align(), Some(Box::new(Node::Seq(nr)))), 0, 0),
                    (nt, 0, 0),
                ],
                pad: 0,
                align_after: 0,
            },
        )
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}
pub const LONG: &[fn(&mut Ctx) -> R] = &[
    check::<Long<u8>>,
    check::<Long<u16>>,
    check::<Long<u64>>,
    check::<Long<Small>>,
    check::<Long<RelPtr64<u8>>>,
    check::<Long<SsbhString8>>,
];
#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
pub struct Small {
    pub a: u16,
    pub b: u8,
}
impl Gen for Small {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (a, na) = u16::gen(s, d + 1);
        let (b, nb) = u8::gen(s, d + 1);
        (Small { a, b }, Node::Struct { magic: b"", parts: vec![(na, 0, 0), (nb, 0, 0)], pad: 3, align_after: 0 })
    }
    fn align() -> u64 {
        2
    }
}
