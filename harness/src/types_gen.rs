// Generated by tools/gen_types.py. Do not edit.
#![allow(dead_code)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use crate::engine::Src;
use crate::typemodel::*;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::num::*;

#[derive(SsbhWrite, Clone, Copy)]
#[ssbhwrite(repr(i32))]
#[repr(i32)]
pub enum R0 { C0 = -5, C1 = 0, C2 = 141, C3 = 929996051, C4 = 2147483647 }
impl Gen for R0 {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        match s.below(5) {
            0 => (R0::C0, Node::Flat((-5 as i32).to_le_bytes().to_vec())),
            1 => (R0::C1, Node::Flat((0 as i32).to_le_bytes().to_vec())),
            2 => (R0::C2, Node::Flat((141 as i32).to_le_bytes().to_vec())),
            3 => (R0::C3, Node::Flat((929996051 as i32).to_le_bytes().to_vec())),
            _ => (R0::C4, Node::Flat((2147483647 as i32).to_le_bytes().to_vec())),
        }
    }
    fn align() -> u64 { std::mem::align_of::<i32>() as u64 }
}

#[derive(SsbhWrite, Clone, Copy)]
#[ssbhwrite(repr(i32))]
#[repr(i32)]
pub enum R1 { C0 = -5, C1 = 0, C2 = 31, C3 = 1054195050, C4 = 2147483647 }
impl Gen for R1 {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        match s.below(5) {
            0 => (R1::C0, Node::Flat((-5 as i32).to_le_bytes().to_vec())),
            1 => (R1::C1, Node::Flat((0 as i32).to_le_bytes().to_vec())),
            2 => (R1::C2, Node::Flat((31 as i32).to_le_bytes().to_vec())),
            3 => (R1::C3, Node::Flat((1054195050 as i32).to_le_bytes().to_vec())),
            _ => (R1::C4, Node::Flat((2147483647 as i32).to_le_bytes().to_vec())),
        }
    }
    fn align() -> u64 { std::mem::align_of::<i32>() as u64 }
}

#[derive(SsbhWrite, Clone, Copy)]
#[ssbhwrite(repr(i32))]
#[repr(i32)]
pub enum R2 { C0 = -5, C1 = 0, C2 = 147, C3 = 536048608, C4 = 2147483647 }
impl Gen for R2 {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        match s.below(5) {
            0 => (R2::C0, Node::Flat((-5 as i32).to_le_bytes().to_vec())),
            1 => (R2::C1, Node::Flat((0 as i32).to_le_bytes().to_vec())),
            2 => (R2::C2, Node::Flat((147 as i32).to_le_bytes().to_vec())),
            3 => (R2::C3, Node::Flat((536048608 as i32).to_le_bytes().to_vec())),
            _ => (R2::C4, Node::Flat((2147483647 as i32).to_le_bytes().to_vec())),
        }
    }
    fn align() -> u64 { std::mem::align_of::<i32>() as u64 }
}

#[derive(SsbhWrite, Clone, Copy)]
#[ssbhwrite(repr(u16))]
#[repr(u16)]
pub enum R3 { C0 = 0, C1 = 190, C2 = 11577, C3 = 65535 }
impl Gen for R3 {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        match s.below(4) {
            0 => (R3::C0, Node::Flat((0 as u16).to_le_bytes().to_vec())),
            1 => (R3::C1, Node::Flat((190 as u16).to_le_bytes().to_vec())),
            2 => (R3::C2, Node::Flat((11577 as u16).to_le_bytes().to_vec())),
            _ => (R3::C3, Node::Flat((65535 as u16).to_le_bytes().to_vec())),
        }
    }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(SsbhWrite, Clone, Copy)]
#[ssbhwrite(repr(u32))]
#[repr(u32)]
pub enum R4 { C0 = 0, C1 = 187, C2 = 552643677, C3 = 4294967295 }
impl Gen for R4 {
    fn gen(s: &mut Src, _: u32) -> (Self, Node) {
        match s.below(4) {
            0 => (R4::C0, Node::Flat((0 as u32).to_le_bytes().to_vec())),
            1 => (R4::C1, Node::Flat((187 as u32).to_le_bytes().to_vec())),
            2 => (R4::C2, Node::Flat((552643677 as u32).to_le_bytes().to_vec())),
            _ => (R4::C3, Node::Flat((4294967295 as u32).to_le_bytes().to_vec())),
        }
    }
    fn align() -> u64 { std::mem::align_of::<u32>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T0 { #[ssbhwrite(pad_after = 7)] pub f0: SsbhArray<SsbhArray<RelPtr64<i64>>>, pub f1: i32, pub f2: Ptr64<i8>, pub f3: RelPtr64<Ptr64<SsbhString8>>, pub f4: SsbhArray<SsbhArray<SsbhArray<RelPtr64<i64>>>>, pub f5: Option<NonZeroU64> }
impl Gen for T0 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<SsbhArray<RelPtr64<i64>>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <Ptr64<i8> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <RelPtr64<Ptr64<SsbhString8>> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhArray<SsbhArray<SsbhArray<RelPtr64<i64>>>> as Gen>::gen(s, d + 1);
        let (f5, nf5) = <Option<NonZeroU64> as Gen>::gen(s, d + 1);
        (T0 { f0, f1, f2, f3, f4, f5 }, Node::Struct { magic: b"", parts: vec![(nf0, 7, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub enum T1 {
    V0(T0),
}
impl Gen for T1 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <T0 as Gen>::gen(s, d + 1);
                (T1::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 2 }
}
impl ssbh_lib::DataType for T1 { fn data_type(&self) -> u64 { match self { T1::V0 { .. } => 4 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub struct T2(pub R1, pub Ptr64<SsbhArray<SsbhEnum64<T1>>>, pub R3);
impl Gen for T2 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R1 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Ptr64<SsbhArray<SsbhEnum64<T1>>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <R3 as Gen>::gen(s, d + 1);
        (T2(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 4 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9)]
pub struct T3 { pub f0: NonZeroU8, pub f1: RelPtr64<i8>, pub f2: SsbhString8, pub f3: T0, #[ssbhwrite(pad_after = 3)] pub f4: NonZeroU32, pub f5: i8 }
impl Gen for T3 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <NonZeroU8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<i8> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhString8 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <T0 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <NonZeroU32 as Gen>::gen(s, d + 1);
        let (f5, nf5) = <i8 as Gen>::gen(s, d + 1);
        (T3 { f0, f1, f2, f3, f4, f5 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 3, 0), (nf5, 0, 0)], pad: 9, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9)]
pub struct T4 { pub f0: i8, pub f1: Vec<i8>, pub f2: i16, #[ssbhwrite(pad_after = 5)] pub f3: T1, #[ssbhwrite(pad_after = 7)] pub f4: SsbhArray<u16> }
impl Gen for T4 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Vec<i8> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i16 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <T1 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhArray<u16> as Gen>::gen(s, d + 1);
        (T4 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 5, 0), (nf4, 7, 0)], pad: 9, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11)]
pub enum T5 {
    V0 { f0: NonZeroU32, f1: T3, f2: Ptr16<RelPtr64<T2>> },
}
impl Gen for T5 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <NonZeroU32 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <T3 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <Ptr16<RelPtr64<T2>> as Gen>::gen(s, d + 1);
                (T5::V0 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 11, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T5 { fn data_type(&self) -> u64 { match self { T5::V0 { .. } => 28 } } }

#[derive(SsbhWrite)]
pub struct T6 { #[ssbhwrite(pad_after = 7)] pub f0: RelPtr64<T4>, pub f1: R2, pub f2: SsbhArray<i16> }
impl Gen for T6 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <RelPtr64<T4> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<i16> as Gen>::gen(s, d + 1);
        (T6 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 7, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 64, magic = b"ANN")]
pub struct T7(pub R3, pub SsbhArray<SsbhByteBuffer>);
impl Gen for T7 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R3 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        (T7(f0, f1), Node::Struct { magic: b"ANN", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 10, magic = b"KC")]
pub struct T8 { pub f0: f64, pub f1: T3, pub f2: RelPtr64<SsbhArray<Ptr64<Vec<NonZeroU64>>>> }
impl Gen for T8 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <f64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T3 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <RelPtr64<SsbhArray<Ptr64<Vec<NonZeroU64>>>> as Gen>::gen(s, d + 1);
        (T8 { f0, f1, f2 }, Node::Struct { magic: b"KC", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 10, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9, magic = b"IILK")]
pub struct T9 { pub f0: T6, pub f1: SsbhArray<SsbhArray<T7>> }
impl Gen for T9 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T6 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<SsbhArray<T7>> as Gen>::gen(s, d + 1);
        (T9 { f0, f1 }, Node::Struct { magic: b"IILK", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 9, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 4, magic = b"LCCGNHC")]
pub struct T10(pub SsbhEnum64<T5>);
impl Gen for T10 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhEnum64<T5> as Gen>::gen(s, d + 1);
        (T10(f0), Node::Struct { magic: b"LCCGNHC", parts: vec![(nf0, 0, 0)], pad: 4, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 8)]
pub struct T11 { #[ssbhwrite(pad_after = 5)] pub f0: RelPtr64<T3>, #[ssbhwrite(pad_after = 6)] pub f1: T4, pub f2: T2, pub f3: R1, #[ssbhwrite(pad_after = 7)] pub f4: f32 }
impl Gen for T11 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <RelPtr64<T3> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T4 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T2 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R1 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <f32 as Gen>::gen(s, d + 1);
        (T11 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 5, 0), (nf1, 6, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 7, 0)], pad: 8, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T12(pub SsbhArray<RelPtr64<u128>>);
impl Gen for T12 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<RelPtr64<u128>> as Gen>::gen(s, d + 1);
        (T12(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11)]
pub struct T13(pub SsbhArray<f32>);
impl Gen for T13 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<f32> as Gen>::gen(s, d + 1);
        (T13(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 11, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T14 {
    V0 { f0: T6, f1: Option<T2>, f2: [RelPtr64<SsbhEnum64<T1>>; 1] },
    V1 { f0: Option<u32> },
    V2 { f0: Ptr16<RelPtr64<RelPtr64<CString<4>>>>, f1: T10, f2: SsbhEnum64<T1> },
    #[ssbhwrite(pad_after = 4)]
    V3 { #[ssbhwrite(pad_after = 1)] f0: T0, f1: RelPtr64<SsbhArray<T7>> },
}
impl Gen for T14 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <T6 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Option<T2> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <[RelPtr64<SsbhEnum64<T1>>; 1] as Gen>::gen(s, d + 1);
                (T14::V0 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <Option<u32> as Gen>::gen(s, d + 1);
                (T14::V1 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <Ptr16<RelPtr64<RelPtr64<CString<4>>>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <T10 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhEnum64<T1> as Gen>::gen(s, d + 1);
                (T14::V2 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <T0 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <RelPtr64<SsbhArray<T7>> as Gen>::gen(s, d + 1);
                (T14::V3 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 1, 0), (nf1, 0, 0)], pad: 4 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T14 { fn data_type(&self) -> u64 { match self { T14::V0 { .. } => 34, T14::V1 { .. } => 6, T14::V2 { .. } => 1, T14::V3 { .. } => 16 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T15 { pub f0: RelPtr64<SsbhEnum64<T1>>, pub f1: i128, pub f2: f32, pub f3: Ptr64<Vec<f32>>, #[ssbhwrite(pad_after = 1)] pub f4: i16 }
impl Gen for T15 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <RelPtr64<SsbhEnum64<T1>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i128 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <f32 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <Ptr64<Vec<f32>> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <i16 as Gen>::gen(s, d + 1);
        (T15 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 1, 0)], pad: 12, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub enum T16 {
    V0(SsbhArray<SsbhEnum64<T14>>),
    V1 { f0: NonZeroU64 },
}
impl Gen for T16 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <SsbhArray<SsbhEnum64<T14>> as Gen>::gen(s, d + 1);
                (T16::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <NonZeroU64 as Gen>::gen(s, d + 1);
                (T16::V1 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 8 }
}
impl ssbh_lib::DataType for T16 { fn data_type(&self) -> u64 { match self { T16::V0 { .. } => 25, T16::V1 { .. } => 30 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 4)]
pub struct T17(pub T8, pub SsbhEnum64<T16>);
impl Gen for T17 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhEnum64<T16> as Gen>::gen(s, d + 1);
        (T17(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 4, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub enum T18 {
    V0(R0, Ptr32<Ptr64<RelPtr64<SsbhString>>>),
    V1(NonZeroU8, i16),
    V2([RelPtr64<SsbhString>; 2], Option<R3>, #[ssbhwrite(pad_after = 6)] SsbhByteBuffer),
}
impl Gen for T18 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <R0 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Ptr32<Ptr64<RelPtr64<SsbhString>>> as Gen>::gen(s, d + 1);
                (T18::V0(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <NonZeroU8 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i16 as Gen>::gen(s, d + 1);
                (T18::V1(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <[RelPtr64<SsbhString>; 2] as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Option<R3> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                (T18::V2(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 6, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 4 }
}
impl ssbh_lib::DataType for T18 { fn data_type(&self) -> u64 { match self { T18::V0 { .. } => 29, T18::V1 { .. } => 25, T18::V2 { .. } => 12 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 8, magic = b"ILHDBKMD")]
pub struct T19(pub SsbhByteBuffer, pub NonZeroI16);
impl Gen for T19 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroI16 as Gen>::gen(s, d + 1);
        (T19(f0, f1), Node::Struct { magic: b"ILHDBKMD", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 8 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 64)]
pub struct T20 { pub f0: SsbhArray<SsbhString8>, pub f1: T1, pub f2: T1, pub f3: Option<T5>, pub f4: i64 }
impl Gen for T20 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<SsbhString8> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T1 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T1 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <Option<T5> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <i64 as Gen>::gen(s, d + 1);
        (T20 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"GL")]
pub struct T21 { pub f0: T20, pub f1: u8 }
impl Gen for T21 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T20 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u8 as Gen>::gen(s, d + 1);
        (T21 { f0, f1 }, Node::Struct { magic: b"GL", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T22 {
    V0(#[ssbhwrite(pad_after = 4)] Ptr16<u32>),
}
impl Gen for T22 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <Ptr16<u32> as Gen>::gen(s, d + 1);
                (T22::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 4, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T22 { fn data_type(&self) -> u64 { match self { T22::V0 { .. } => 28 } } }

#[derive(SsbhWrite)]
pub struct T23(#[ssbhwrite(pad_after = 3)] pub SsbhArray<SsbhArray<NonZeroU64>>, pub Option<u16>, pub [RelPtr64<SsbhArray<SsbhString>>; 4]);
impl Gen for T23 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<SsbhArray<NonZeroU64>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Option<u16> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <[RelPtr64<SsbhArray<SsbhString>>; 4] as Gen>::gen(s, d + 1);
        (T23(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 3, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"JPE")]
pub enum T24 {
    V0 { f0: i32, f1: u8 },
    V1 { f0: [SsbhString8; 2], f1: RelPtr64<T13>, f2: f64 },
}
impl Gen for T24 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <i32 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <u8 as Gen>::gen(s, d + 1);
                (T24::V0 { f0, f1 }, Node::Struct { magic: b"JPE", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <[SsbhString8; 2] as Gen>::gen(s, d + 1);
                let (f1, nf1) = <RelPtr64<T13> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <f64 as Gen>::gen(s, d + 1);
                (T24::V1 { f0, f1, f2 }, Node::Struct { magic: b"JPE", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T24 { fn data_type(&self) -> u64 { match self { T24::V0 { .. } => 11, T24::V1 { .. } => 5 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"IIGCI")]
pub enum T25 {
    #[ssbhwrite(pad_after = 5)]
    V0(SsbhString, #[ssbhwrite(pad_after = 5)] R1),
    #[ssbhwrite(pad_after = 2)]
    V1 { f0: i32, #[ssbhwrite(pad_after = 7)] f1: T11, f2: SsbhString },
}
impl Gen for T25 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
                let (f1, nf1) = <R1 as Gen>::gen(s, d + 1);
                (T25::V0(f0, f1), Node::Struct { magic: b"IIGCI", parts: vec![(nf0, 0, 0), (nf1, 5, 0)], pad: 5 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <i32 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <T11 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhString as Gen>::gen(s, d + 1);
                (T25::V1 { f0, f1, f2 }, Node::Struct { magic: b"IIGCI", parts: vec![(nf0, 0, 0), (nf1, 7, 0), (nf2, 0, 0)], pad: 2 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T25 { fn data_type(&self) -> u64 { match self { T25::V0 { .. } => 16, T25::V1 { .. } => 2 } } }

#[derive(SsbhWrite)]
pub struct T26 { #[ssbhwrite(pad_after = 4)] pub f0: SsbhArray<f32>, pub f1: T12, pub f2: [RelPtr64<Vec<SsbhString>>; 2] }
impl Gen for T26 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<f32> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T12 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <[RelPtr64<Vec<SsbhString>>; 2] as Gen>::gen(s, d + 1);
        (T26 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 4, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T27 { pub f0: T9 }
impl Gen for T27 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T9 as Gen>::gen(s, d + 1);
        (T27 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T28 { pub f0: i128, pub f1: T8, pub f2: u8 }
impl Gen for T28 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u8 as Gen>::gen(s, d + 1);
        (T28 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T29 { pub f0: Vec<SsbhByteBuffer>, pub f1: i32, pub f2: SsbhArray<SsbhArray<R3>>, #[ssbhwrite(pad_after = 2)] pub f3: SsbhString, pub f4: SsbhByteBuffer }
impl Gen for T29 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<SsbhArray<R3>> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhString as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        (T29 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 2, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"D")]
pub struct T30 { pub f0: Option<T21>, pub f1: (), #[ssbhwrite(pad_after = 1)] pub f2: SsbhArray<RelPtr64<u8>>, pub f3: R1 }
impl Gen for T30 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Option<T21> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <() as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<RelPtr64<u8>> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R1 as Gen>::gen(s, d + 1);
        (T30 { f0, f1, f2, f3 }, Node::Struct { magic: b"D", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 1, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T31 { pub f0: T26, pub f1: SsbhArray<Ptr32<Vec<SsbhString8>>>, pub f2: R2, pub f3: SsbhArray<SsbhString>, pub f4: u8, pub f5: RelPtr64<CString<4>> }
impl Gen for T31 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T26 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<Ptr32<Vec<SsbhString8>>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <R2 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<SsbhString> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <u8 as Gen>::gen(s, d + 1);
        let (f5, nf5) = <RelPtr64<CString<4>> as Gen>::gen(s, d + 1);
        (T31 { f0, f1, f2, f3, f4, f5 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T32(#[ssbhwrite(pad_after = 6)] pub i128, pub NonZeroU64);
impl Gen for T32 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU64 as Gen>::gen(s, d + 1);
        (T32(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 6, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"DFOPB")]
pub enum T33 {
    #[ssbhwrite(pad_after = 6)]
    V0 { f0: SsbhString, f1: u16 },
    #[ssbhwrite(pad_after = 6)]
    V1([SsbhEnum64<T22>; 4], u64, i64),
    V2 { f0: i32, f1: i64, f2: SsbhArray<i8> },
    V3 { f0: u128 },
}
impl Gen for T33 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
                let (f1, nf1) = <u16 as Gen>::gen(s, d + 1);
                (T33::V0 { f0, f1 }, Node::Struct { magic: b"DFOPB", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 6 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <[SsbhEnum64<T22>; 4] as Gen>::gen(s, d + 1);
                let (f1, nf1) = <u64 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <i64 as Gen>::gen(s, d + 1);
                (T33::V1(f0, f1, f2), Node::Struct { magic: b"DFOPB", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 6 + 0, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <i32 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i64 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhArray<i8> as Gen>::gen(s, d + 1);
                (T33::V2 { f0, f1, f2 }, Node::Struct { magic: b"DFOPB", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
                (T33::V3 { f0 }, Node::Struct { magic: b"DFOPB", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T34(pub u128, pub [SsbhByteBuffer; 2]);
impl Gen for T34 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <[SsbhByteBuffer; 2] as Gen>::gen(s, d + 1);
        (T34(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11)]
pub enum T35 {
    V0(#[ssbhwrite(pad_after = 9)] T34),
    #[ssbhwrite(pad_after = 6)]
    V1 { f0: R2, f1: SsbhString, f2: R4 },
    V2(SsbhArray<f32>),
}
impl Gen for T35 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <T34 as Gen>::gen(s, d + 1);
                (T35::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 9, 0)], pad: 0 + 11, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <R2 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhString as Gen>::gen(s, d + 1);
                let (f2, nf2) = <R4 as Gen>::gen(s, d + 1);
                (T35::V1 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 6 + 11, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhArray<f32> as Gen>::gen(s, d + 1);
                (T35::V2(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 11, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T35 { fn data_type(&self) -> u64 { match self { T35::V0 { .. } => 5, T35::V1 { .. } => 34, T35::V2 { .. } => 35 } } }

#[derive(SsbhWrite)]
pub struct T36 { pub f0: i128, #[ssbhwrite(pad_after = 8)] pub f1: [SsbhArray<RelPtr64<CString<1>>>; 3], pub f2: SsbhByteBuffer, pub f3: SsbhArray<i128>, pub f4: R4 }
impl Gen for T36 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <[SsbhArray<RelPtr64<CString<1>>>; 3] as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<i128> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <R4 as Gen>::gen(s, d + 1);
        (T36 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 8, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T37 {
    V0 { f0: SsbhArray<Ptr16<u64>>, f1: SsbhArray<[RelPtr64<CString<4>>; 1]>, f2: () },
}
impl Gen for T37 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <SsbhArray<Ptr16<u64>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<[RelPtr64<CString<4>>; 1]> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <() as Gen>::gen(s, d + 1);
                (T37::V0 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T37 { fn data_type(&self) -> u64 { match self { T37::V0 { .. } => 38 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T38 { #[ssbhwrite(pad_after = 1)] pub f0: i8, pub f1: u32, pub f2: [[SsbhByteBuffer; 4]; 4] }
impl Gen for T38 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <[[SsbhByteBuffer; 4]; 4] as Gen>::gen(s, d + 1);
        (T38 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 1, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 12, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T39 { pub f0: SsbhArray<SsbhArray<SsbhArray<SsbhString>>>, pub f1: i64, pub f2: T8, pub f3: RelPtr64<Vec<SsbhArray<SsbhArray<RelPtr64<Vec<i8>>>>>>, pub f4: RelPtr64<RelPtr64<Vec<SsbhArray<u16>>>> }
impl Gen for T39 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<SsbhArray<SsbhArray<SsbhString>>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i64 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T8 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <RelPtr64<Vec<SsbhArray<SsbhArray<RelPtr64<Vec<i8>>>>>> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <RelPtr64<RelPtr64<Vec<SsbhArray<u16>>>> as Gen>::gen(s, d + 1);
        (T39 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6)]
pub struct T40 { pub f0: SsbhString }
impl Gen for T40 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
        (T40 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 6, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 10, alignment = 8, magic = b"G")]
pub struct T41 { pub f0: Vec<SsbhByteBuffer>, pub f1: SsbhArray<SsbhArray<R3>>, pub f2: R1, pub f3: R4, #[ssbhwrite(pad_after = 1)] pub f4: SsbhEnum64<T18> }
impl Gen for T41 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<SsbhArray<R3>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <R1 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R4 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhEnum64<T18> as Gen>::gen(s, d + 1);
        (T41 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"G", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 1, 0)], pad: 10, align_after: 0 })
    }
    fn align() -> u64 { 8 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 4)]
pub struct T42 { pub f0: [[NonZeroU64; 4]; 2], pub f1: SsbhEnum64<T22> }
impl Gen for T42 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <[[NonZeroU64; 4]; 2] as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhEnum64<T22> as Gen>::gen(s, d + 1);
        (T42 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 4, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub struct T43 { pub f0: Ptr16<SsbhEnum64<T5>>, #[ssbhwrite(pad_after = 3)] pub f1: SsbhString8, #[ssbhwrite(pad_after = 1)] pub f2: (), pub f3: NonZeroU8, pub f4: SsbhString, pub f5: SsbhArray<RelPtr64<R4>> }
impl Gen for T43 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Ptr16<SsbhEnum64<T5>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhString8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <() as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroU8 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhString as Gen>::gen(s, d + 1);
        let (f5, nf5) = <SsbhArray<RelPtr64<R4>> as Gen>::gen(s, d + 1);
        (T43 { f0, f1, f2, f3, f4, f5 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 3, 0), (nf2, 1, 0), (nf3, 0, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"CDNFHGHF")]
pub struct T44(#[ssbhwrite(pad_after = 9)] pub f64, pub NonZeroU32, pub SsbhString8, pub T31);
impl Gen for T44 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <f64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhString8 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <T31 as Gen>::gen(s, d + 1);
        (T44(f0, f1, f2, f3), Node::Struct { magic: b"CDNFHGHF", parts: vec![(nf0, 9, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T45 {
    #[ssbhwrite(pad_after = 2)]
    V0([SsbhArray<NonZeroU32>; 1]),
    #[ssbhwrite(pad_after = 2)]
    V1 { f0: Ptr32<()>, f1: SsbhString8, #[ssbhwrite(pad_after = 9)] f2: SsbhString8 },
    V2 { #[ssbhwrite(pad_after = 2)] f0: i128 },
}
impl Gen for T45 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <[SsbhArray<NonZeroU32>; 1] as Gen>::gen(s, d + 1);
                (T45::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 2 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <Ptr32<()> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhString8 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhString8 as Gen>::gen(s, d + 1);
                (T45::V1 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 9, 0)], pad: 2 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
                (T45::V2 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 2, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T45 { fn data_type(&self) -> u64 { match self { T45::V0 { .. } => 7, T45::V1 { .. } => 35, T45::V2 { .. } => 28 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 7)]
pub struct T46(pub u64);
impl Gen for T46 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u64 as Gen>::gen(s, d + 1);
        (T46(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 7, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T47 { #[ssbhwrite(pad_after = 9)] pub f0: i16, pub f1: (), #[ssbhwrite(pad_after = 8)] pub f2: SsbhArray<SsbhByteBuffer>, pub f3: NonZeroI16, pub f4: [[u32; 3]; 3], pub f5: T38 }
impl Gen for T47 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i16 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <() as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroI16 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <[[u32; 3]; 3] as Gen>::gen(s, d + 1);
        let (f5, nf5) = <T38 as Gen>::gen(s, d + 1);
        (T47 { f0, f1, f2, f3, f4, f5 }, Node::Struct { magic: b"", parts: vec![(nf0, 9, 0), (nf1, 0, 0), (nf2, 8, 0), (nf3, 0, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T48(pub SsbhString8, pub (), pub u8);
impl Gen for T48 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <() as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u8 as Gen>::gen(s, d + 1);
        (T48(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 12, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub enum T49 {
    V0 { #[ssbhwrite(pad_after = 6)] f0: SsbhArray<R2>, f1: T29 },
    V1 { f0: RelPtr64<Vec<T32>>, f1: Ptr32<CString<4>>, f2: SsbhEnum64<T5> },
    #[ssbhwrite(pad_after = 1)]
    V2(SsbhArray<i64>, #[ssbhwrite(pad_after = 3)] RelPtr64<Ptr16<T42>>),
}
impl Gen for T49 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <SsbhArray<R2> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <T29 as Gen>::gen(s, d + 1);
                (T49::V0 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 6, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <RelPtr64<Vec<T32>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Ptr32<CString<4>> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhEnum64<T5> as Gen>::gen(s, d + 1);
                (T49::V1 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhArray<i64> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <RelPtr64<Ptr16<T42>> as Gen>::gen(s, d + 1);
                (T49::V2(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 3, 0)], pad: 1 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 8 }
}
impl ssbh_lib::DataType for T49 { fn data_type(&self) -> u64 { match self { T49::V0 { .. } => 20, T49::V1 { .. } => 34, T49::V2 { .. } => 23 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub struct T50 { pub f0: SsbhArray<SsbhArray<Ptr64<Vec<[NonZeroU32; 3]>>>>, #[ssbhwrite(pad_after = 7)] pub f1: T25, pub f2: T29, pub f3: [RelPtr64<RelPtr64<u128>>; 3], pub f4: T3 }
impl Gen for T50 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<SsbhArray<Ptr64<Vec<[NonZeroU32; 3]>>>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T25 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T29 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <[RelPtr64<RelPtr64<u128>>; 3] as Gen>::gen(s, d + 1);
        let (f4, nf4) = <T3 as Gen>::gen(s, d + 1);
        (T50 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 7, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 2 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6, alignment = 16)]
pub struct T51 { pub f0: T4, pub f1: SsbhEnum64<T16>, pub f2: T3, pub f3: [Ptr64<SsbhArray<T27>>; 2] }
impl Gen for T51 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T4 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhEnum64<T16> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T3 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <[Ptr64<SsbhArray<T27>>; 2] as Gen>::gen(s, d + 1);
        (T51 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 6, align_after: 0 })
    }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
pub struct T52(pub i128, pub f64, pub i128);
impl Gen for T52 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <f64 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i128 as Gen>::gen(s, d + 1);
        (T52(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T53 {
    V0(f32, NonZeroU64, i128),
}
impl Gen for T53 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <f32 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <NonZeroU64 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <i128 as Gen>::gen(s, d + 1);
                (T53::V0(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9, magic = b"AIDPJ")]
pub struct T54(pub Ptr64<T37>, #[ssbhwrite(pad_after = 6)] pub i8, pub T4);
impl Gen for T54 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Ptr64<T37> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T4 as Gen>::gen(s, d + 1);
        (T54(f0, f1, f2), Node::Struct { magic: b"AIDPJ", parts: vec![(nf0, 0, 0), (nf1, 6, 0), (nf2, 0, 0)], pad: 9, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T55(pub SsbhString, pub T28, pub T12);
impl Gen for T55 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T28 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T12 as Gen>::gen(s, d + 1);
        (T55(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9)]
pub struct T56 { pub f0: SsbhString, pub f1: SsbhArray<R2>, pub f2: NonZeroU32 }
impl Gen for T56 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<R2> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <NonZeroU32 as Gen>::gen(s, d + 1);
        (T56 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 9, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T57 {
    V0 { f0: (), f1: SsbhString8 },
}
impl Gen for T57 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <() as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhString8 as Gen>::gen(s, d + 1);
                (T57::V0 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6, alignment = 1)]
pub struct T58 { pub f0: SsbhEnum64<T37> }
impl Gen for T58 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhEnum64<T37> as Gen>::gen(s, d + 1);
        (T58 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 6, align_after: 0 })
    }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub struct T59 { pub f0: Ptr64<i16>, #[ssbhwrite(pad_after = 5)] pub f1: SsbhArray<u64>, pub f2: T42 }
impl Gen for T59 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Ptr64<i16> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<u64> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T42 as Gen>::gen(s, d + 1);
        (T59 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 5, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 8 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
pub struct T60 { pub f0: Vec<SsbhEnum64<T35>>, pub f1: RelPtr64<SsbhArray<SsbhString8>>, pub f2: SsbhByteBuffer, pub f3: Ptr64<SsbhString8> }
impl Gen for T60 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<SsbhEnum64<T35>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<SsbhArray<SsbhString8>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f3, nf3) = <Ptr64<SsbhString8> as Gen>::gen(s, d + 1);
        (T60 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 3, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"FCJ")]
pub struct T61(pub R0, pub SsbhString, #[ssbhwrite(pad_after = 4)] pub RelPtr64<Vec<NonZeroU32>>, pub R0);
impl Gen for T61 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R0 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhString as Gen>::gen(s, d + 1);
        let (f2, nf2) = <RelPtr64<Vec<NonZeroU32>> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R0 as Gen>::gen(s, d + 1);
        (T61(f0, f1, f2, f3), Node::Struct { magic: b"FCJ", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 4, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 8)]
pub enum T62 {
    V0 { f0: SsbhArray<SsbhArray<T43>>, f1: RelPtr64<SsbhArray<u8>>, #[ssbhwrite(pad_after = 3)] f2: SsbhString8 },
}
impl Gen for T62 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <SsbhArray<SsbhArray<T43>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <RelPtr64<SsbhArray<u8>> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhString8 as Gen>::gen(s, d + 1);
                (T62::V0 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 3, 0)], pad: 0 + 8, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T62 { fn data_type(&self) -> u64 { match self { T62::V0 { .. } => 20 } } }

#[derive(SsbhWrite)]
pub enum T63 {
    V0(T57, SsbhArray<SsbhArray<i16>>),
}
impl Gen for T63 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <T57 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<SsbhArray<i16>> as Gen>::gen(s, d + 1);
                (T63::V0(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 8, alignment = 1)]
pub enum T64 {
    V0(RelPtr64<Vec<R4>>, SsbhArray<SsbhString>),
    V1 { f0: RelPtr64<()> },
}
impl Gen for T64 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <RelPtr64<Vec<R4>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<SsbhString> as Gen>::gen(s, d + 1);
                (T64::V0(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 8, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <RelPtr64<()> as Gen>::gen(s, d + 1);
                (T64::V1 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 8, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"IEKO")]
pub struct T65(pub T50);
impl Gen for T65 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T50 as Gen>::gen(s, d + 1);
        (T65(f0), Node::Struct { magic: b"IEKO", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T66 { pub f0: (), pub f1: SsbhByteBuffer, pub f2: Vec<SsbhString>, pub f3: SsbhArray<u16>, #[ssbhwrite(pad_after = 3)] pub f4: RelPtr64<RelPtr64<[RelPtr64<NonZeroI16>; 1]>> }
impl Gen for T66 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <() as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f2, nf2) = <Vec<SsbhString> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<u16> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <RelPtr64<RelPtr64<[RelPtr64<NonZeroI16>; 1]>> as Gen>::gen(s, d + 1);
        (T66 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 3, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T67 {
    #[ssbhwrite(pad_after = 3)]
    V0(#[ssbhwrite(pad_after = 1)] u64),
    V1(RelPtr64<SsbhEnum64<T24>>, SsbhArray<Ptr16<Vec<i8>>>, #[ssbhwrite(pad_after = 7)] NonZeroU8),
    V2 { f0: () },
}
impl Gen for T67 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <u64 as Gen>::gen(s, d + 1);
                (T67::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 1, 0)], pad: 3 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <RelPtr64<SsbhEnum64<T24>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<Ptr16<Vec<i8>>> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <NonZeroU8 as Gen>::gen(s, d + 1);
                (T67::V1(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 7, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <() as Gen>::gen(s, d + 1);
                (T67::V2 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T67 { fn data_type(&self) -> u64 { match self { T67::V0 { .. } => 34, T67::V1 { .. } => 16, T67::V2 { .. } => 22 } } }

#[derive(SsbhWrite)]
pub enum T68 {
    V0 { f0: R4, #[ssbhwrite(pad_after = 8)] f1: u16 },
    V1(u128, i8, SsbhArray<SsbhArray<SsbhByteBuffer>>),
    V2 { f0: RelPtr64<RelPtr64<CString<4>>> },
}
impl Gen for T68 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <R4 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <u16 as Gen>::gen(s, d + 1);
                (T68::V0 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 8, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i8 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhArray<SsbhArray<SsbhByteBuffer>> as Gen>::gen(s, d + 1);
                (T68::V1(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <RelPtr64<RelPtr64<CString<4>>> as Gen>::gen(s, d + 1);
                (T68::V2 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T68 { fn data_type(&self) -> u64 { match self { T68::V0 { .. } => 2, T68::V1 { .. } => 7, T68::V2 { .. } => 34 } } }

#[derive(SsbhWrite)]
pub struct T69 { pub f0: i128 }
impl Gen for T69 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
        (T69 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 1)]
pub struct T70 { pub f0: T63 }
impl Gen for T70 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T63 as Gen>::gen(s, d + 1);
        (T70 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"APIIPIN")]
pub struct T71(pub (), pub u8);
impl Gen for T71 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <() as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u8 as Gen>::gen(s, d + 1);
        (T71(f0, f1), Node::Struct { magic: b"APIIPIN", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6, magic = b"CI")]
pub struct T72(pub SsbhEnum64<T49>, #[ssbhwrite(pad_after = 3)] pub T39);
impl Gen for T72 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhEnum64<T49> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T39 as Gen>::gen(s, d + 1);
        (T72(f0, f1), Node::Struct { magic: b"CI", parts: vec![(nf0, 0, 0), (nf1, 3, 0)], pad: 6, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 2, magic = b"OKLOKIKF")]
pub struct T73 { pub f0: T39, pub f1: SsbhString, pub f2: [RelPtr64<SsbhArray<u128>>; 4], pub f3: T2 }
impl Gen for T73 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T39 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhString as Gen>::gen(s, d + 1);
        let (f2, nf2) = <[RelPtr64<SsbhArray<u128>>; 4] as Gen>::gen(s, d + 1);
        let (f3, nf3) = <T2 as Gen>::gen(s, d + 1);
        (T73 { f0, f1, f2, f3 }, Node::Struct { magic: b"OKLOKIKF", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 2 }
}

#[derive(SsbhWrite)]
pub enum T74 {
    V0 { #[ssbhwrite(pad_after = 4)] f0: u64 },
    V1 { f0: R1, f1: SsbhArray<u8> },
}
impl Gen for T74 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <u64 as Gen>::gen(s, d + 1);
                (T74::V0 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 4, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <R1 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<u8> as Gen>::gen(s, d + 1);
                (T74::V1 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 64)]
pub struct T75(pub NonZeroU32, pub [R0; 2]);
impl Gen for T75 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <NonZeroU32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <[R0; 2] as Gen>::gen(s, d + 1);
        (T75(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 64 }
}

#[derive(SsbhWrite)]
pub struct T76 { pub f0: (), pub f1: RelPtr64<SsbhByteBuffer>, pub f2: T42, pub f3: [SsbhString; 1] }
impl Gen for T76 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <() as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T42 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <[SsbhString; 1] as Gen>::gen(s, d + 1);
        (T76 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"IOD")]
pub struct T77 { pub f0: f64, pub f1: SsbhArray<SsbhEnum64<T16>>, pub f2: u8, pub f3: SsbhArray<SsbhString8>, pub f4: SsbhString, pub f5: T29 }
impl Gen for T77 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <f64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<SsbhEnum64<T16>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u8 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<SsbhString8> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhString as Gen>::gen(s, d + 1);
        let (f5, nf5) = <T29 as Gen>::gen(s, d + 1);
        (T77 { f0, f1, f2, f3, f4, f5 }, Node::Struct { magic: b"IOD", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T78 {
    V0 { f0: i16 },
    #[ssbhwrite(pad_after = 4)]
    V1(SsbhString),
    V2 { #[ssbhwrite(pad_after = 2)] f0: SsbhString, f1: SsbhByteBuffer },
}
impl Gen for T78 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <i16 as Gen>::gen(s, d + 1);
                (T78::V0 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
                (T78::V1(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 4 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                (T78::V2 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 2, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T79 {
    V0 { f0: SsbhArray<Ptr64<CString<8>>> },
}
impl Gen for T79 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <SsbhArray<Ptr64<CString<8>>> as Gen>::gen(s, d + 1);
                (T79::V0 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T79 { fn data_type(&self) -> u64 { match self { T79::V0 { .. } => 2 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"I")]
pub struct T80 { pub f0: NonZeroU32 }
impl Gen for T80 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <NonZeroU32 as Gen>::gen(s, d + 1);
        (T80 { f0 }, Node::Struct { magic: b"I", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T81 {
    V0(SsbhArray<f32>, #[ssbhwrite(pad_after = 2)] Ptr64<CString<1>>, Ptr16<SsbhArray<SsbhArray<[i16; 2]>>>),
}
impl Gen for T81 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <SsbhArray<f32> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Ptr64<CString<1>> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <Ptr16<SsbhArray<SsbhArray<[i16; 2]>>> as Gen>::gen(s, d + 1);
                (T81::V0(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 2, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T81 { fn data_type(&self) -> u64 { match self { T81::V0 { .. } => 31 } } }

#[derive(SsbhWrite)]
pub struct T82(pub i128, pub SsbhArray<NonZeroU32>, pub i8);
impl Gen for T82 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<NonZeroU32> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i8 as Gen>::gen(s, d + 1);
        (T82(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T83(pub i128, #[ssbhwrite(pad_after = 5)] pub Vec<i16>, pub SsbhEnum64<T81>);
impl Gen for T83 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Vec<i16> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhEnum64<T81> as Gen>::gen(s, d + 1);
        (T83(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 5, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T84 { pub f0: SsbhArray<T44>, pub f1: R4, pub f2: SsbhString, pub f3: SsbhArray<Ptr64<SsbhByteBuffer>> }
impl Gen for T84 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<T44> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R4 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhString as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<Ptr64<SsbhByteBuffer>> as Gen>::gen(s, d + 1);
        (T84 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T85(pub T38, #[ssbhwrite(pad_after = 8)] pub T29, #[ssbhwrite(pad_after = 8)] pub T20, #[ssbhwrite(pad_after = 3)] pub SsbhEnum64<T18>);
impl Gen for T85 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T38 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T29 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <T20 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhEnum64<T18> as Gen>::gen(s, d + 1);
        (T85(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 8, 0), (nf2, 8, 0), (nf3, 3, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 7)]
pub enum T86 {
    V0(T9, R2),
}
impl Gen for T86 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <T9 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
                (T86::V0(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 7, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T86 { fn data_type(&self) -> u64 { match self { T86::V0 { .. } => 23 } } }

#[derive(SsbhWrite)]
pub struct T87(#[ssbhwrite(pad_after = 4)] pub NonZeroI16, pub Ptr64<CString<4>>);
impl Gen for T87 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <NonZeroI16 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Ptr64<CString<4>> as Gen>::gen(s, d + 1);
        (T87(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 4, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 4, magic = b"JNKHOEDJ")]
pub enum T88 {
    V0(#[ssbhwrite(pad_after = 2)] R2, SsbhArray<SsbhEnum64<T16>>, RelPtr64<[T75; 2]>),
    V1(i8, u64),
    V2(SsbhArray<f32>, SsbhByteBuffer),
}
impl Gen for T88 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <R2 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<SsbhEnum64<T16>> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <RelPtr64<[T75; 2]> as Gen>::gen(s, d + 1);
                (T88::V0(f0, f1, f2), Node::Struct { magic: b"JNKHOEDJ", parts: vec![(nf0, 2, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 4, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <i8 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <u64 as Gen>::gen(s, d + 1);
                (T88::V1(f0, f1), Node::Struct { magic: b"JNKHOEDJ", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 4, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhArray<f32> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                (T88::V2(f0, f1), Node::Struct { magic: b"JNKHOEDJ", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 4, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T88 { fn data_type(&self) -> u64 { match self { T88::V0 { .. } => 14, T88::V1 { .. } => 31, T88::V2 { .. } => 26 } } }

#[derive(SsbhWrite)]
pub struct T89 { pub f0: RelPtr64<i32> }
impl Gen for T89 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <RelPtr64<i32> as Gen>::gen(s, d + 1);
        (T89 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T90 { pub f0: Ptr16<SsbhByteBuffer>, pub f1: u32, pub f2: Ptr16<f32> }
impl Gen for T90 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Ptr16<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <Ptr16<f32> as Gen>::gen(s, d + 1);
        (T90 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"IHCJOEMN")]
pub struct T91(pub [SsbhEnum64<T62>; 1], pub R2, #[ssbhwrite(pad_after = 3)] pub SsbhString);
impl Gen for T91 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <[SsbhEnum64<T62>; 1] as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhString as Gen>::gen(s, d + 1);
        (T91(f0, f1, f2), Node::Struct { magic: b"IHCJOEMN", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 3, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6)]
pub struct T92(pub SsbhByteBuffer, pub u16, pub SsbhArray<SsbhArray<NonZeroU64>>);
impl Gen for T92 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u16 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<SsbhArray<NonZeroU64>> as Gen>::gen(s, d + 1);
        (T92(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 6, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T93(pub SsbhString8, pub RelPtr64<Ptr32<Vec<T32>>>, pub RelPtr64<Vec<SsbhString8>>, #[ssbhwrite(pad_after = 2)] pub SsbhString8);
impl Gen for T93 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<Ptr32<Vec<T32>>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <RelPtr64<Vec<SsbhString8>> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhString8 as Gen>::gen(s, d + 1);
        (T93(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 2, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct T94(pub SsbhArray<RelPtr64<Vec<[i16; 3]>>>, #[ssbhwrite(pad_after = 2)] pub i64, pub SsbhEnum64<T79>, pub SsbhArray<RelPtr64<CString<4>>>);
impl Gen for T94 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<RelPtr64<Vec<[i16; 3]>>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i64 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhEnum64<T79> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<RelPtr64<CString<4>>> as Gen>::gen(s, d + 1);
        (T94(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 2, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum T95 {
    V0 { f0: NonZeroU64 },
}
impl Gen for T95 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <NonZeroU64 as Gen>::gen(s, d + 1);
                (T95::V0 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T95 { fn data_type(&self) -> u64 { match self { T95::V0 { .. } => 11 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11)]
pub struct T96(pub NonZeroU32, pub T21, pub SsbhString);
impl Gen for T96 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <NonZeroU32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T21 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhString as Gen>::gen(s, d + 1);
        (T96(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 11, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9)]
pub enum T97 {
    V0 { f0: NonZeroI16 },
    V1 { f0: [SsbhArray<Ptr64<Ptr16<Vec<NonZeroI16>>>>; 1], #[ssbhwrite(pad_after = 6)] f1: Ptr64<SsbhByteBuffer>, #[ssbhwrite(pad_after = 8)] f2: NonZeroU64 },
    V2 { #[ssbhwrite(pad_after = 9)] f0: SsbhArray<i128>, f1: SsbhArray<[T91; 2]> },
}
impl Gen for T97 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <NonZeroI16 as Gen>::gen(s, d + 1);
                (T97::V0 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 9, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <[SsbhArray<Ptr64<Ptr16<Vec<NonZeroI16>>>>; 1] as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Ptr64<SsbhByteBuffer> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <NonZeroU64 as Gen>::gen(s, d + 1);
                (T97::V1 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 6, 0), (nf2, 8, 0)], pad: 0 + 9, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhArray<i128> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<[T91; 2]> as Gen>::gen(s, d + 1);
                (T97::V2 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 9, 0), (nf1, 0, 0)], pad: 0 + 9, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T97 { fn data_type(&self) -> u64 { match self { T97::V0 { .. } => 27, T97::V1 { .. } => 21, T97::V2 { .. } => 26 } } }

#[derive(SsbhWrite)]
pub enum T98 {
    #[ssbhwrite(pad_after = 3)]
    V0(T56),
    V1(#[ssbhwrite(pad_after = 1)] RelPtr64<Vec<SsbhEnum64<T5>>>, SsbhArray<NonZeroU64>),
    V2(RelPtr64<Vec<T91>>, i128),
    V3 { f0: i16, f1: SsbhEnum64<T45> },
}
impl Gen for T98 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <T56 as Gen>::gen(s, d + 1);
                (T98::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 3 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <RelPtr64<Vec<SsbhEnum64<T5>>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<NonZeroU64> as Gen>::gen(s, d + 1);
                (T98::V1(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 1, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <RelPtr64<Vec<T91>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i128 as Gen>::gen(s, d + 1);
                (T98::V2(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <i16 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhEnum64<T45> as Gen>::gen(s, d + 1);
                (T98::V3 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for T98 { fn data_type(&self) -> u64 { match self { T98::V0 { .. } => 37, T98::V1 { .. } => 15, T98::V2 { .. } => 32, T98::V3 { .. } => 13 } } }

#[derive(SsbhWrite)]
pub struct T99 { pub f0: R4, pub f1: T18, pub f2: i16, pub f3: RelPtr64<Vec<RelPtr64<Vec<SsbhString8>>>>, pub f4: SsbhArray<SsbhString8> }
impl Gen for T99 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R4 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <T18 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i16 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <RelPtr64<Vec<RelPtr64<Vec<SsbhString8>>>> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhArray<SsbhString8> as Gen>::gen(s, d + 1);
        (T99 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8, magic = b"CAK")]
pub struct A0(pub i32, pub SsbhArray<SsbhArray<SsbhArray<SsbhArray<i128>>>>, #[ssbhwrite(pad_after = 2)] pub SsbhArray<NonZeroU64>, pub SsbhEnum64<T67>, pub SsbhString);
impl Gen for A0 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<SsbhArray<SsbhArray<SsbhArray<i128>>>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<NonZeroU64> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhEnum64<T67> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhString as Gen>::gen(s, d + 1);
        (A0(f0, f1, f2, f3, f4), Node::Struct { magic: b"CAK", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 2, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 8 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 8, align_after = 2)]
pub struct A1 { pub f0: Vec<NonZeroU32>, #[ssbhwrite(pad_after = 5)] pub f1: f32, #[ssbhwrite(pad_after = 4)] pub f2: RelPtr64<Vec<T59>>, pub f3: NonZeroU64, pub f4: SsbhArray<SsbhArray<SsbhArray<RelPtr64<Vec<f32>>>>> }
impl Gen for A1 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<NonZeroU32> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <f32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <RelPtr64<Vec<T59>> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroU64 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhArray<SsbhArray<SsbhArray<RelPtr64<Vec<f32>>>>> as Gen>::gen(s, d + 1);
        (A1 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 5, 0), (nf2, 4, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 8, align_after: 2 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 32, alignment = 3)]
pub struct A2 { #[ssbhwrite(pad_after = 2)] pub f0: Ptr64<Vec<Ptr64<CString<8>>>>, pub f1: R2, #[ssbhwrite(pad_after = 2)] pub f2: i8 }
impl Gen for A2 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Ptr64<Vec<Ptr64<CString<8>>>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i8 as Gen>::gen(s, d + 1);
        (A2 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 2, 0), (nf1, 0, 0), (nf2, 2, 0)], pad: 0, align_after: 32 })
    }
    fn align() -> u64 { 3 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
pub struct A3 { pub f0: i64, pub f1: Vec<SsbhString>, pub f2: SsbhArray<SsbhArray<SsbhByteBuffer>> }
impl Gen for A3 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Vec<SsbhString> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<SsbhArray<SsbhByteBuffer>> as Gen>::gen(s, d + 1);
        (A3 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 4 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 2)]
pub struct A4 { #[ssbhwrite(pad_after = 8)] pub f0: RelPtr64<SsbhString8> }
impl Gen for A4 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <RelPtr64<SsbhString8> as Gen>::gen(s, d + 1);
        (A4 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 8, 0)], pad: 0, align_after: 2 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 2)]
pub struct A5 { pub f0: SsbhEnum64<T18> }
impl Gen for A5 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhEnum64<T18> as Gen>::gen(s, d + 1);
        (A5 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 2 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8, alignment = 16)]
pub struct A6 { pub f0: SsbhString8, pub f1: SsbhEnum64<T37>, #[ssbhwrite(pad_after = 1)] pub f2: SsbhEnum64<T24> }
impl Gen for A6 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhEnum64<T37> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhEnum64<T24> as Gen>::gen(s, d + 1);
        (A6 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 1, 0)], pad: 0, align_after: 8 })
    }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
pub struct A7(#[ssbhwrite(pad_after = 5)] pub T10, pub i32, pub NonZeroU64, pub RelPtr64<R0>);
impl Gen for A7 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <T10 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <NonZeroU64 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <RelPtr64<R0> as Gen>::gen(s, d + 1);
        (A7(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 5, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 16 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 8, alignment = 12)]
pub struct B0 { pub f0: f32, #[ssbhwrite(pad_after = 3, align_after = 4)] pub f1: NonZeroU64 }
impl Gen for B0 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <f32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU64 as Gen>::gen(s, d + 1);
        (B0 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 3, 4)], pad: 8, align_after: 0 })
    }
    fn align() -> u64 { 12 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1, magic = b"DPHF")]
pub struct B1 { pub f0: u8, pub f1: i128, #[ssbhwrite(align_after = 2)] pub f2: R2, pub f3: R1, #[ssbhwrite(align_after = 16)] pub f4: R2 }
impl Gen for B1 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i128 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <R2 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R1 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <R2 as Gen>::gen(s, d + 1);
        (B1 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"DPHF", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 2), (nf3, 0, 0), (nf4, 0, 16)], pad: 1, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6)]
pub struct B2 { #[ssbhwrite(align_after = 4)] pub f0: NonZeroU64, pub f1: u8, pub f2: i64 }
impl Gen for B2 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <NonZeroU64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i64 as Gen>::gen(s, d + 1);
        (B2 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 4), (nf1, 0, 0), (nf2, 0, 0)], pad: 6, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub struct B3 { #[ssbhwrite(pad_after = 3)] pub f0: NonZeroU64, #[ssbhwrite(align_after = 2)] pub f1: NonZeroU64, #[ssbhwrite(align_after = 2)] pub f2: NonZeroU32, pub f3: NonZeroU64 }
impl Gen for B3 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <NonZeroU64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU64 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <NonZeroU32 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroU64 as Gen>::gen(s, d + 1);
        (B3 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 3, 0), (nf1, 0, 2), (nf2, 0, 2), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
pub struct B4(#[ssbhwrite(align_after = 4)] pub R0, #[ssbhwrite(align_after = 2)] pub R2, #[ssbhwrite(align_after = 2)] pub i16, pub R1, #[ssbhwrite(pad_after = 6)] pub i64);
impl Gen for B4 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R0 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i16 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R1 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <i64 as Gen>::gen(s, d + 1);
        (B4(f0, f1, f2, f3, f4), Node::Struct { magic: b"", parts: vec![(nf0, 0, 4), (nf1, 0, 2), (nf2, 0, 2), (nf3, 0, 0), (nf4, 6, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 32, magic = b"OHABPLB")]
pub struct B5(#[ssbhwrite(align_after = 16)] pub u8, #[ssbhwrite(align_after = 8)] pub i8);
impl Gen for B5 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i8 as Gen>::gen(s, d + 1);
        (B5(f0, f1), Node::Struct { magic: b"OHABPLB", parts: vec![(nf0, 0, 16), (nf1, 0, 8)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 32 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct B6 { pub f0: u8, pub f1: R2, pub f2: u64 }
impl Gen for B6 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u64 as Gen>::gen(s, d + 1);
        (B6 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 12, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct B7 { #[ssbhwrite(align_after = 2)] pub f0: R2, pub f1: f32, #[ssbhwrite(align_after = 16)] pub f2: u16, pub f3: NonZeroU8 }
impl Gen for B7 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R2 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <f32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u16 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroU8 as Gen>::gen(s, d + 1);
        (B7 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 2), (nf1, 0, 0), (nf2, 0, 16), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, alignment = 3)]
pub struct N0(pub Option<NonZeroU64>);
impl Gen for N0 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Option<NonZeroU64> as Gen>::gen(s, d + 1);
        (N0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 3, align_after: 0 })
    }
    fn align() -> u64 { 3 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 5)]
pub struct N1(pub N0, pub NonZeroU8, pub N0, pub R3);
impl Gen for N1 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N0 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <N0 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R3 as Gen>::gen(s, d + 1);
        (N1(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 5 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 5, alignment = 6, magic = b"MFOGA")]
pub struct N2 { #[ssbhwrite(pad_after = 2)] pub f0: RelPtr64<NonZeroU64>, #[ssbhwrite(pad_after = 3)] pub f1: SsbhArray<f32>, pub f2: N0, #[ssbhwrite(pad_after = 1)] pub f3: Option<i32> }
impl Gen for N2 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <RelPtr64<NonZeroU64> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<f32> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <N0 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <Option<i32> as Gen>::gen(s, d + 1);
        (N2 { f0, f1, f2, f3 }, Node::Struct { magic: b"MFOGA", parts: vec![(nf0, 2, 0), (nf1, 3, 0), (nf2, 0, 0), (nf3, 1, 0)], pad: 5, align_after: 0 })
    }
    fn align() -> u64 { 6 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11, alignment = 7)]
pub struct N3(pub u64, pub R2, pub u32, pub NonZeroU8);
impl Gen for N3 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u32 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroU8 as Gen>::gen(s, d + 1);
        (N3(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 11, align_after: 0 })
    }
    fn align() -> u64 { 7 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 9)]
pub struct N4 { pub f0: N0, pub f1: i128, pub f2: SsbhByteBuffer, pub f3: SsbhArray<i16> }
impl Gen for N4 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N0 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i128 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<i16> as Gen>::gen(s, d + 1);
        (N4 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 9 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 12)]
pub struct N5 { pub f0: N0, pub f1: Ptr16<SsbhByteBuffer> }
impl Gen for N5 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N0 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Ptr16<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        (N5 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 12 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 20)]
pub struct N6(pub u64, pub NonZeroU32, pub NonZeroU64, pub NonZeroU64);
impl Gen for N6 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU32 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <NonZeroU64 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroU64 as Gen>::gen(s, d + 1);
        (N6(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 20 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, alignment = 24)]
pub struct N7(#[ssbhwrite(pad_after = 6)] pub u64, pub NonZeroU64, pub R4, pub f64);
impl Gen for N7 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU64 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <R4 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <f64 as Gen>::gen(s, d + 1);
        (N7(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 6, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 3, align_after: 0 })
    }
    fn align() -> u64 { 24 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 48)]
pub struct N8 { pub f0: Vec<SsbhEnum64<T14>>, pub f1: u8, pub f2: SsbhByteBuffer, pub f3: u8 }
impl Gen for N8 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<SsbhEnum64<T14>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f3, nf3) = <u8 as Gen>::gen(s, d + 1);
        (N8 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 48 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 96)]
pub struct N9 { pub f0: R4, pub f1: i16, pub f2: u8 }
impl Gen for N9 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R4 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i16 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u8 as Gen>::gen(s, d + 1);
        (N9 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 96 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 7, alignment = 100)]
pub struct N10 { pub f0: R4, pub f1: NonZeroU64 }
impl Gen for N10 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R4 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <NonZeroU64 as Gen>::gen(s, d + 1);
        (N10 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 7, align_after: 0 })
    }
    fn align() -> u64 { 100 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 128)]
pub struct N11 { pub f0: u16, pub f1: RelPtr64<N4> }
impl Gen for N11 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u16 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<N4> as Gen>::gen(s, d + 1);
        (N11 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 128 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 255, magic = b"JDPH")]
pub struct N12 { pub f0: f32, pub f1: i16, #[ssbhwrite(pad_after = 3)] pub f2: NonZeroU32, pub f3: i16 }
impl Gen for N12 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <f32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i16 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <NonZeroU32 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <i16 as Gen>::gen(s, d + 1);
        (N12 { f0, f1, f2, f3 }, Node::Struct { magic: b"JDPH", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 3, 0), (nf3, 0, 0)], pad: 2, align_after: 0 })
    }
    fn align() -> u64 { 255 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 256)]
pub struct N13 { pub f0: u8, pub f1: u16, pub f2: u32 }
impl Gen for N13 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u16 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u32 as Gen>::gen(s, d + 1);
        (N13 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 256 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11, alignment = 1000)]
pub struct N14 { pub f0: R1, pub f1: RelPtr64<SsbhArray<Ptr64<u128>>>, pub f2: u32, pub f3: u128 }
impl Gen for N14 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R1 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<SsbhArray<Ptr64<u128>>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u32 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <u128 as Gen>::gen(s, d + 1);
        (N14 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 11, align_after: 0 })
    }
    fn align() -> u64 { 1000 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 4096)]
pub struct N15 { pub f0: SsbhString8 }
impl Gen for N15 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString8 as Gen>::gen(s, d + 1);
        (N15 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 4096 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 5, alignment = 8)]
pub enum M0 {
    #[ssbhwrite(pad_after = 1)]
    V0 { f0: N0, #[ssbhwrite(pad_after = 7)] f1: N1, f2: N4 },
    V1 { f0: N13, #[ssbhwrite(pad_after = 1)] f1: N6, f2: SsbhString8 },
}
impl Gen for M0 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <N0 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <N1 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <N4 as Gen>::gen(s, d + 1);
                (M0::V0 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 7, 0), (nf2, 0, 0)], pad: 1 + 5, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <N13 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <N6 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhString8 as Gen>::gen(s, d + 1);
                (M0::V1 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 1, 0), (nf2, 0, 0)], pad: 0 + 5, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 8 }
}
impl ssbh_lib::DataType for M0 { fn data_type(&self) -> u64 { match self { M0::V0 { .. } => 20, M0::V1 { .. } => 2 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct M1(pub u128, #[ssbhwrite(pad_after = 9)] pub i8, #[ssbhwrite(pad_after = 8)] pub f64, pub SsbhArray<N10>, pub RelPtr64<[NonZeroU64; 4]>, pub SsbhByteBuffer);
impl Gen for M1 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <f64 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<N10> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <RelPtr64<[NonZeroU64; 4]> as Gen>::gen(s, d + 1);
        let (f5, nf5) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        (M1(f0, f1, f2, f3, f4, f5), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 9, 0), (nf2, 8, 0), (nf3, 0, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 12, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 10, alignment = 64)]
pub struct M2 { pub f0: R1, pub f1: R4, pub f2: RelPtr64<CString<8>>, #[ssbhwrite(pad_after = 4)] pub f3: R0, pub f4: () }
impl Gen for M2 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R1 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R4 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <RelPtr64<CString<8>> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R0 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <() as Gen>::gen(s, d + 1);
        (M2 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 4, 0), (nf4, 0, 0)], pad: 10, align_after: 0 })
    }
    fn align() -> u64 { 64 }
}

#[derive(SsbhWrite)]
pub enum M3 {
    V0(f32),
    V1(#[ssbhwrite(pad_after = 3)] u128, SsbhByteBuffer, #[ssbhwrite(pad_after = 2)] SsbhArray<SsbhByteBuffer>),
    #[ssbhwrite(pad_after = 2)]
    V2 { #[ssbhwrite(pad_after = 4)] f0: N9, f1: SsbhString, f2: N4 },
}
impl Gen for M3 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <f32 as Gen>::gen(s, d + 1);
                (M3::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhArray<SsbhByteBuffer> as Gen>::gen(s, d + 1);
                (M3::V1(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 3, 0), (nf1, 0, 0), (nf2, 2, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <N9 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhString as Gen>::gen(s, d + 1);
                let (f2, nf2) = <N4 as Gen>::gen(s, d + 1);
                (M3::V2 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 4, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 2 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for M3 { fn data_type(&self) -> u64 { match self { M3::V0 { .. } => 15, M3::V1 { .. } => 22, M3::V2 { .. } => 25 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"OAH")]
pub struct M4 { pub f0: SsbhString, #[ssbhwrite(pad_after = 7)] pub f1: R4, #[ssbhwrite(pad_after = 6)] pub f2: NonZeroU64 }
impl Gen for M4 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R4 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <NonZeroU64 as Gen>::gen(s, d + 1);
        (M4 { f0, f1, f2 }, Node::Struct { magic: b"OAH", parts: vec![(nf0, 0, 0), (nf1, 7, 0), (nf2, 6, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct M5 { pub f0: u128, pub f1: R3, pub f2: Option<u128>, pub f3: R0 }
impl Gen for M5 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R3 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <Option<u128> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R0 as Gen>::gen(s, d + 1);
        (M5 { f0, f1, f2, f3 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum M6 {
    V0(Ptr32<N9>),
    V1 { f0: SsbhArray<RelPtr64<R1>> },
    V2(R1),
    V3 { #[ssbhwrite(pad_after = 5)] f0: SsbhString8 },
}
impl Gen for M6 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <Ptr32<N9> as Gen>::gen(s, d + 1);
                (M6::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhArray<RelPtr64<R1>> as Gen>::gen(s, d + 1);
                (M6::V1 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <R1 as Gen>::gen(s, d + 1);
                (M6::V2(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhString8 as Gen>::gen(s, d + 1);
                (M6::V3 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 5, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for M6 { fn data_type(&self) -> u64 { match self { M6::V0 { .. } => 29, M6::V1 { .. } => 15, M6::V2 { .. } => 31, M6::V3 { .. } => 3 } } }

#[derive(SsbhWrite)]
pub struct M7(pub Vec<SsbhArray<N10>>, pub SsbhByteBuffer, pub NonZeroU32);
impl Gen for M7 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<SsbhArray<N10>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f2, nf2) = <NonZeroU32 as Gen>::gen(s, d + 1);
        (M7(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub struct M8 { pub f0: i32, pub f1: Ptr32<[Ptr16<RelPtr64<R4>>; 2]>, pub f2: SsbhString, pub f3: i16, #[ssbhwrite(pad_after = 3)] pub f4: N9, #[ssbhwrite(pad_after = 1)] pub f5: R0 }
impl Gen for M8 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Ptr32<[Ptr16<RelPtr64<R4>>; 2]> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhString as Gen>::gen(s, d + 1);
        let (f3, nf3) = <i16 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <N9 as Gen>::gen(s, d + 1);
        let (f5, nf5) = <R0 as Gen>::gen(s, d + 1);
        (M8 { f0, f1, f2, f3, f4, f5 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 3, 0), (nf5, 1, 0)], pad: 2, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum M9 {
    V0 { f0: N3, f1: RelPtr64<[i32; 3]>, f2: N13 },
    V1(SsbhString),
    V2 { f0: NonZeroU32, f1: i32, f2: R0 },
    #[ssbhwrite(pad_after = 2)]
    V3 { f0: SsbhByteBuffer, f1: SsbhEnum64<M6>, f2: i16 },
}
impl Gen for M9 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <N3 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <RelPtr64<[i32; 3]> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <N13 as Gen>::gen(s, d + 1);
                (M9::V0 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
                (M9::V1(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <NonZeroU32 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i32 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <R0 as Gen>::gen(s, d + 1);
                (M9::V2 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhEnum64<M6> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <i16 as Gen>::gen(s, d + 1);
                (M9::V3 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 2 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for M9 { fn data_type(&self) -> u64 { match self { M9::V0 { .. } => 6, M9::V1 { .. } => 15, M9::V2 { .. } => 9, M9::V3 { .. } => 37 } } }

#[derive(SsbhWrite)]
pub struct M10(pub N2, pub SsbhString, pub i64, #[ssbhwrite(pad_after = 6)] pub SsbhString, pub u128, pub R4);
impl Gen for M10 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N2 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhString as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i64 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhString as Gen>::gen(s, d + 1);
        let (f4, nf4) = <u128 as Gen>::gen(s, d + 1);
        let (f5, nf5) = <R4 as Gen>::gen(s, d + 1);
        (M10(f0, f1, f2, f3, f4, f5), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 6, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct M11(pub u16, pub R4);
impl Gen for M11 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u16 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R4 as Gen>::gen(s, d + 1);
        (M11(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"BIOHDC")]
pub enum M12 {
    V0 { #[ssbhwrite(pad_after = 7)] f0: NonZeroU32, f1: SsbhByteBuffer, #[ssbhwrite(pad_after = 6)] f2: u64 },
}
impl Gen for M12 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(1) {
            _ => {
                let (f0, nf0) = <NonZeroU32 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                let (f2, nf2) = <u64 as Gen>::gen(s, d + 1);
                (M12::V0 { f0, f1, f2 }, Node::Struct { magic: b"BIOHDC", parts: vec![(nf0, 7, 0), (nf1, 0, 0), (nf2, 6, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for M12 { fn data_type(&self) -> u64 { match self { M12::V0 { .. } => 16 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct M13 { pub f0: () }
impl Gen for M13 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <() as Gen>::gen(s, d + 1);
        (M13 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 12, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct M14(pub i32, pub RelPtr64<SsbhEnum64<T86>>, pub [SsbhString; 1], pub u64);
impl Gen for M14 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<SsbhEnum64<T86>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <[SsbhString; 1] as Gen>::gen(s, d + 1);
        let (f3, nf3) = <u64 as Gen>::gen(s, d + 1);
        (M14(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11)]
pub enum M15 {
    #[ssbhwrite(pad_after = 4)]
    V0 { #[ssbhwrite(pad_after = 4)] f0: RelPtr64<Vec<N10>> },
    #[ssbhwrite(pad_after = 1)]
    V1(SsbhArray<NonZeroU8>, i32),
    V2 { f0: SsbhArray<R4>, f1: Ptr16<Vec<SsbhString8>> },
    #[ssbhwrite(pad_after = 4)]
    V3 { f0: SsbhArray<u64> },
}
impl Gen for M15 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <RelPtr64<Vec<N10>> as Gen>::gen(s, d + 1);
                (M15::V0 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 4, 0)], pad: 4 + 11, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhArray<NonZeroU8> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i32 as Gen>::gen(s, d + 1);
                (M15::V1(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 1 + 11, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <SsbhArray<R4> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Ptr16<Vec<SsbhString8>> as Gen>::gen(s, d + 1);
                (M15::V2 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 11, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhArray<u64> as Gen>::gen(s, d + 1);
                (M15::V3 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 4 + 11, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for M15 { fn data_type(&self) -> u64 { match self { M15::V0 { .. } => 7, M15::V1 { .. } => 31, M15::V2 { .. } => 9, M15::V3 { .. } => 30 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9, alignment = 12)]
pub struct M16(pub R3, pub Ptr32<SsbhByteBuffer>, pub SsbhArray<SsbhArray<RelPtr64<u64>>>, pub R1, pub SsbhByteBuffer, pub u32);
impl Gen for M16 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R3 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Ptr32<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhArray<SsbhArray<RelPtr64<u64>>> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R1 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f5, nf5) = <u32 as Gen>::gen(s, d + 1);
        (M16(f0, f1, f2, f3, f4, f5), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0), (nf5, 0, 0)], pad: 9, align_after: 0 })
    }
    fn align() -> u64 { 12 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 10, alignment = 1)]
pub struct M17(pub Vec<u128>, pub i8, pub SsbhEnum64<T79>);
impl Gen for M17 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<u128> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhEnum64<T79> as Gen>::gen(s, d + 1);
        (M17(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 10, align_after: 0 })
    }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6, alignment = 2)]
pub enum M18 {
    V0([u16; 2], R1, SsbhString8),
    V1 { f0: SsbhArray<SsbhByteBuffer> },
    V2(SsbhString, #[ssbhwrite(pad_after = 4)] NonZeroU32),
    V3(R2),
}
impl Gen for M18 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <[u16; 2] as Gen>::gen(s, d + 1);
                let (f1, nf1) = <R1 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhString8 as Gen>::gen(s, d + 1);
                (M18::V0(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 6, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhArray<SsbhByteBuffer> as Gen>::gen(s, d + 1);
                (M18::V1 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 6, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
                let (f1, nf1) = <NonZeroU32 as Gen>::gen(s, d + 1);
                (M18::V2(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 4, 0)], pad: 0 + 6, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <R2 as Gen>::gen(s, d + 1);
                (M18::V3(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 6, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 2 }
}
impl ssbh_lib::DataType for M18 { fn data_type(&self) -> u64 { match self { M18::V0 { .. } => 20, M18::V1 { .. } => 37, M18::V2 { .. } => 14, M18::V3 { .. } => 35 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub struct M19 { pub f0: SsbhArray<u128>, pub f1: SsbhEnum64<T1>, #[ssbhwrite(pad_after = 9)] pub f2: i16, pub f3: [i64; 3], pub f4: NonZeroU64 }
impl Gen for M19 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<u128> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhEnum64<T1> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <i16 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <[i64; 3] as Gen>::gen(s, d + 1);
        let (f4, nf4) = <NonZeroU64 as Gen>::gen(s, d + 1);
        (M19 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 9, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 8 }
}

#[derive(SsbhWrite)]
pub struct M20 { pub f0: f32, pub f1: RelPtr64<R1>, pub f2: SsbhEnum64<M15>, #[ssbhwrite(pad_after = 4)] pub f3: R3, pub f4: N2 }
impl Gen for M20 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <f32 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <RelPtr64<R1> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhEnum64<M15> as Gen>::gen(s, d + 1);
        let (f3, nf3) = <R3 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <N2 as Gen>::gen(s, d + 1);
        (M20 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 4, 0), (nf4, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 9)]
pub enum M21 {
    #[ssbhwrite(pad_after = 1)]
    V0(Vec<N10>, SsbhString),
    V1(u128, u32),
    V2(SsbhArray<N14>, #[ssbhwrite(pad_after = 4)] RelPtr64<[R3; 2]>),
    V3(#[ssbhwrite(pad_after = 9)] R0, #[ssbhwrite(pad_after = 6)] RelPtr64<SsbhEnum64<T67>>, SsbhArray<f64>),
}
impl Gen for M21 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <Vec<N10> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhString as Gen>::gen(s, d + 1);
                (M21::V0(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 1 + 9, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <u32 as Gen>::gen(s, d + 1);
                (M21::V1(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 9, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <SsbhArray<N14> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <RelPtr64<[R3; 2]> as Gen>::gen(s, d + 1);
                (M21::V2(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 4, 0)], pad: 0 + 9, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <R0 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <RelPtr64<SsbhEnum64<T67>> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhArray<f64> as Gen>::gen(s, d + 1);
                (M21::V3(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 9, 0), (nf1, 6, 0), (nf2, 0, 0)], pad: 0 + 9, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for M21 { fn data_type(&self) -> u64 { match self { M21::V0 { .. } => 30, M21::V1 { .. } => 26, M21::V2 { .. } => 29, M21::V3 { .. } => 23 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 10)]
pub struct M22(pub SsbhString);
impl Gen for M22 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
        (M22(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 10, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub struct M23 { #[ssbhwrite(pad_after = 7)] pub f0: N1, #[ssbhwrite(pad_after = 4)] pub f1: Ptr64<RelPtr64<CString<8>>> }
impl Gen for M23 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N1 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Ptr64<RelPtr64<CString<8>>> as Gen>::gen(s, d + 1);
        (M23 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 7, 0), (nf1, 4, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 64)]
pub struct P0 { pub f0: N8, pub f1: SsbhString8 }
impl Gen for P0 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N8 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhString8 as Gen>::gen(s, d + 1);
        (P0 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 64 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 3, magic = b"NKDDD")]
pub struct P1 { pub f0: Vec<RelPtr64<Vec<RelPtr64<CString<8>>>>> }
impl Gen for P1 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Vec<RelPtr64<Vec<RelPtr64<CString<8>>>>> as Gen>::gen(s, d + 1);
        (P1 { f0 }, Node::Struct { magic: b"NKDDD", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 3 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6, align_after = 5, alignment = 4)]
pub struct P2 { #[ssbhwrite(pad_after = 9)] pub f0: SsbhArray<Ptr32<SsbhArray<SsbhByteBuffer>>>, pub f1: SsbhByteBuffer }
impl Gen for P2 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<Ptr32<SsbhArray<SsbhByteBuffer>>> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        (P2 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 9, 0), (nf1, 0, 0)], pad: 6, align_after: 5 })
    }
    fn align() -> u64 { 4 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 256)]
pub struct P3 { pub f0: u64 }
impl Gen for P3 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <u64 as Gen>::gen(s, d + 1);
        (P3 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 256 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 100, alignment = 12)]
pub struct P4 { pub f0: SsbhArray<SsbhByteBuffer>, pub f1: N5, pub f2: SsbhByteBuffer, pub f3: SsbhArray<f32>, pub f4: SsbhString8 }
impl Gen for P4 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhArray<SsbhByteBuffer> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <N5 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
        let (f3, nf3) = <SsbhArray<f32> as Gen>::gen(s, d + 1);
        let (f4, nf4) = <SsbhString8 as Gen>::gen(s, d + 1);
        (P4 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 100 })
    }
    fn align() -> u64 { 12 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 64, alignment = 4)]
pub struct P5 { pub f0: R3, pub f1: R0 }
impl Gen for P5 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R3 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <R0 as Gen>::gen(s, d + 1);
        (P5 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 64 })
    }
    fn align() -> u64 { 4 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 11, align_after = 5)]
pub struct P6(pub i8);
impl Gen for P6 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <i8 as Gen>::gen(s, d + 1);
        (P6(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 11, align_after: 5 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 64, alignment = 12)]
pub struct P7 { pub f0: SsbhEnum64<T98>, pub f1: u8, pub f2: N1, pub f3: f32, pub f4: Vec<SsbhArray<SsbhArray<SsbhArray<i8>>>> }
impl Gen for P7 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhEnum64<T98> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <u8 as Gen>::gen(s, d + 1);
        let (f2, nf2) = <N1 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <f32 as Gen>::gen(s, d + 1);
        let (f4, nf4) = <Vec<SsbhArray<SsbhArray<SsbhArray<i8>>>> as Gen>::gen(s, d + 1);
        (P7 { f0, f1, f2, f3, f4 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0), (nf4, 0, 0)], pad: 0, align_after: 64 })
    }
    fn align() -> u64 { 12 }
}

#[derive(SsbhWrite)]
pub enum Q0 {
    #[ssbhwrite(pad_after = 255)]
    V0 { f0: RelPtr64<SsbhEnum64<T24>>, f1: SsbhEnum64<M15> },
    V1((), Ptr64<[i16; 4]>),
}
impl Gen for Q0 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <RelPtr64<SsbhEnum64<T24>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhEnum64<M15> as Gen>::gen(s, d + 1);
                (Q0::V0 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 255 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <() as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Ptr64<[i16; 4]> as Gen>::gen(s, d + 1);
                (Q0::V1(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q0 { fn data_type(&self) -> u64 { match self { Q0::V0 { .. } => 33, Q0::V1 { .. } => 39 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub struct Q1 { pub f0: N7, pub f1: i64 }
impl Gen for Q1 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N7 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <i64 as Gen>::gen(s, d + 1);
        (Q1 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 2 }
}

#[derive(SsbhWrite)]
pub enum Q2 {
    #[ssbhwrite(pad_after = 5)]
    V0(NonZeroU8),
    #[ssbhwrite(pad_after = 17)]
    V1(Vec<RelPtr64<CString<8>>>),
}
impl Gen for Q2 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <NonZeroU8 as Gen>::gen(s, d + 1);
                (Q2::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 5 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <Vec<RelPtr64<CString<8>>> as Gen>::gen(s, d + 1);
                (Q2::V1(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 17 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q2 { fn data_type(&self) -> u64 { match self { Q2::V0 { .. } => 22, Q2::V1 { .. } => 18 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 64, alignment = 3)]
pub struct Q3 { #[ssbhwrite(pad_after = 128)] pub f0: SsbhEnum64<T79> }
impl Gen for Q3 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhEnum64<T79> as Gen>::gen(s, d + 1);
        (Q3 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 128, 0)], pad: 64, align_after: 0 })
    }
    fn align() -> u64 { 3 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub enum Q4 {
    #[ssbhwrite(pad_after = 6)]
    V0(u128),
    #[ssbhwrite(pad_after = 2)]
    V1 { #[ssbhwrite(pad_after = 128)] f0: Q3, f1: R2 },
    V2 { #[ssbhwrite(pad_after = 1)] f0: SsbhEnum64<T79> },
}
impl Gen for Q4 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <u128 as Gen>::gen(s, d + 1);
                (Q4::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 6 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <Q3 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <R2 as Gen>::gen(s, d + 1);
                (Q4::V1 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 128, 0), (nf1, 0, 0)], pad: 2 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhEnum64<T79> as Gen>::gen(s, d + 1);
                (Q4::V2 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 1, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 8 }
}
impl ssbh_lib::DataType for Q4 { fn data_type(&self) -> u64 { match self { Q4::V0 { .. } => 35, Q4::V1 { .. } => 27, Q4::V2 { .. } => 14 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub struct Q5 { pub f0: Ptr64<NonZeroU32>, pub f1: SsbhArray<Q3> }
impl Gen for Q5 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Ptr64<NonZeroU32> as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<Q3> as Gen>::gen(s, d + 1);
        (Q5 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"LDGFGEIBJAPPBJLLOOJANCAL")]
pub enum Q6 {
    #[ssbhwrite(pad_after = 4)]
    V0(SsbhArray<RelPtr64<SsbhArray<Ptr64<NonZeroU8>>>>, Vec<[u128; 2]>),
    V1 { #[ssbhwrite(pad_after = 100)] f0: RelPtr64<NonZeroU8>, f1: N7 },
}
impl Gen for Q6 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <SsbhArray<RelPtr64<SsbhArray<Ptr64<NonZeroU8>>>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Vec<[u128; 2]> as Gen>::gen(s, d + 1);
                (Q6::V0(f0, f1), Node::Struct { magic: b"LDGFGEIBJAPPBJLLOOJANCAL", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 4 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <RelPtr64<NonZeroU8> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <N7 as Gen>::gen(s, d + 1);
                (Q6::V1 { f0, f1 }, Node::Struct { magic: b"LDGFGEIBJAPPBJLLOOJANCAL", parts: vec![(nf0, 100, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q6 { fn data_type(&self) -> u64 { match self { Q6::V0 { .. } => 38, Q6::V1 { .. } => 22 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 64, magic = b"MLKGNPFIPE")]
pub struct Q7(pub SsbhEnum64<M6>);
impl Gen for Q7 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhEnum64<M6> as Gen>::gen(s, d + 1);
        (Q7(f0), Node::Struct { magic: b"MLKGNPFIPE", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 64 }
}

#[derive(SsbhWrite)]
pub enum Q8 {
    V0 { f0: SsbhEnum64<M21>, f1: SsbhArray<N10> },
    #[ssbhwrite(pad_after = 17)]
    V1(RelPtr64<Q4>),
    #[ssbhwrite(pad_after = 5)]
    V2 { f0: SsbhByteBuffer, f1: [SsbhArray<RelPtr64<Vec<NonZeroU64>>>; 4], f2: RelPtr64<CString<1>> },
    V3(N4),
}
impl Gen for Q8 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <SsbhEnum64<M21> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<N10> as Gen>::gen(s, d + 1);
                (Q8::V0 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <RelPtr64<Q4> as Gen>::gen(s, d + 1);
                (Q8::V1(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 17 + 0, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                let (f1, nf1) = <[SsbhArray<RelPtr64<Vec<NonZeroU64>>>; 4] as Gen>::gen(s, d + 1);
                let (f2, nf2) = <RelPtr64<CString<1>> as Gen>::gen(s, d + 1);
                (Q8::V2 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 5 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <N4 as Gen>::gen(s, d + 1);
                (Q8::V3(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q8 { fn data_type(&self) -> u64 { match self { Q8::V0 { .. } => 23, Q8::V1 { .. } => 28, Q8::V2 { .. } => 16, Q8::V3 { .. } => 5 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 64, magic = b"CJKILOILBCIILKPHBHJMB")]
pub struct Q9 { pub f0: N12, pub f1: f32 }
impl Gen for Q9 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N12 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <f32 as Gen>::gen(s, d + 1);
        (Q9 { f0, f1 }, Node::Struct { magic: b"CJKILOILBCIILKPHBHJMB", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 64, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum Q10 {
    #[ssbhwrite(pad_after = 2)]
    V0(i16),
    V1(SsbhArray<RelPtr64<R2>>, SsbhByteBuffer, #[ssbhwrite(pad_after = 5)] N9),
    #[ssbhwrite(pad_after = 17)]
    V2(i16, SsbhString, N12),
}
impl Gen for Q10 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <i16 as Gen>::gen(s, d + 1);
                (Q10::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 2 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhArray<RelPtr64<R2>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                let (f2, nf2) = <N9 as Gen>::gen(s, d + 1);
                (Q10::V1(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 5, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <i16 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhString as Gen>::gen(s, d + 1);
                let (f2, nf2) = <N12 as Gen>::gen(s, d + 1);
                (Q10::V2(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 17 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q10 { fn data_type(&self) -> u64 { match self { Q10::V0 { .. } => 25, Q10::V1 { .. } => 36, Q10::V2 { .. } => 20 } } }

#[derive(SsbhWrite)]
pub struct Q11(pub R4, pub Vec<SsbhEnum64<Q4>>, #[ssbhwrite(pad_after = 256)] pub ());
impl Gen for Q11 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <R4 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Vec<SsbhEnum64<Q4>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <() as Gen>::gen(s, d + 1);
        (Q11(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 256, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 256, alignment = 4)]
pub enum Q12 {
    #[ssbhwrite(pad_after = 31)]
    V0(i64, i8, Q8),
    V1 { f0: Ptr16<Vec<SsbhArray<Q7>>>, f1: SsbhArray<[SsbhByteBuffer; 4]>, f2: NonZeroU32 },
}
impl Gen for Q12 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <i64 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i8 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <Q8 as Gen>::gen(s, d + 1);
                (Q12::V0(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 31 + 256, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <Ptr16<Vec<SsbhArray<Q7>>> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <SsbhArray<[SsbhByteBuffer; 4]> as Gen>::gen(s, d + 1);
                let (f2, nf2) = <NonZeroU32 as Gen>::gen(s, d + 1);
                (Q12::V1 { f0, f1, f2 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 0 + 256, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { 4 }
}
impl ssbh_lib::DataType for Q12 { fn data_type(&self) -> u64 { match self { Q12::V0 { .. } => 2, Q12::V1 { .. } => 17 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 64)]
pub struct Q13(pub f64, #[ssbhwrite(pad_after = 9)] pub Ptr32<Vec<SsbhArray<SsbhArray<R2>>>>, pub u8, pub NonZeroU32);
impl Gen for Q13 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <f64 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <Ptr32<Vec<SsbhArray<SsbhArray<R2>>>> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u8 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <NonZeroU32 as Gen>::gen(s, d + 1);
        (Q13(f0, f1, f2, f3), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 9, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { 64 }
}

#[derive(SsbhWrite)]
pub enum Q14 {
    V0(N11, #[ssbhwrite(pad_after = 129)] N4),
    #[ssbhwrite(pad_after = 5)]
    V1(SsbhEnum64<Q0>, R4, ()),
    #[ssbhwrite(pad_after = 5)]
    V2 { f0: SsbhString },
}
impl Gen for Q14 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(3) {
            0 => {
                let (f0, nf0) = <N11 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <N4 as Gen>::gen(s, d + 1);
                (Q14::V0(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 129, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhEnum64<Q0> as Gen>::gen(s, d + 1);
                let (f1, nf1) = <R4 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <() as Gen>::gen(s, d + 1);
                (Q14::V1(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 5 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
                (Q14::V2 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 5 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q14 { fn data_type(&self) -> u64 { match self { Q14::V0 { .. } => 39, Q14::V1 { .. } => 7, Q14::V2 { .. } => 25 } } }

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"HNOIOGJNHHCOHPNOGJEIAPJDINMELNGLNMOLIDCF")]
pub struct Q15(pub Q0, pub SsbhArray<N15>, pub u64, pub [Ptr64<Vec<i16>>; 2]);
impl Gen for Q15 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <Q0 as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<N15> as Gen>::gen(s, d + 1);
        let (f2, nf2) = <u64 as Gen>::gen(s, d + 1);
        let (f3, nf3) = <[Ptr64<Vec<i16>>; 2] as Gen>::gen(s, d + 1);
        (Q15(f0, f1, f2, f3), Node::Struct { magic: b"HNOIOGJNHHCOHPNOGJEIAPJDINMELNGLNMOLIDCF", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0), (nf3, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum Q16 {
    V0(u8),
    #[ssbhwrite(pad_after = 4)]
    V1([[Q13; 2]; 4], i64, SsbhString),
}
impl Gen for Q16 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(2) {
            0 => {
                let (f0, nf0) = <u8 as Gen>::gen(s, d + 1);
                (Q16::V0(f0), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <[[Q13; 2]; 4] as Gen>::gen(s, d + 1);
                let (f1, nf1) = <i64 as Gen>::gen(s, d + 1);
                let (f2, nf2) = <SsbhString as Gen>::gen(s, d + 1);
                (Q16::V1(f0, f1, f2), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0), (nf2, 0, 0)], pad: 4 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q16 { fn data_type(&self) -> u64 { match self { Q16::V0 { .. } => 22, Q16::V1 { .. } => 31 } } }

#[derive(SsbhWrite)]
pub struct Q17 { pub f0: N9 }
impl Gen for Q17 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <N9 as Gen>::gen(s, d + 1);
        (Q17 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
pub enum Q18 {
    V0 { f0: SsbhString8 },
    V1(SsbhByteBuffer, Ptr64<i32>),
    #[ssbhwrite(pad_after = 3)]
    V2(#[ssbhwrite(pad_after = 255)] SsbhString8),
    V3 { f0: NonZeroU8, #[ssbhwrite(pad_after = 31)] f1: NonZeroU32 },
}
impl Gen for Q18 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        match s.below(4) {
            0 => {
                let (f0, nf0) = <SsbhString8 as Gen>::gen(s, d + 1);
                (Q18::V0 { f0 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            1 => {
                let (f0, nf0) = <SsbhByteBuffer as Gen>::gen(s, d + 1);
                let (f1, nf1) = <Ptr64<i32> as Gen>::gen(s, d + 1);
                (Q18::V1(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0 + 0, align_after: 0 })
            }
            2 => {
                let (f0, nf0) = <SsbhString8 as Gen>::gen(s, d + 1);
                (Q18::V2(f0), Node::Struct { magic: b"", parts: vec![(nf0, 255, 0)], pad: 3 + 0, align_after: 0 })
            }
            _ => {
                let (f0, nf0) = <NonZeroU8 as Gen>::gen(s, d + 1);
                let (f1, nf1) = <NonZeroU32 as Gen>::gen(s, d + 1);
                (Q18::V3 { f0, f1 }, Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 31, 0)], pad: 0 + 0, align_after: 0 })
            }
        }
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}
impl ssbh_lib::DataType for Q18 { fn data_type(&self) -> u64 { match self { Q18::V0 { .. } => 11, Q18::V1 { .. } => 25, Q18::V2 { .. } => 10, Q18::V3 { .. } => 37 } } }

#[derive(SsbhWrite)]
pub struct Q19(pub SsbhString, pub SsbhArray<Q1>);
impl Gen for Q19 {
    fn gen(s: &mut Src, d: u32) -> (Self, Node) {
        let (f0, nf0) = <SsbhString as Gen>::gen(s, d + 1);
        let (f1, nf1) = <SsbhArray<Q1> as Gen>::gen(s, d + 1);
        (Q19(f0, f1), Node::Struct { magic: b"", parts: vec![(nf0, 0, 0), (nf1, 0, 0)], pad: 0, align_after: 0 })
    }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

pub const ROOTS: &[(&str, fn(&mut crate::engine::Ctx) -> crate::engine::R)] = &[
    ("R0", check::<R0>),
    ("R1", check::<R1>),
    ("R2", check::<R2>),
    ("R3", check::<R3>),
    ("R4", check::<R4>),
    ("T0", check::<T0>),
    ("T1", check::<T1>),
    ("T2", check::<T2>),
    ("T3", check::<T3>),
    ("T4", check::<T4>),
    ("T5", check::<T5>),
    ("T6", check::<T6>),
    ("T7", check::<T7>),
    ("T8", check::<T8>),
    ("T9", check::<T9>),
    ("T10", check::<T10>),
    ("T11", check::<T11>),
    ("T12", check::<T12>),
    ("T13", check::<T13>),
    ("T14", check::<T14>),
    ("T15", check::<T15>),
    ("T16", check::<T16>),
    ("T17", check::<T17>),
    ("T18", check::<T18>),
    ("T19", check::<T19>),
    ("T20", check::<T20>),
    ("T21", check::<T21>),
    ("T22", check::<T22>),
    ("T23", check::<T23>),
    ("T24", check::<T24>),
    ("T25", check::<T25>),
    ("T26", check::<T26>),
    ("T27", check::<T27>),
    ("T28", check::<T28>),
    ("T29", check::<T29>),
    ("T30", check::<T30>),
    ("T31", check::<T31>),
    ("T32", check::<T32>),
    ("T33", check::<T33>),
    ("T34", check::<T34>),
    ("T35", check::<T35>),
    ("T36", check::<T36>),
    ("T37", check::<T37>),
    ("T38", check::<T38>),
    ("T39", check::<T39>),
    ("T40", check::<T40>),
    ("T41", check::<T41>),
    ("T42", check::<T42>),
    ("T43", check::<T43>),
    ("T44", check::<T44>),
    ("T45", check::<T45>),
    ("T46", check::<T46>),
    ("T47", check::<T47>),
    ("T48", check::<T48>),
    ("T49", check::<T49>),
    ("T50", check::<T50>),
    ("T51", check::<T51>),
    ("T52", check::<T52>),
    ("T53", check::<T53>),
    ("T54", check::<T54>),
    ("T55", check::<T55>),
    ("T56", check::<T56>),
    ("T57", check::<T57>),
    ("T58", check::<T58>),
    ("T59", check::<T59>),
    ("T60", check::<T60>),
    ("T61", check::<T61>),
    ("T62", check::<T62>),
    ("T63", check::<T63>),
    ("T64", check::<T64>),
    ("T65", check::<T65>),
    ("T66", check::<T66>),
    ("T67", check::<T67>),
    ("T68", check::<T68>),
    ("T69", check::<T69>),
    ("T70", check::<T70>),
    ("T71", check::<T71>),
    ("T72", check::<T72>),
    ("T73", check::<T73>),
    ("T74", check::<T74>),
    ("T75", check::<T75>),
    ("T76", check::<T76>),
    ("T77", check::<T77>),
    ("T78", check::<T78>),
    ("T79", check::<T79>),
    ("T80", check::<T80>),
    ("T81", check::<T81>),
    ("T82", check::<T82>),
    ("T83", check::<T83>),
    ("T84", check::<T84>),
    ("T85", check::<T85>),
    ("T86", check::<T86>),
    ("T87", check::<T87>),
    ("T88", check::<T88>),
    ("T89", check::<T89>),
    ("T90", check::<T90>),
    ("T91", check::<T91>),
    ("T92", check::<T92>),
    ("T93", check::<T93>),
    ("T94", check::<T94>),
    ("T95", check::<T95>),
    ("T96", check::<T96>),
    ("T97", check::<T97>),
    ("T98", check::<T98>),
    ("T99", check::<T99>),
    ("A0", check::<A0>),
    ("A1", check::<A1>),
    ("A2", check::<A2>),
    ("A3", check::<A3>),
    ("A4", check::<A4>),
    ("A5", check::<A5>),
    ("A6", check::<A6>),
    ("A7", check::<A7>),
    ("B0", check::<B0>),
    ("B1", check::<B1>),
    ("B2", check::<B2>),
    ("B3", check::<B3>),
    ("B4", check::<B4>),
    ("B5", check::<B5>),
    ("B6", check::<B6>),
    ("B7", check::<B7>),
    ("Pair<T37, T83>", check::<Pair<T37, T83>>),
    ("Pair<T55, T1>", check::<Pair<T55, T1>>),
    ("Pair<T90, T75>", check::<Pair<T90, T75>>),
    ("Pair<T75, T12>", check::<Pair<T75, T12>>),
    ("Pair<T79, T64>", check::<Pair<T79, T64>>),
    ("Pair<T85, T89>", check::<Pair<T85, T89>>),
    ("Pair<u8, SsbhString>", check::<Pair<u8, SsbhString>>),
    ("Pair<Pair<u16, u8>, Pair<u8, RelPtr64<u64>>>", check::<Pair<Pair<u16, u8>, Pair<u8, RelPtr64<u64>>>>),
    ("Boxed<u8>", check::<Boxed<u8>>),
    ("Boxed<Boxed<u16>>", check::<Boxed<Boxed<u16>>>),
    ("Boxed<T86>", check::<Boxed<T86>>),
    ("Boxed<T57>", check::<Boxed<T57>>),
    ("Boxed<T29>", check::<Boxed<T29>>),
    ("Boxed<T90>", check::<Boxed<T90>>),
    ("N0", check::<N0>),
    ("Boxed<N0>", check::<Boxed<N0>>),
    ("N1", check::<N1>),
    ("Boxed<N1>", check::<Boxed<N1>>),
    ("N2", check::<N2>),
    ("Boxed<N2>", check::<Boxed<N2>>),
    ("N3", check::<N3>),
    ("Boxed<N3>", check::<Boxed<N3>>),
    ("Pair<SsbhArray<N3>, RelPtr64<N3>>", check::<Pair<SsbhArray<N3>, RelPtr64<N3>>>),
    ("N4", check::<N4>),
    ("Boxed<N4>", check::<Boxed<N4>>),
    ("N5", check::<N5>),
    ("Boxed<N5>", check::<Boxed<N5>>),
    ("N6", check::<N6>),
    ("Boxed<N6>", check::<Boxed<N6>>),
    ("Pair<SsbhArray<N6>, RelPtr64<N6>>", check::<Pair<SsbhArray<N6>, RelPtr64<N6>>>),
    ("N7", check::<N7>),
    ("Boxed<N7>", check::<Boxed<N7>>),
    ("Pair<SsbhArray<N7>, RelPtr64<N7>>", check::<Pair<SsbhArray<N7>, RelPtr64<N7>>>),
    ("N8", check::<N8>),
    ("Boxed<N8>", check::<Boxed<N8>>),
    ("N9", check::<N9>),
    ("Boxed<N9>", check::<Boxed<N9>>),
    ("Pair<SsbhArray<N9>, RelPtr64<N9>>", check::<Pair<SsbhArray<N9>, RelPtr64<N9>>>),
    ("N10", check::<N10>),
    ("Boxed<N10>", check::<Boxed<N10>>),
    ("Pair<SsbhArray<N10>, RelPtr64<N10>>", check::<Pair<SsbhArray<N10>, RelPtr64<N10>>>),
    ("N11", check::<N11>),
    ("Boxed<N11>", check::<Boxed<N11>>),
    ("Pair<SsbhArray<N11>, RelPtr64<N11>>", check::<Pair<SsbhArray<N11>, RelPtr64<N11>>>),
    ("N12", check::<N12>),
    ("Boxed<N12>", check::<Boxed<N12>>),
    ("Pair<SsbhArray<N12>, RelPtr64<N12>>", check::<Pair<SsbhArray<N12>, RelPtr64<N12>>>),
    ("N13", check::<N13>),
    ("Boxed<N13>", check::<Boxed<N13>>),
    ("Pair<SsbhArray<N13>, RelPtr64<N13>>", check::<Pair<SsbhArray<N13>, RelPtr64<N13>>>),
    ("N14", check::<N14>),
    ("Boxed<N14>", check::<Boxed<N14>>),
    ("Pair<SsbhArray<N14>, RelPtr64<N14>>", check::<Pair<SsbhArray<N14>, RelPtr64<N14>>>),
    ("N15", check::<N15>),
    ("Boxed<N15>", check::<Boxed<N15>>),
    ("Pair<SsbhArray<N15>, RelPtr64<N15>>", check::<Pair<SsbhArray<N15>, RelPtr64<N15>>>),
    ("M0", check::<M0>),
    ("M1", check::<M1>),
    ("Boxed<M1>", check::<Boxed<M1>>),
    ("M2", check::<M2>),
    ("M3", check::<M3>),
    ("Boxed<M3>", check::<Boxed<M3>>),
    ("M4", check::<M4>),
    ("M5", check::<M5>),
    ("Boxed<M5>", check::<Boxed<M5>>),
    ("M6", check::<M6>),
    ("M7", check::<M7>),
    ("Boxed<M7>", check::<Boxed<M7>>),
    ("M8", check::<M8>),
    ("M9", check::<M9>),
    ("Boxed<M9>", check::<Boxed<M9>>),
    ("M10", check::<M10>),
    ("M11", check::<M11>),
    ("Boxed<M11>", check::<Boxed<M11>>),
    ("M12", check::<M12>),
    ("M13", check::<M13>),
    ("Boxed<M13>", check::<Boxed<M13>>),
    ("M14", check::<M14>),
    ("M15", check::<M15>),
    ("Boxed<M15>", check::<Boxed<M15>>),
    ("M16", check::<M16>),
    ("M17", check::<M17>),
    ("Boxed<M17>", check::<Boxed<M17>>),
    ("M18", check::<M18>),
    ("M19", check::<M19>),
    ("Boxed<M19>", check::<Boxed<M19>>),
    ("M20", check::<M20>),
    ("M21", check::<M21>),
    ("Boxed<M21>", check::<Boxed<M21>>),
    ("M22", check::<M22>),
    ("M23", check::<M23>),
    ("Boxed<M23>", check::<Boxed<M23>>),
    ("P0", check::<P0>),
    ("P1", check::<P1>),
    ("P2", check::<P2>),
    ("P3", check::<P3>),
    ("P4", check::<P4>),
    ("P5", check::<P5>),
    ("P6", check::<P6>),
    ("P7", check::<P7>),
    ("Q0", check::<Q0>),
    ("Boxed<Q0>", check::<Boxed<Q0>>),
    ("Q1", check::<Q1>),
    ("Boxed<Q1>", check::<Boxed<Q1>>),
    ("Q2", check::<Q2>),
    ("Boxed<Q2>", check::<Boxed<Q2>>),
    ("Q3", check::<Q3>),
    ("Boxed<Q3>", check::<Boxed<Q3>>),
    ("Q4", check::<Q4>),
    ("Boxed<Q4>", check::<Boxed<Q4>>),
    ("Q5", check::<Q5>),
    ("Boxed<Q5>", check::<Boxed<Q5>>),
    ("Q6", check::<Q6>),
    ("Boxed<Q6>", check::<Boxed<Q6>>),
    ("Q7", check::<Q7>),
    ("Boxed<Q7>", check::<Boxed<Q7>>),
    ("Q8", check::<Q8>),
    ("Boxed<Q8>", check::<Boxed<Q8>>),
    ("Q9", check::<Q9>),
    ("Boxed<Q9>", check::<Boxed<Q9>>),
    ("Q10", check::<Q10>),
    ("Boxed<Q10>", check::<Boxed<Q10>>),
    ("Q11", check::<Q11>),
    ("Boxed<Q11>", check::<Boxed<Q11>>),
    ("Q12", check::<Q12>),
    ("Boxed<Q12>", check::<Boxed<Q12>>),
    ("Q13", check::<Q13>),
    ("Boxed<Q13>", check::<Boxed<Q13>>),
    ("Q14", check::<Q14>),
    ("Boxed<Q14>", check::<Boxed<Q14>>),
    ("Q15", check::<Q15>),
    ("Boxed<Q15>", check::<Boxed<Q15>>),
    ("Q16", check::<Q16>),
    ("Boxed<Q16>", check::<Boxed<Q16>>),
    ("Q17", check::<Q17>),
    ("Boxed<Q17>", check::<Boxed<Q17>>),
    ("Q18", check::<Q18>),
    ("Boxed<Q18>", check::<Boxed<Q18>>),
    ("Q19", check::<Q19>),
    ("Boxed<Q19>", check::<Boxed<Q19>>),
    ("Pair<Option<N0>, RelPtr64<u32>>", check::<Pair<Option<N0>, RelPtr64<u32>>>),
    ("Pair<Option<N1>, RelPtr64<u32>>", check::<Pair<Option<N1>, RelPtr64<u32>>>),
    ("Pair<Option<N2>, RelPtr64<u32>>", check::<Pair<Option<N2>, RelPtr64<u32>>>),
    ("Pair<Option<N3>, RelPtr64<u32>>", check::<Pair<Option<N3>, RelPtr64<u32>>>),
    ("Pair<Option<N4>, RelPtr64<u32>>", check::<Pair<Option<N4>, RelPtr64<u32>>>),
    ("Pair<Option<N5>, RelPtr64<u32>>", check::<Pair<Option<N5>, RelPtr64<u32>>>),
    ("Pair<Option<N6>, RelPtr64<u32>>", check::<Pair<Option<N6>, RelPtr64<u32>>>),
    ("Pair<Option<N7>, RelPtr64<u32>>", check::<Pair<Option<N7>, RelPtr64<u32>>>),
    ("Pair<Option<N8>, RelPtr64<u32>>", check::<Pair<Option<N8>, RelPtr64<u32>>>),
    ("Pair<Option<N9>, RelPtr64<u32>>", check::<Pair<Option<N9>, RelPtr64<u32>>>),
    ("Pair<Option<N10>, RelPtr64<u32>>", check::<Pair<Option<N10>, RelPtr64<u32>>>),
    ("Pair<Option<N11>, RelPtr64<u32>>", check::<Pair<Option<N11>, RelPtr64<u32>>>),
    ("Pair<Option<N12>, RelPtr64<u32>>", check::<Pair<Option<N12>, RelPtr64<u32>>>),
    ("Pair<Option<N13>, RelPtr64<u32>>", check::<Pair<Option<N13>, RelPtr64<u32>>>),
    ("Pair<Option<N14>, RelPtr64<u32>>", check::<Pair<Option<N14>, RelPtr64<u32>>>),
    ("Pair<Option<N15>, RelPtr64<u32>>", check::<Pair<Option<N15>, RelPtr64<u32>>>),
    ("Pair<[u8; 300], RelPtr64<u16>>", check::<Pair<[u8; 300], RelPtr64<u16>>>),
    ("Pair<[SsbhString; 9], [u16; 257]>", check::<Pair<[SsbhString; 9], [u16; 257]>>),
    ("Pair<[RelPtr64<u8>; 40], u8>", check::<Pair<[RelPtr64<u8>; 40], u8>>),
];
