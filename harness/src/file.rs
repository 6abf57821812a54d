//! Uniform access to the library's file types.
use crate::engine::{lib, Fail};
use crate::schema::Kind;
use crate::val::{from_val, to_val, Val};
use ssbh_lib::prelude::*;
use std::io::{Cursor, Read, Seek, Write};
use std::path::Path;

pub enum AnyFile {
    Ssbh(SsbhFile),
    MeshEx(MeshEx),
    Adj(Adj),
}

impl AnyFile {
    pub fn from_val(kind: Kind, v: &Val) -> Result<AnyFile, Fail> {
        let e = |e: crate::val::Error| Fail(format!("value not accepted by the library's deserializer: {e}"));
        lib(|| match kind {
            Kind::Ssbh(..) => from_val(v).map(AnyFile::Ssbh),
            Kind::MeshEx => from_val(v).map(AnyFile::MeshEx),
            Kind::Adj => from_val(v).map(AnyFile::Adj),
        })?
        .map_err(e)
    }
    pub fn to_val(&self) -> Result<Val, Fail> {
        lib(|| match self {
            AnyFile::Ssbh(f) => to_val(f),
            AnyFile::MeshEx(f) => to_val(f),
            AnyFile::Adj(f) => to_val(f),
        })?
        .map_err(|e| Fail(format!("value not serializable: {e}")))
    }
    pub fn read<R: Read + Seek>(kind: Kind, r: &mut R) -> Result<Result<AnyFile, String>, Fail> {
        lib(|| match kind {
            Kind::Ssbh(..) => SsbhFile::read(r).map(AnyFile::Ssbh).map_err(|e| e.to_string()),
            Kind::MeshEx => MeshEx::read(r).map(AnyFile::MeshEx).map_err(|e| e.to_string()),
            Kind::Adj => Adj::read(r).map(AnyFile::Adj).map_err(|e| e.to_string()),
        })
    }
    pub fn read_bytes(kind: Kind, b: &[u8]) -> Result<Result<AnyFile, String>, Fail> {
        Self::read(kind, &mut Cursor::new(b))
    }
    pub fn write<W: Write + Seek>(&self, w: &mut W) -> Result<std::io::Result<()>, Fail> {
        lib(|| match self {
            AnyFile::Ssbh(f) => f.write(w),
            AnyFile::MeshEx(f) => f.write(w),
            AnyFile::Adj(f) => f.write(w),
        })
    }
    pub fn bytes(&self) -> Result<Vec<u8>, Fail> {
        let mut c = Cursor::new(Vec::new());
        self.write(&mut c)?.map_err(|e| Fail(format!("writing failed: {e}")))?;
        Ok(c.into_inner())
    }
    pub fn from_file(kind: Kind, p: &Path) -> Result<Result<AnyFile, String>, Fail> {
        lib(|| match kind {
            Kind::Ssbh(..) => SsbhFile::from_file(p).map(AnyFile::Ssbh).map_err(|e| e.to_string()),
            Kind::MeshEx => MeshEx::from_file(p).map(AnyFile::MeshEx).map_err(|e| e.to_string()),
            Kind::Adj => Adj::from_file(p).map(AnyFile::Adj).map_err(|e| e.to_string()),
        })
    }
    pub fn write_to_file(&self, p: &Path) -> Result<std::io::Result<()>, Fail> {
        lib(|| match self {
            AnyFile::Ssbh(f) => f.write_to_file(p),
            AnyFile::MeshEx(f) => f.write_to_file(p),
            AnyFile::Adj(f) => f.write_to_file(p),
        })
    }
    /// Value equality by the library's own PartialEq.
    pub fn lib_eq(&self, o: &AnyFile) -> bool {
        macro_rules! cmp {
            ($a:expr, $b:expr; $($v:ident)*) => {
                match ($a, $b) {
                    $((ssbh_lib::Ssbh::$v(x), ssbh_lib::Ssbh::$v(y)) => x.data == y.data,)*
                    _ => false,
                }
            };
        }
        match (self, o) {
            (AnyFile::Ssbh(a), AnyFile::Ssbh(b)) => {
                cmp!(&a.data, &b.data; Hlpb Matl Modl Mesh Skel Anim Nlst Nrpd Nufx Shdr)
            }
            (AnyFile::MeshEx(a), AnyFile::MeshEx(b)) => a == b,
            (AnyFile::Adj(a), AnyFile::Adj(b)) => a == b,
            _ => false,
        }
    }
}

/// The outcome of one of the typed entry points (Mesh::read and so on), as a value tree.
#[derive(Debug)]
pub enum Typed {
    Value(Val),
    WrongType,
    Other(String),
}

macro_rules! typed {
    ($($name:ident),*) => {
        pub const TYPED: &[&str] = &[$(stringify!($name)),*];

        pub fn typed_read(name: &str, b: &[u8]) -> Result<Typed, Fail> {
            match name {
                $(stringify!($name) => {
                    let r = lib(|| $name::read(&mut Cursor::new(b)))?;
                    typed_result(stringify!($name), r)
                })*
                _ => unreachable!(),
            }
        }
        pub fn typed_from_file(name: &str, p: &Path) -> Result<Typed, Fail> {
            match name {
                $(stringify!($name) => {
                    let r = lib(|| $name::from_file(p))?;
                    typed_result(stringify!($name), r)
                })*
                _ => unreachable!(),
            }
        }
        /// Write the inner value with the typed writer.
        pub fn typed_write(f: &SsbhFile) -> Result<std::io::Result<Vec<u8>>, Fail> {
            lib(|| {
                let mut c = Cursor::new(Vec::new());
                match &f.data {
                    $(ssbh_lib::Ssbh::$name(v) => v.data.write(&mut c),)*
                }.map(|_| c.into_inner())
            })
        }
        pub fn typed_write_to_file(f: &SsbhFile, p: &Path) -> Result<std::io::Result<()>, Fail> {
            lib(|| match &f.data {
                $(ssbh_lib::Ssbh::$name(v) => v.data.write_to_file(p),)*
            })
        }
    };
}

fn typed_result<V: serde::Serialize>(
    name: &'static str,
    r: Result<V, ssbh_lib::ReadSsbhError>,
) -> Result<Typed, Fail> {
    Ok(match r {
        Ok(v) => {
            let v = lib(|| to_val(&v))?.map_err(|e| Fail(format!("value not serializable: {e}")))?;
            Typed::Value(Val::Variant(name, Some(Box::new(v))))
        }
        Err(ssbh_lib::ReadSsbhError::InvalidSsbhType) => Typed::WrongType,
        Err(e) => Typed::Other(e.to_string()),
    })
}

typed!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr);
