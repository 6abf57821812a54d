//! C08: I/O failures reach the caller; short transfers change nothing.
use super::first_diff;
use crate::dgen::*;
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::io::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::shader::shader;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::shdr_data::{MetaData, ShaderBinary, ShdrData};
use std::io::{Cursor, ErrorKind};

const KINDS: [ErrorKind; 6] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::StorageFull,
    ErrorKind::WouldBlock,
];

/// The operations to fail: all of a few, else a sample with the first and the last.
fn pick_ops(s: &mut Src, n: usize) -> Vec<usize> {
    if n <= 40 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, n - 1, n - 2];
    v.extend((0..24).map(|_| s.usize(n)));
    v.sort();
    v.dedup();
    v
}

type Reader<'a> = &'a dyn Fn(&mut Faulty) -> Result<Result<Val, String>, Fail>;
type Writer<'a> = &'a dyn Fn(&mut Faulty) -> Result<Result<(), String>, Fail>;

fn reading(c: &mut Ctx, what: &str, b: &[u8], read: Reader) -> R {
    let mut dry = Faulty::new(b.to_vec());
    let want = read(&mut dry)?;
    let last = dry.ops.iter().rposition(|o| matches!(o, Op::Read(n) if *n > 0));
    // short transfers and interruptions
    for _ in 0..2 {
        let mut f = Faulty::new(b.to_vec());
        f.short = Some(c.src.u64());
        let got = read(&mut f)?;
        c.evals += 1;
        match (&want, &got) {
            (Ok(a), Ok(x)) => {
                if let Some(d) = a.diff(x) {
                    fail!("{what}: short reads give another value: {d}");
                }
            }
            (Err(_), Err(_)) => {}
            (a, x) => fail!(
                "{what}: short reads change the outcome: ordinary {:?}, short {:?}",
                a.as_ref().map(|_| "value"),
                x.as_ref().map(|_| "value")
            ),
        }
    }
    let Some(last) = last else { return Ok(()) };
    for at in pick_ops(&mut c.src, last + 1) {
        for fault in [Fault::Once, Fault::Forever] {
            let mut f = Faulty::new(b.to_vec());
            f.fail_at = Some((at, fault));
            f.kind = *c.src.pick(&KINDS);
            let r = read(&mut f)?;
            c.evals += 1;
            // trying the next type after a failed operation is fine as long as nothing is lost
            let fine = match (&r, fault) {
                (Err(_), _) => true,
                (Ok(x), Fault::Once) => want.as_ref().is_ok_and(|w| w == x),
                _ => false,
            };
            ensure!(
                fine || !f.failed,
                "{what}: operation {at} of {} ({:?}) failed ({fault:?}) and a value was returned",
                dry.ops.len(),
                dry.ops[at]
            );
        }
    }
    Ok(())
}

fn writing(c: &mut Ctx, what: &str, write: Writer) -> Result<Option<Vec<u8>>, Fail> {
    let mut dry = Faulty::new(vec![]);
    let ok = write(&mut dry)?;
    let want = dry.inner.into_inner();
    for _ in 0..2 {
        let mut f = Faulty::new(vec![]);
        f.short = Some(c.src.u64());
        let r = write(&mut f)?;
        c.evals += 1;
        ensure!(r.is_ok() == ok.is_ok(), "{what}: short writes change the outcome: {ok:?} vs {r:?}");
        if ok.is_ok() {
            if let Some(d) = first_diff(&want, f.inner.get_ref()) {
                fail!("{what}: short writes give other bytes: {d}");
            }
        }
    }
    for at in pick_ops(&mut c.src, dry.ops.len()) {
        for fault in [Fault::Once, Fault::Forever, Fault::Zero] {
            let mut f = Faulty::new(vec![]);
            f.fail_at = Some((at, fault));
            f.kind = *c.src.pick(&KINDS);
            let r = write(&mut f)?;
            c.evals += 1;
            ensure!(
                r.is_err() || !f.failed,
                "{what}: operation {at} of {} ({:?}) failed ({fault:?}) and success was reported",
                dry.ops.len(),
                dry.ops[at]
            );
        }
    }
    Ok(ok.is_ok().then_some(want))
}

fn files(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let v = gen_file(&mut c.src, kind, &mut Knobs::small());
    c.label(kind.name());
    c.describe(|| format!("{v:?}"));
    c.interesting(&v);
    let f = AnyFile::from_val(kind, &v)?;
    let name = kind.name();
    let b = writing(c, &name, &|w| Ok(f.write(w)?.map_err(|e| e.to_string())))?;
    if let AnyFile::Ssbh(s) = &f {
        // the writers of the inner types
        macro_rules! inner {
            ($($n:ident)*) => {
                match &s.data {
                    $(ssbh_lib::Ssbh::$n(v) => {
                        writing(c, &name, &|w| lib(|| v.data.write(w).map_err(|e| e.to_string())))?;
                        let b = canonical(kind, &lossless(&f)?);
                        reading(c, &name, &b, &|r| {
                            let x = lib(|| ssbh_lib::prelude::$n::read(r).map_err(|e| e.to_string()))?;
                            match x {
                                Ok(x) => to_val(&x).map(Ok).map_err(|e| Fail(e.to_string())),
                                Err(e) => Ok(Err(e)),
                            }
                        })?;
                    })*
                }
            };
        }
        if c.src.chance(1, 3) {
            inner!(Hlpb Matl Modl Mesh Skel Anim Nlst Nrpd Nufx Shdr);
        }
    }
    let b = match b {
        Some(b) => b,
        None => return Ok(()),
    };
    reading(c, &name, &b, &|r| {
        Ok(match AnyFile::read(kind, r)? {
            Ok(f) => Ok(f.to_val()?),
            Err(e) => Err(e),
        })
    })
}

fn lossless(f: &AnyFile) -> Result<Val, Fail> {
    f.to_val()
}

fn data(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let mut k = DK::valid();
    k.big = false;
    let d = gen_data(&mut c.src, kind, &k);
    c.label(kind.name());
    c.describe(|| d.debug());
    let name = format!("{} data", kind.name());
    let b = writing(c, &name, &|w| d.write(w))?;
    let Some(b) = b else {
        c.label("refused");
        return Ok(());
    };
    c.interesting(&b);
    reading(c, &name, &b, &|r| {
        Ok(match AnyData::read(kind, r)? {
            Ok(d) => Ok(d.to_val()?),
            Err(e) => Err(e),
        })
    })
}

fn shaders(c: &mut Ctx) -> R {
    let x = shader(&mut c.src);
    c.describe(|| format!("{:?}", x.meta));
    c.interesting(&x.bytes);
    reading(c, "shader metadata", &x.bytes, &|r| {
        let m = lib(|| MetaData::read(r).map_err(|e| e.to_string()))?;
        Ok(m.map(|m| to_val(&m).unwrap()))
    })?;
    reading(c, "shader binary", &x.bytes, &|r| {
        let m = lib(|| ShaderBinary::read(r).map_err(|e| e.to_string()))?;
        Ok(m.map(|m| Val::Bytes(m.program_code)))
    })?;
    let k = kind("Shdr", "V12");
    let v = gen_file(&mut c.src, k, &mut Knobs::small());
    let b = canonical(k, &v);
    if lib(|| ShdrData::read(&mut Cursor::new(&b)).is_ok())? {
        reading(c, "shader data", &b, &|r| {
            let m = lib(|| ShdrData::read(r).map_err(|e| e.to_string()))?;
            Ok(m.map(|m| to_val(&m).unwrap()))
        })?;
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_files(c: &mut Ctx) -> R {
    c.src.large = true;
    files(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_data(c: &mut Ctx) -> R {
    c.src.large = true;
    data(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "a value is read or written with a fault at each of its operations (all of up to 40, a sample of more) and with short transfers",
        assumptions: &[
            "a read fault counts while the fault-free run still gets data from that operation or a later one",
            "injected errors are of other kinds than Interrupted and UnexpectedEof, which callers may treat as retry and end of file",
        ],
        subs: vec![
            Sub { name: "files", quick: 30_000, thorough: 1_500_000, enumerate: kinds().len() as u64, f: files },
            Sub { name: "large_files", quick: 64, thorough: 3840, enumerate: kinds().len() as u64, f: large_files },
            Sub { name: "data", quick: 18_000, thorough: 800_000, enumerate: 8, f: data },
            Sub { name: "large_data", quick: 16, thorough: 960, enumerate: 8, f: large_data },
            Sub { name: "shaders", quick: 4_500, thorough: 200_000, enumerate: 0, f: shaders },
        ],
        probes: vec![],
    }
}
