//! C26: conversions between file values and editable data never crash.
use crate::alloc;
use crate::animref::*;
use crate::dgen::*;
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::runner::*;
use crate::val::*;
use crate::{ensure, fail};

const LIMIT: usize = 1 << 30;

/// Whatever the data is converted to can be written and read again.
pub fn save_and_load(d: &AnyData, c: &mut Ctx) -> R {
    let kind = d.kind();
    let fv = to_file_val(d)?;
    let b = d.bytes()?;
    match (&fv, &b) {
        (Ok(_), Ok(_)) => {}
        (Err(_), Err(_)) => {
            c.label(format!("{} refused", kind.name()));
            return Ok(());
        }
        (a, b) => fail!(
            "{}: conversion and write disagree: {:?} vs {:?}",
            kind.name(),
            a.as_ref().map(|_| ()),
            b.as_ref().map(|_| ())
        ),
    }
    let b = b.unwrap();
    c.label(format!("{} saved", kind.name()));
    let k = kind.kinds()[0];
    match AnyFile::read_bytes(k, &b)? {
        Ok(f) => {
            if let Some(d) = fv.unwrap().diff(&f.to_val()?) {
                fail!("{}: the file saved from data is read as another file value: {d}", kind.name());
            }
        }
        Err(e) => fail!("{}: the file saved from data cannot be read: {e}", kind.name()),
    }
    match AnyData::read_bytes(kind, &b)? {
        Ok(_) => {}
        Err(e) => fail!("{}: the saved data cannot be loaded: {e}", kind.name()),
    }
    Ok(())
}

fn data(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let d = gen_data(&mut c.src, kind, &DK::wild());
    c.describe(|| d.debug());
    let v = d.to_val()?;
    if v.size() > 10 {
        c.interesting(&v);
    }
    save_and_load(&d, c)
}

/// A file-level value: anything, or made from valid data with some parts changed.
pub fn file_value(s: &mut Src, kind: DKind) -> (crate::schema::Kind, Val) {
    let ks = kind.kinds();
    if kind == DKind::Anim && s.chance(1, 2) {
        return if s.chance(1, 6) {
            (crate::schema::kind("Anim", "V12"), anim_v12(s))
        } else {
            let a = stored_anim(s, true);
            let k = crate::schema::kind("Anim", a.version);
            let mut v = a.val;
            if s.chance(1, 3) {
                mutate_val(s, k, &mut v);
            }
            (k, v)
        };
    }
    match s.weighted(&[1, 4]) {
        0 => {
            let k = *s.pick(&ks);
            let v = gen_file(s, k, &mut Knobs::all());
            (k, v)
        }
        _ => {
            let mut dk = DK::valid();
            dk.big = false;
            let d = gen_data(s, kind, &dk);
            let mut v = match to_file_val(&d) {
                Ok(Ok(v)) => v,
                _ => gen_file(s, ks[0], &mut Knobs::all()),
            };
            let k = match &v {
                Val::Variant(_, Some(x)) => match &**x {
                    Val::Variant(n, _) => crate::schema::kind(kind.name(), n),
                    _ => unreachable!(),
                },
                _ => ks[0],
            };
            for _ in 0..s.range(1, 4) {
                mutate_val(s, k, &mut v);
            }
            (k, v)
        }
    }
}

fn file(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let (k, v) = file_value(&mut c.src, kind);
    c.describe(|| clip(format!("{v:?}")));
    c.interesting(&v);
    let (r, _) = alloc::guarded(LIMIT, LIMIT, || from_file_val(kind, &v));
    match r? {
        Ok(d) => {
            c.label(format!("{} converted", k.name()));
            let (r, _) = alloc::guarded(LIMIT, LIMIT, || save_and_load(&d, c));
            r?;
            // reading the written value is the same conversion
            let f = AnyFile::from_val(k, &v)?;
            let mut out = std::io::Cursor::new(vec![]);
            if f.write(&mut out)?.is_ok() {
                match AnyData::read_bytes(kind, out.get_ref())? {
                    Ok(x) => {
                        if let Some(d) = d.to_val()?.diff(&x.to_val()?) {
                            fail!("{}: converting the value and loading its file differ: {d}", k.name());
                        }
                    }
                    Err(e) => fail!("{}: the value converts but its file does not load: {e}", k.name()),
                }
            }
        }
        Err(_) => {
            c.label(format!("{} refused", k.name()));
            let f = AnyFile::from_val(k, &v)?;
            let mut out = std::io::Cursor::new(vec![]);
            if f.write(&mut out)?.is_ok() {
                ensure!(
                    AnyData::read_bytes(kind, out.get_ref())?.is_err(),
                    "{}: converting the value fails but its file loads",
                    k.name()
                );
            }
        }
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_data(c: &mut Ctx) -> R {
    c.src.large = true;
    data(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_file(c: &mut Ctx) -> R {
    c.src.large = true;
    file(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        level: "exploration",
        rule: "data: a value with more than 10 parts; file: any generated or changed file-level value",
        assumptions: &["a conversion may use up to 1 GiB"],
        subs: vec![
            Sub { name: "data", quick: 150_000, thorough: 6_000_000, enumerate: 8, f: data },
            Sub { name: "large_data", quick: 80, thorough: 4800, enumerate: 8, f: large_data },
            Sub { name: "file", quick: 200_000, thorough: 9_000_000, enumerate: 8, f: file },
            Sub { name: "large_file", quick: 64, thorough: 3840, enumerate: 8, f: large_file },
        ],
        probes: vec![],
    }
}
