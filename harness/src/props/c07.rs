//! C07: reading and writing by path equals reading and writing in memory.
use super::c04::mutated_file;
use super::first_diff;
use crate::dgen::*;
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::io::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::prelude::ShdrData;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::{Path, PathBuf};

enum Thing {
    File(AnyFile),
    /// through the writer of the inner type
    Typed(AnyFile),
    Data(AnyData),
}

impl Thing {
    fn save(&self, p: &Path) -> Result<Result<(), String>, Fail> {
        Ok(match self {
            Thing::File(f) => f.write_to_file(p)?.map_err(|e| e.to_string()),
            Thing::Typed(AnyFile::Ssbh(f)) => typed_write_to_file(f, p)?.map_err(|e| e.to_string()),
            Thing::Typed(f) => f.write_to_file(p)?.map_err(|e| e.to_string()),
            Thing::Data(d) => d.write_to_file(p)?,
        })
    }
    fn bytes(&self) -> Result<Result<Vec<u8>, String>, Fail> {
        Ok(match self {
            Thing::File(f) => {
                let mut c = Cursor::new(vec![]);
                f.write(&mut c)?.map(|_| c.into_inner()).map_err(|e| e.to_string())
            }
            Thing::Typed(AnyFile::Ssbh(f)) => typed_write(f)?.map_err(|e| e.to_string()),
            Thing::Typed(f) => {
                let mut c = Cursor::new(vec![]);
                f.write(&mut c)?.map(|_| c.into_inner()).map_err(|e| e.to_string())
            }
            Thing::Data(d) => d.bytes()?,
        })
    }
}

fn thing(s: &mut Src) -> Result<(String, Thing), Fail> {
    Ok(match s.below(3) {
        2 => {
            let kind = *s.pick(&DKINDS);
            let mut k = if s.chance(1, 3) { DK::wild() } else { DK::valid() };
            k.big = false;
            (format!("{} data", kind.name()), Thing::Data(gen_data(s, kind, &k)))
        }
        n => {
            let k = pick_kind(s);
            let mut kn = if s.chance(1, 2) { Knobs::small() } else { Knobs::all() };
            let v = gen_file(s, k, &mut kn);
            let f = AnyFile::from_val(k, &v)?;
            (k.name(), if n == 0 { Thing::File(f) } else { Thing::Typed(f) })
        }
    })
}

fn agree<A: PartialEq, B, C>(what: &str, mem: &Result<A, B>, path: &Result<A, C>) -> R {
    match (mem, path) {
        (Ok(a), Ok(b)) => ensure!(a == b, "{what}: the value loaded from the path differs from the one read from its bytes"),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => fail!("{what}: the bytes can be read, loading the path fails"),
        (Err(_), Ok(_)) => fail!("{what}: the bytes cannot be read, loading the path succeeds"),
    }
    Ok(())
}

fn value(r: Result<AnyFile, String>) -> Result<Result<Val, String>, Fail> {
    Ok(match r {
        Ok(f) => Ok(f.to_val()?),
        Err(e) => Err(e),
    })
}
fn dvalue(r: Result<AnyData, String>) -> Result<Result<Val, String>, Fail> {
    Ok(match r {
        Ok(f) => Ok(f.to_val()?),
        Err(e) => Err(e),
    })
}

/// All readers agree between the path and its bytes.
fn load(c: &mut Ctx, p: &Path, b: &[u8]) -> R {
    for k in [kinds()[0], Kind::MeshEx, Kind::Adj] {
        agree(k.format(), &value(AnyFile::read_bytes(k, b)?)?, &value(AnyFile::from_file(k, p)?)?)?;
    }
    for t in TYPED {
        match (typed_read(t, b)?, typed_from_file(t, p)?) {
            (Typed::Value(a), Typed::Value(x)) => {
                ensure!(a == x, "{t}: the value loaded from the path differs from the one read from its bytes")
            }
            (Typed::WrongType, Typed::WrongType) | (Typed::Other(_), Typed::Other(_)) => {}
            (a, x) => fail!("{t}: read from memory: {}, from the path: {}", short(&a), short(&x)),
        }
    }
    for d in DKINDS {
        let name = format!("{} data", d.name());
        agree(&name, &dvalue(AnyData::read_bytes(d, b)?)?, &dvalue(AnyData::from_file(d, p)?)?)?;
    }
    let v = |r: Result<ShdrData, Box<dyn std::error::Error>>| r.map(|d| to_val(&d).unwrap()).map_err(|e| e.to_string());
    let (a, x) = (lib(|| v(ShdrData::read(&mut Cursor::new(b))))?, lib(|| v(ShdrData::from_file(p)))?);
    agree("Shdr data", &a, &x)?;
    c.evals += 3 + TYPED.len() as u64 + 9;
    Ok(())
}

fn short(t: &Typed) -> &'static str {
    match t {
        Typed::Value(_) => "a value",
        Typed::WrongType => "wrong type",
        Typed::Other(_) => "another error",
    }
}

/// Every way of loading fails.
fn no_load(p: &Path, why: &str) -> R {
    for k in [kinds()[0], Kind::MeshEx, Kind::Adj] {
        ensure!(AnyFile::from_file(k, p)?.is_err(), "{}: loading {why} succeeded", k.format());
    }
    for t in TYPED {
        ensure!(!matches!(typed_from_file(t, p)?, Typed::Value(_)), "{t}: loading {why} succeeded");
    }
    for d in DKINDS {
        ensure!(AnyData::from_file(d, p)?.is_err(), "{} data: loading {why} succeeded", d.name());
    }
    ensure!(lib(|| ShdrData::from_file(p).is_err())?, "Shdr data: loading {why} succeeded");
    Ok(())
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn history(c: &mut Ctx) -> R {
    let dir = Dir(scratch().join("c07"));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir_all(&dir.0).unwrap();
    let names = ["a.numshb", "b with space.bin", "ナ"];
    let mut model: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let n = c.src.range(1, 6);
    let mut fp = vec![];
    for _ in 0..n {
        let i = c.src.usize(names.len());
        let p = dir.0.join(names[i]);
        let step = c.src.weighted(&[8, 3, 1, 2, 2, 1]);
        fp.push((step, i));
        match step {
            0 => {
                let (what, t) = thing(&mut c.src)?;
                let want = t.bytes()?;
                c.describe(|| format!("save {what} ({:?} bytes) to {i}", want.as_ref().map(|b| b.len())));
                c.label(if model.contains_key(&i) { "replace" } else { "create" });
                match (want, t.save(&p)?) {
                    (Ok(b), Ok(())) => {
                        let got = std::fs::read(&p).unwrap();
                        if let Some(d) = first_diff(&b, &got) {
                            fail!("{what}: the saved file differs from the bytes written in memory: {d}");
                        }
                        model.insert(i, b);
                    }
                    (Err(_), Err(_)) => {
                        if let Thing::Data(_) = t {
                            // nothing was saved
                            ensure!(
                                std::fs::read(&p).ok() == model.get(&i).cloned(),
                                "{what}: data that is refused changed the file at the path"
                            );
                            c.label("refused");
                        } else {
                            let _ = std::fs::remove_file(&p);
                            model.remove(&i);
                        }
                    }
                    (Ok(_), Err(e)) => fail!("{what}: can be written in memory, saving to a path fails: {e}"),
                    (Err(e), Ok(_)) => fail!("{what}: saving to a path succeeds, in memory fails: {e}"),
                }
            }
            1 => {
                // another program's bytes (small ones: redirected pointers can share large data any number of times)
                let large = std::mem::replace(&mut c.src.large, false);
                let k = pick_kind(&mut c.src);
                let b = if c.src.chance(1, 3) {
                    let mut kn = Knobs::small();
                    canonical(k, &gen_file(&mut c.src, k, &mut kn))
                } else {
                    mutated_file(&mut c.src, k)
                };
                c.describe(|| format!("put {} bytes of {} into {i}", b.len(), k.name()));
                c.src.large = large;
                std::fs::write(&p, &b).unwrap();
                model.insert(i, b);
            }
            2 => {
                let _ = std::fs::remove_file(&p);
                model.remove(&i);
                no_load(&p, "a missing file")?;
                no_load(&dir.0, "a directory")?;
                no_load(&p.join("x"), "a file below a missing directory")?;
                c.describe(|| format!("remove {i}"));
            }
            3 => {
                let (what, t) = thing(&mut c.src)?;
                c.describe(|| format!("save {what} where nothing can be saved"));
                ensure!(t.save(&dir.0)?.is_err(), "{what}: saving over a directory succeeded");
                ensure!(t.save(&dir.0.join("missing/x"))?.is_err(), "{what}: saving below a missing directory succeeded");
                if let Some(i) = model.keys().next() {
                    let q = dir.0.join(names[*i]).join("x");
                    ensure!(t.save(&q)?.is_err(), "{what}: saving below a regular file succeeded");
                }
                ensure!(t.save(Path::new(""))?.is_err(), "{what}: saving to an empty path succeeded");
                ensure!(t.save(Path::new("/dev/full"))?.is_err(), "{what}: saving to a full device succeeded");
                c.label("unwritable");
            }
            4 => {
                // the disk is full after some bytes
                let (what, t) = thing(&mut c.src)?;
                let Ok(b) = t.bytes()? else { continue };
                let room = c.src.below(b.len() as u64 + 2);
                c.describe(|| format!("save {what} ({} bytes) with room for {room}", b.len()));
                let r = with_file_limit(room, || t.save(&p))?;
                if room < b.len() as u64 {
                    ensure!(r.is_err(), "{what}: {} bytes do not fit in {room}, but saving succeeded", b.len());
                    let _ = std::fs::remove_file(&p);
                    model.remove(&i);
                    c.label("no room");
                } else {
                    if let Err(e) = r {
                        fail!("{what}: saving fails although there is room: {e}");
                    }
                    model.insert(i, b);
                }
            }
            _ => {
                // a link to another path
                let j = c.src.usize(names.len());
                if i == j || model.contains_key(&i) || !model.contains_key(&j) {
                    continue;
                }
                std::os::unix::fs::symlink(dir.0.join(names[j]), &p).unwrap();
                load(c, &p, &model[&j])?;
                let (what, t) = thing(&mut c.src)?;
                if let Ok(b) = t.bytes()? {
                    if let Err(e) = t.save(&p)? {
                        fail!("{what}: saving through a link fails: {e}");
                    }
                    model.insert(j, b);
                }
                std::fs::remove_file(&p).unwrap();
                c.label("link");
            }
        }
        for (i, b) in &model {
            let got = std::fs::read(dir.0.join(names[*i])).unwrap_or_default();
            if let Some(d) = first_diff(b, &got) {
                fail!("a file is not what was last saved to it: {d}");
            }
        }
        if let Some(b) = model.get(&i) {
            load(c, &p, b)?;
        }
    }
    let v: Vec<_> = model.values().collect();
    c.interesting(&(fp, v));
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_history(c: &mut Ctx) -> R {
    c.src.large = true;
    history(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "every case: a history of one to six saves, replacements and failures at three paths, each checked against a model of the files' contents",
        assumptions: &["failures are provoked with directories, missing parents, /dev/full and a file size limit"],
        subs: vec![Sub { name: "history", quick: 60_000, thorough: 1_500_000, enumerate: 0, f: history }, Sub { name: "large_history", quick: 160, thorough: 9600, enumerate: 0, f: large_history }],
        probes: vec![],
    }
}
