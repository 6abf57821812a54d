//! C31: what an operation gives depends on nothing but its arguments.
use super::c04::mutated_file;
use super::c26;
use crate::dgen::*;
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::io::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::MeshObjectData;
use ssbh_data::prelude::*;
use std::io::Cursor;

enum Item {
    Save(AnyData),
    /// to a writer that fails at an operation
    Fail(AnyData, usize),
    Load(DKind, Vec<u8>),
    Convert(DKind, Val),
    Write(AnyFile),
    WriteFail(AnyFile, usize),
    Read(Kind, Vec<u8>),
    Json(AnyData),
    Parse(DKind, String),
    MeshEx(Vec<MeshObjectData>),
    Adj(MeshObjectData),
    Worlds(SkelData),
}

#[derive(PartialEq, Clone)]
enum Result_ {
    Bytes(Vec<u8>),
    Value(Val),
    Refused(String),
    /// and what had been written
    Stopped(String, Vec<u8>),
}

impl Result_ {
    fn show(&self) -> String {
        match self {
            Result_::Bytes(b) => format!("{} bytes", b.len()),
            Result_::Value(_) => "a value".into(),
            Result_::Refused(e) => format!("the error {e}"),
            Result_::Stopped(e, b) => format!("the error {e} after {} bytes", b.len()),
        }
    }
    fn diff(&self, o: &Result_) -> Option<String> {
        if self == o {
            return None;
        }
        let d = match (self, o) {
            (Result_::Bytes(a), Result_::Bytes(b)) => super::first_diff(a, b),
            (Result_::Value(a), Result_::Value(b)) => a.diff(b),
            _ => None,
        };
        Some(format!("{}, then {}: {}", self.show(), o.show(), d.unwrap_or_default()))
    }
}

fn clip_error(e: String) -> String {
    e.chars().take(400).collect()
}

impl Item {
    fn name(&self) -> String {
        match self {
            Item::Save(d) => format!("save {}", d.kind().name()),
            Item::Fail(d, n) => format!("save {} to a writer failing at {n}", d.kind().name()),
            Item::Load(k, b) => format!("load {} from {} bytes", k.name(), b.len()),
            Item::Convert(k, _) => format!("convert to {}", k.name()),
            Item::Write(_) => "write a file".into(),
            Item::WriteFail(_, n) => format!("write a file to a writer failing at {n}"),
            Item::Read(k, b) => format!("read {} from {} bytes", k.name(), b.len()),
            Item::Json(d) => format!("JSON of {}", d.kind().name()),
            Item::Parse(k, _) => format!("{} from JSON", k.name()),
            Item::MeshEx(o) => format!("bounds of {} objects", o.len()),
            Item::Adj(_) => "adjacency".into(),
            Item::Worlds(s) => format!("world transforms of {} bones", s.bones.len()),
        }
    }
    fn run(&self) -> Result<Result_, Fail> {
        let value = |r: Result<AnyData, String>| -> Result<Result_, Fail> {
            Ok(match r {
                Ok(d) => Result_::Value(d.to_val()?),
                Err(e) => Result_::Refused(clip_error(e)),
            })
        };
        Ok(match self {
            Item::Save(d) => match d.bytes()? {
                Ok(b) => Result_::Bytes(b),
                Err(e) => Result_::Refused(clip_error(e)),
            },
            Item::Fail(d, n) => {
                let mut w = Faulty::new(vec![]);
                w.fail_at = Some((*n, Fault::Forever));
                match d.write(&mut w)? {
                    Ok(()) => Result_::Bytes(w.inner.into_inner()),
                    Err(e) => Result_::Stopped(clip_error(e), w.inner.into_inner()),
                }
            }
            Item::Load(k, b) => value(AnyData::read_bytes(*k, b)?)?,
            Item::Convert(k, v) => value(from_file_val(*k, v)?)?,
            Item::Write(f) => {
                let mut w = Cursor::new(vec![]);
                match f.write(&mut w)? {
                    Ok(()) => Result_::Bytes(w.into_inner()),
                    Err(e) => Result_::Stopped(clip_error(e.to_string()), w.into_inner()),
                }
            }
            Item::WriteFail(f, n) => {
                let mut w = Faulty::new(vec![]);
                w.fail_at = Some((*n, Fault::Forever));
                match f.write(&mut w)? {
                    Ok(()) => Result_::Bytes(w.inner.into_inner()),
                    Err(e) => Result_::Stopped(clip_error(e.to_string()), w.inner.into_inner()),
                }
            }
            Item::Read(k, b) => match AnyFile::read_bytes(*k, b)? {
                Ok(f) => Result_::Value(f.to_val()?),
                Err(e) => Result_::Refused(clip_error(e)),
            },
            Item::Json(d) => match d.json(false)? {
                Ok(s) => Result_::Bytes(s.into_bytes()),
                Err(e) => Result_::Refused(clip_error(e)),
            },
            Item::Parse(k, s) => value(AnyData::from_json(*k, s)?)?,
            Item::MeshEx(o) => {
                let d = lib(|| MeshExData::from_mesh_objects(o))?;
                Result_::Value(AnyData::MeshEx(d).to_val()?)
            }
            Item::Adj(o) => {
                let e = lib(|| ssbh_data::adj_data::AdjEntryData::from_mesh_object(3, o))?;
                Result_::Value(AnyData::Adj(AdjData { entries: vec![e] }).to_val()?)
            }
            Item::Worlds(s) => {
                let mut out = vec![];
                for b in &s.bones {
                    match lib(|| s.calculate_world_transform(b))? {
                        Ok(m) => out.extend(m.iter().flatten().flat_map(|x| x.to_bits().to_le_bytes())),
                        Err(e) => out.extend(format!("{e:?}").into_bytes()),
                    }
                }
                Result_::Bytes(out)
            }
        })
    }
}

fn data(s: &mut Src, kind: DKind) -> AnyData {
    let mut k = if s.chance(2, 3) { DK::valid() } else { DK::wild() };
    k.big = s.chance(1, 8);
    gen_data(s, kind, &k)
}

fn item(s: &mut Src, fixed: Option<DKind>) -> Result<Item, Fail> {
    let kind = |s: &mut Src| fixed.unwrap_or_else(|| *s.pick(&DKINDS));
    let at = |s: &mut Src| if s.chance(1, 2) { s.below(8) } else { s.below(200) } as usize;
    Ok(match s.weighted(&[6, 3, 4, 3, 2, 2, 4, 1, 1, 1, 1, 1]) {
        0 => {
            let k = kind(s);
            Item::Save(data(s, k))
        }
        1 => {
            let k = kind(s);
            let d = data(s, k);
            Item::Fail(d, at(s))
        }
        2 => {
            let k = kind(s);
            let d = data(s, k);
            match d.bytes()? {
                Ok(mut b) => {
                    if s.chance(1, 4) && !b.is_empty() {
                        let n = s.usize(b.len());
                        b.truncate(n);
                    }
                    Item::Load(k, b)
                }
                Err(_) => Item::Load(k, vec![]),
            }
        }
        3 => {
            let k = kind(s);
            let (_, v) = c26::file_value(s, k);
            Item::Convert(k, v)
        }
        n @ (4 | 5) => {
            let k = pick_kind(s);
            let v = gen_file(s, k, &mut Knobs::small());
            let f = AnyFile::from_val(k, &v)?;
            if n == 4 {
                Item::Write(f)
            } else {
                Item::WriteFail(f, at(s))
            }
        }
        6 => {
            let k = pick_kind(s);
            let b = if s.chance(1, 2) {
                mutated_file(s, k)
            } else {
                let v = gen_file(s, k, &mut Knobs::small());
                canonical(k, &v)
            };
            Item::Read(k, b)
        }
        7 => {
            let k = kind(s);
            Item::Json(gen_data(s, k, &DK::json()))
        }
        8 => {
            let k = kind(s);
            let mut j = gen_data(s, k, &DK::json()).json(false)?.unwrap_or_default();
            if s.chance(1, 3) {
                let n = s.usize(j.len() + 1);
                while !j.is_char_boundary(n.min(j.len())) {
                    j.pop();
                }
                j.truncate(n);
            }
            Item::Parse(k, j)
        }
        x => match data(s, if x == 11 { DKind::Skel } else { DKind::Mesh }) {
            AnyData::Mesh(m) if x == 9 => Item::MeshEx(m.objects),
            AnyData::Mesh(m) => match m.objects.into_iter().next() {
                // indices past the end are a documented precondition of the adjacency
                Some(o) => {
                    let n = o.positions.first().map(|p| p.data.len()).unwrap_or(0);
                    if o.vertex_indices.iter().all(|i| (*i as usize) < n) {
                        Item::Adj(o)
                    } else {
                        Item::MeshEx(vec![o])
                    }
                }
                None => Item::MeshEx(vec![]),
            },
            AnyData::Skel(d) => Item::Worlds(d),
            _ => unreachable!(),
        },
    })
}

fn pool(c: &mut Ctx, n: u64) -> Result<Vec<Item>, Fail> {
    let mut items = vec![];
    // often of one kind so that what one leaves behind fits another
    let fixed = if c.src.chance(1, 2) { Some(*c.src.pick(&DKINDS)) } else { None };
    for _ in 0..n {
        let i = item(&mut c.src, fixed)?;
        c.label(i.name().split(" from ").next().unwrap().split(" to a").next().unwrap().split(" of ").next().unwrap());
        items.push(i);
    }
    Ok(items)
}

fn history(c: &mut Ctx) -> R {
    let n = c.src.range(1, 5);
    let items = pool(c, n)?;
    let steps = c.src.range(1, 16);
    let order: Vec<usize> = (0..steps).map(|_| c.src.usize(items.len())).collect();
    c.describe(|| {
        let x: Vec<String> = items.iter().map(|i| i.name()).collect();
        format!("{x:?} in the order {order:?}")
    });
    let mut first: Vec<Option<Result_>> = items.iter().map(|_| None).collect();
    let mut done = 0;
    for (n, i) in order.iter().enumerate() {
        let r = items[*i].run()?;
        match &first[*i] {
            None => first[*i] = Some(r),
            Some(x) => {
                done += 1;
                if let Some(d) = x.diff(&r) {
                    fail!("step {n}: {} gives something else than before: {d}", items[*i].name());
                }
            }
        }
    }
    if done > 0 && items.len() > 1 {
        c.interesting(&(order, first.iter().flatten().map(|x| x.show()).collect::<Vec<_>>()));
    }
    Ok(())
}

fn threads(c: &mut Ctx) -> R {
    let n = c.src.range(2, 6);
    let items = pool(c, n)?;
    let mut want = vec![];
    for i in &items {
        want.push(i.run()?);
    }
    let orders: Vec<Vec<usize>> = (0..3)
        .map(|_| {
            let n = c.src.range(2, 8);
            (0..n).map(|_| c.src.usize(items.len())).collect()
        })
        .collect();
    c.describe(|| {
        let x: Vec<String> = items.iter().map(|i| i.name()).collect();
        format!("{x:?} on three threads in the orders {orders:?}")
    });
    c.interesting(&(&orders, want.iter().map(|x| x.show()).collect::<Vec<_>>()));
    let start = &std::sync::Barrier::new(orders.len());
    let results: Vec<R> = std::thread::scope(|scope| {
        let (items, want) = (&items, &want);
        let running: Vec<_> = orders
            .iter()
            .map(|order| {
                scope.spawn(move || -> R {
                    start.wait();
                    for i in order {
                        let r = items[*i].run()?;
                        if let Some(d) = want[*i].diff(&r) {
                            fail!("{} gives something else beside other threads: {d}", items[*i].name());
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        running.into_iter().map(|t| t.join().unwrap_or_else(|_| Err(Fail("a thread panicked".into())))).collect()
    });
    for r in results {
        r?;
    }
    ensure!(want.len() == items.len(), "unreachable");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        level: "exploration",
        rule: "history: an operation is repeated with others in between; threads: several operations at the same time",
        assumptions: &[
            "the result of an operation is the bytes written, the value or the error; errors are compared by their text",
            "writers fail by returning errors; threads share the data only by reference",
        ],
        subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 3_000_000, enumerate: 12, f: history },
            Sub { name: "threads", quick: 8_000, thorough: 400_000, enumerate: 12, f: threads },
        ],
        probes: vec![],
    }
}
