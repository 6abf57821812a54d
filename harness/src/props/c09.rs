//! C09: file-level JSON converts back to the identical file.
use super::first_diff;
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::io::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_lib::prelude::*;
use std::path::PathBuf;

fn knobs(c: &mut Ctx) -> Knobs {
    let mut k = Knobs::json();
    if c.src.chance(1, 2) {
        k.fuel = 80;
        k.big = false;
    }
    k
}

pub fn to_json(f: &AnyFile, pretty: bool) -> Result<Result<String, String>, Fail> {
    macro_rules! text {
        ($x:expr) => {
            if pretty {
                serde_json::to_string_pretty($x)
            } else {
                serde_json::to_string($x)
            }
        };
    }
    lib(|| {
        match f {
            AnyFile::Ssbh(x) => text!(x),
            AnyFile::MeshEx(x) => text!(x),
            AnyFile::Adj(x) => text!(x),
        }
        .map_err(|e| e.to_string())
    })
}

pub fn from_json(k: Kind, s: &str) -> Result<Result<AnyFile, String>, Fail> {
    lib(|| {
        match k {
            Kind::Ssbh(..) => serde_json::from_str::<SsbhFile>(s).map(AnyFile::Ssbh),
            Kind::MeshEx => serde_json::from_str::<MeshEx>(s).map(AnyFile::MeshEx),
            Kind::Adj => serde_json::from_str::<Adj>(s).map(AnyFile::Adj),
        }
        .map_err(|e| e.to_string())
    })
}

fn serde_round_trip(c: &mut Ctx) -> R {
    let k = pick_kind(&mut c.src);
    let mut kn = knobs(c);
    let v = gen_file(&mut c.src, k, &mut kn);
    c.label(k.name());
    c.describe(|| format!("{v:?}"));
    if v.size() > 6 {
        c.interesting(&v);
    }
    let f = AnyFile::from_val(k, &v)?;
    let pretty = c.src.chance(1, 2);
    let json = match to_json(&f, pretty)? {
        Ok(j) => j,
        Err(e) => fail!("{}: no JSON: {e}", k.name()),
    };
    let g = match from_json(k, &json)? {
        Ok(g) => g,
        Err(e) => fail!("{}: the JSON is not accepted: {e}", k.name()),
    };
    if let Some(d) = v.diff(&g.to_val()?) {
        fail!("{}: the value differs after JSON: {d}", k.name());
    }
    ensure!(f.lib_eq(&g), "{}: the value after JSON is not equal", k.name());
    if let Some(d) = first_diff(&canonical(k, &v), &g.bytes()?) {
        fail!("{}: the file written from JSON differs: {d}", k.name());
    }
    Ok(())
}

/// Put null bytes into some of the text; returns the value and what is left of it.
fn nul(s: &mut Src, v: &Val, n: &mut u32) -> (Val, Val) {
    match v {
        Val::Str(b) if s.chance(1, 3) => {
            *n += 1;
            let mut b = b.clone();
            let t: Vec<usize> = match std::str::from_utf8(&b) {
                Ok(t) => t.char_indices().map(|x| x.0).chain([b.len()]).collect(),
                Err(_) => vec![0],
            };
            for _ in 0..s.range(1, 3) {
                let at = *s.pick(&t);
                b.insert(at.min(b.len()), 0);
            }
            if std::str::from_utf8(&b).is_err() {
                b = vec![b'a', 0, b'b'];
            }
            let cut = b.iter().position(|x| *x == 0).unwrap();
            let head = b[..cut].to_vec();
            (Val::Str(b), Val::Str(head))
        }
        Val::Some(x) => {
            let (a, b) = nul(s, x, n);
            (Val::Some(Box::new(a)), Val::Some(Box::new(b)))
        }
        Val::Seq(x) => {
            let (a, b) = x.iter().map(|x| nul(s, x, n)).unzip();
            (Val::Seq(a), Val::Seq(b))
        }
        Val::Map(m) => {
            let (a, b): (Vec<_>, Vec<_>) = m
                .iter()
                .map(|(k, x)| {
                    let (a, b) = nul(s, x, n);
                    ((*k, a), (*k, b))
                })
                .unzip();
            (Val::Map(a), Val::Map(b))
        }
        Val::Variant(name, Some(x)) => {
            let (a, b) = nul(s, x, n);
            (Val::Variant(name, Some(Box::new(a))), Val::Variant(name, Some(Box::new(b))))
        }
        v => (v.clone(), v.clone()),
    }
}

fn edited(c: &mut Ctx) -> R {
    let k = pick_kind(&mut c.src);
    let mut kn = knobs(c);
    let v = gen_file(&mut c.src, k, &mut kn);
    let mut n = 0;
    let (with, _) = nul(&mut c.src, &v, &mut n);
    c.label(k.name());
    c.describe(|| format!("{with:?}"));
    if n > 0 {
        c.interesting(&with);
    }
    let f = AnyFile::from_val(k, &with)?;
    let shown = f.to_val()?;
    let b = f.bytes()?;
    let g = match AnyFile::read_bytes(k, &b)? {
        Ok(g) => g,
        Err(e) => fail!("{}: text with null characters gives a file that cannot be read: {e}", k.name()),
    };
    if let Some(d) = shown.diff(&g.to_val()?) {
        fail!("{}: text with null characters gives a file that reads back differently: {d}", k.name());
    }
    ensure!(f.lib_eq(&g), "{}: text with null characters gives a file that reads back as an unequal value", k.name());
    if let Some(d) = first_diff(&b, &g.bytes()?) {
        fail!("{}: writing the file again gives other bytes: {d}", k.name());
    }
    // the text itself goes through JSON
    if c.src.chance(1, 2) {
        let json = to_json(&f, false)?.map_err(Fail)?;
        match from_json(k, &json)? {
            Ok(h) => {
                if let Some(d) = first_diff(&b, &h.bytes()?) {
                    fail!("{}: the file written from JSON differs: {d}", k.name());
                }
            }
            Err(e) => fail!("{}: the JSON is not accepted: {e}", k.name()),
        }
    }
    Ok(())
}

/// Every finite float keeps its bits: a block of 4096 of them.
fn floats(c: &mut Ctx) -> R {
    let block = c.src.below(1 << 20) as u32;
    c.describe(|| format!("floats with the high bits {block:#x}"));
    c.interesting(&block);
    let mut n = 0u64;
    for chunk in 0..16u32 {
        let xs: Vec<f32> =
            (0..256u32).map(|i| f32::from_bits(block << 12 | chunk << 8 | i)).filter(|x| x.is_finite()).collect();
        for p in xs.chunks_exact(4) {
            let v = ssbh_lib::Vector4::new(p[0], p[1], p[2], p[3]);
            let j = lib(|| serde_json::to_string(&v))?.map_err(|e| Fail(e.to_string()))?;
            let w: ssbh_lib::Vector4 = lib(|| serde_json::from_str(&j))?.map_err(|e| Fail(e.to_string()))?;
            ensure!(
                v.to_array().map(f32::to_bits) == w.to_array().map(f32::to_bits),
                "{v:?} comes back from {j} as {w:?}"
            );
            n += 4;
        }
    }
    c.evals = n.max(1);
    Ok(())
}

pub fn ext(k: Kind) -> &'static str {
    match k.format() {
        "Hlpb" => "nuhlpb",
        "Matl" => "numatb",
        "Modl" => "numdlb",
        "Mesh" => "numshb",
        "Skel" => "nusktb",
        "Anim" => "nuanmb",
        "Nlst" => "nulstb",
        "Nrpd" => "nurpdb",
        "Nufx" => "nufxlb",
        "Shdr" => "nushdb",
        "MeshEx" => "numshexb",
        "Adj" => "adjb",
        x => panic!("{x}"),
    }
}

pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(name: &str) -> Dir {
        let d = scratch().join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    pub fn list(&self) -> Vec<String> {
        let mut v: Vec<String> =
            std::fs::read_dir(&self.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
        v.sort();
        v
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn cli(c: &mut Ctx) -> R {
    let k = pick_kind(&mut c.src);
    let mut kn = knobs(c);
    let v = gen_file(&mut c.src, k, &mut kn);
    let valid = c.src.chance(7, 8);
    let canon = canonical(k, &v);
    let mut b = if c.src.chance(1, 3) { scattered(&mut c.src, k, &v).bytes } else { canon.clone() };
    c.label(if valid { k.name() } else { "unreadable".to_string() });
    if !valid {
        let n = c.src.usize(b.len());
        b.truncate(n);
        if parse_kind(k, &b).is_ok() {
            return Ok(());
        }
    }
    let stem = *c.src.pick(&["model", "a.b", "with space", "ナ"]);
    let extension = match (k, c.src.below(4)) {
        (Kind::Ssbh(..), 3) => *c.src.pick(&["bin", "numdlb", "NUMSHB", "nusrcmdlb"]),
        _ => ext(k),
    };
    let dir = Dir::new("c09");
    let input = format!("{stem}.{extension}");
    std::fs::write(dir.0.join(&input), &b).unwrap();
    let named = c.src.chance(1, 2);
    let json = if named { "out.json".to_string() } else { format!("{input}.json") };
    c.describe(|| format!("{} as {input} -> {json}", k.name()));
    c.interesting(&(&b, &input, named));
    let args: Vec<&str> = if named { vec![&input, &json] } else { vec![&input] };
    let r = tool("ssbh_lib_json", &dir.0, &args);
    c.evals = 1;
    if !valid {
        ensure!(dir.list() == [input.clone()], "{}: an unreadable file was converted: {:?}", k.name(), dir.list());
        ensure!(std::fs::read(dir.0.join(&input)).unwrap() == b, "the input changed");
        return Ok(());
    }
    ensure!(r.ok, "{}: conversion to JSON failed: {}", k.name(), r.text);
    let mut want = vec![input.clone(), json.clone()];
    want.sort();
    ensure!(dir.list() == want, "{}: {:?} instead of {want:?} after conversion to JSON: {}", k.name(), dir.list(), r.text);
    ensure!(std::fs::read(dir.0.join(&input)).unwrap() == b, "the input changed");
    let text = std::fs::read_to_string(dir.0.join(&json)).unwrap_or_default();
    ensure!(
        serde_json::from_str::<serde_json::Value>(&text).is_ok(),
        "{}: the output is not JSON: {:?}",
        k.name(),
        text.chars().take(200).collect::<String>()
    );
    // back
    let named = c.src.chance(1, 2);
    let output = if named {
        format!("second.{}", ext(k))
    } else {
        PathBuf::from(&json).with_extension(ext(k)).to_string_lossy().into_owned()
    };
    let args: Vec<&str> = if named { vec![&json, &output] } else { vec![&json] };
    let r = tool("ssbh_lib_json", &dir.0, &args);
    c.evals += 1;
    ensure!(r.ok, "{}: conversion from JSON failed: {}", k.name(), r.text);
    want.push(output.clone());
    want.sort();
    want.dedup();
    ensure!(dir.list() == want, "{}: {:?} instead of {want:?} after conversion from JSON: {}", k.name(), dir.list(), r.text);
    let got = std::fs::read(dir.0.join(&output)).unwrap();
    if let Some(d) = first_diff(&canon, &got) {
        fail!("{}: the file made from the JSON differs from the canonical file: {d}", k.name());
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_serde_round_trip(c: &mut Ctx) -> R {
    c.src.large = true;
    serde_round_trip(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "round_trip: values with more than 6 parts; edited: at least one text has a null character; floats: a block of 4096 floats; cli: a file is given to the tool",
        assumptions: &[
            "floats are finite and text is UTF-8",
            "a pointer to a null string is left out: JSON has one null for it and the null pointer",
            "refcodec.rs gives the canonical bytes",
        ],
        subs: vec![
            Sub { name: "round_trip", quick: 200_000, thorough: 4_000_000, enumerate: kinds().len() as u64, f: serde_round_trip },
            Sub { name: "large_round_trip", quick: 400, thorough: 24000, enumerate: kinds().len() as u64, f: large_serde_round_trip },
            Sub { name: "edited", quick: 160_000, thorough: 3_000_000, enumerate: kinds().len() as u64, f: edited },
            Sub { name: "floats", quick: 4_000, thorough: 1 << 20, enumerate: 1 << 20, f: floats },
            Sub { name: "cli", quick: 8_000, thorough: 200_000, enumerate: kinds().len() as u64, f: cli },
        ],
        probes: vec![],
    }
}
