//! C10: high-level JSON converts back to the identical data.
use super::c09::Dir;
use super::first_diff;
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::matl_data::*;
use std::path::PathBuf;

fn serde_round_trip(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let mut k = DK::json();
    k.valid = c.src.chance(2, 3);
    let d = gen_data(&mut c.src, kind, &k);
    c.label(kind.name());
    c.describe(|| d.debug());
    let v = d.to_val()?;
    if v.size() > 10 {
        c.interesting(&v);
    }
    let pretty = c.src.chance(1, 2);
    let json = match d.json(pretty)? {
        Ok(j) => j,
        Err(e) => fail!("{}: no JSON: {e}", kind.name()),
    };
    let e = match AnyData::from_json(kind, &json)? {
        Ok(e) => e,
        Err(e) => fail!("{}: the JSON is not accepted: {e}", kind.name()),
    };
    if let Some(d) = v.diff(&e.to_val()?) {
        fail!("{}: the data differs after JSON: {d}", kind.name());
    }
    match (d.bytes()?, e.bytes()?) {
        (Ok(a), Ok(b)) => {
            if let Some(d) = first_diff(&a, &b) {
                fail!("{}: the file saved from the data after JSON differs: {d}", kind.name());
            }
        }
        (Err(_), Err(_)) => {}
        _ => fail!("{}: saving succeeds only before or only after JSON", kind.name()),
    }
    Ok(())
}

pub fn finite(v: &Val) -> bool {
    match v {
        Val::F(x) => f32::from_bits(*x).is_finite(),
        Val::Some(x) | Val::Variant(_, Some(x)) => finite(x),
        Val::Seq(x) => x.iter().all(finite),
        Val::Map(x) => x.iter().all(|(_, x)| finite(x)),
        _ => true,
    }
}

/// Zeros lose their sign and NaNs their bits, buffers their content.
fn numbers(v: &Val) -> Val {
    match v {
        Val::F(b) => {
            let f = f32::from_bits(*b);
            Val::F(if f.is_nan() { f32::NAN.to_bits() } else { (f + 0.0).to_bits() })
        }
        Val::Bytes(b) => Val::U(b.len() as u64),
        Val::Some(x) => Val::Some(Box::new(numbers(x))),
        Val::Variant(n, Some(x)) => Val::Variant(n, Some(Box::new(numbers(x)))),
        Val::Seq(x) => Val::Seq(x.iter().map(numbers).collect()),
        Val::Map(x) => Val::Map(x.iter().map(|(n, x)| (*n, numbers(x))).collect()),
        v => v.clone(),
    }
}

/// The files differ only in the sign of zeros (or the bits of NaNs). The smallest of 0 and -0, for example,
/// is either of them, depending on how the compiler arranges it in the tool and in this program.
fn same_numbers(kind: DKind, a: &[u8], b: &[u8]) -> Result<bool, Fail> {
    if kind != DKind::Mesh && kind != DKind::Anim || a.len() != b.len() {
        return Ok(false);
    }
    for k in kind.kinds() {
        if let (Ok(x), Ok(y)) = (parse_kind(k, a), parse_kind(k, b)) {
            if numbers(&x.val) != numbers(&y.val) {
                return Ok(false);
            }
            let (Ok(x), Ok(y)) = (AnyData::read_bytes(kind, a)?, AnyData::read_bytes(kind, b)?) else { return Ok(false) };
            return Ok(numbers(&x.to_val()?) == numbers(&y.to_val()?));
        }
    }
    Ok(false)
}

fn cli(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    // a file saved from data, or any file of the type
    let b = if c.src.chance(3, 4) {
        let d = gen_data(&mut c.src, kind, &DK::json());
        match d.bytes()? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        }
    } else {
        let ks = kind.kinds();
        let k = *c.src.pick(&ks);
        let mut kn = Knobs::json();
        kn.fuel = 100;
        kn.big = false;
        let v = gen_file(&mut c.src, k, &mut kn);
        let mut b = canonical(k, &v);
        if c.src.chance(1, 6) {
            let n = c.src.usize(b.len());
            b.truncate(n);
        }
        b
    };
    // what the library makes of it
    let data = AnyData::read_bytes(kind, &b)?;
    let want = match &data {
        Ok(d) => {
            if !finite(&d.to_val()?) {
                return Ok(());
            }
            Some(d.bytes()?)
        }
        Err(_) => None,
    };
    let stem = *c.src.pick(&["model", "a.b", "with space", "ナ"]);
    let input = format!("{stem}.{}", kind.ext());
    let dir = Dir::new("c10");
    std::fs::write(dir.0.join(&input), &b).unwrap();
    let named = c.src.chance(1, 2);
    let json = if named { "out.json".to_string() } else { format!("{input}.json") };
    c.describe(|| format!("{} as {input} -> {json}: {data:?}", kind.name()));
    c.label(match &want {
        None => "unreadable".to_string(),
        Some(Err(_)) => format!("{} cannot be saved", kind.name()),
        Some(Ok(_)) => kind.name().to_string(),
    });
    c.interesting(&(&b, &input, named));
    let args: Vec<&str> = if named { vec![&input, &json] } else { vec![&input] };
    let r = tool("ssbh_data_json", &dir.0, &args);
    ensure!(std::fs::read(dir.0.join(&input)).unwrap() == b, "the input changed");
    let Some(want) = want else {
        ensure!(dir.list() == [input.clone()], "{}: an unreadable file was converted: {:?}", kind.name(), dir.list());
        return Ok(());
    };
    ensure!(r.ok, "{}: conversion to JSON failed: {}", kind.name(), r.text);
    let mut files = vec![input.clone(), json.clone()];
    files.sort();
    ensure!(dir.list() == files, "{}: {:?} instead of {files:?} after conversion to JSON: {}", kind.name(), dir.list(), r.text);
    // the document is the data
    let text = std::fs::read_to_string(dir.0.join(&json)).unwrap_or_default();
    match AnyData::from_json(kind, &text)? {
        Ok(e) => {
            if let Some(x) = data.unwrap().to_val()?.diff(&e.to_val()?) {
                fail!("{}: the JSON file holds other data: {x}", kind.name());
            }
        }
        Err(e) => fail!("{}: the JSON file is not accepted: {e}", kind.name()),
    }
    let named = c.src.chance(1, 2);
    let output = if named {
        format!("second.{}", kind.ext())
    } else {
        PathBuf::from(&json).with_extension(kind.ext()).to_string_lossy().into_owned()
    };
    let args: Vec<&str> = if named { vec![&json, &output] } else { vec![&json] };
    let r = tool("ssbh_data_json", &dir.0, &args);
    c.evals = 2;
    match want {
        Ok(want) => {
            ensure!(r.ok, "{}: conversion from JSON failed: {}", kind.name(), r.text);
            files.push(output.clone());
            files.sort();
            files.dedup();
            ensure!(
                dir.list() == files,
                "{}: {:?} instead of {files:?} after conversion from JSON: {}",
                kind.name(),
                dir.list(),
                r.text
            );
            let got = std::fs::read(dir.0.join(&output)).unwrap();
            if let (Some(d), false) = (first_diff(&want, &got), same_numbers(kind, &want, &got)?) {
                fail!("{}: the file made from the JSON differs from the one the library saves: {d}", kind.name());
            }
        }
        Err(_) => {
            ensure!(!r.ok, "{}: data that cannot be saved was reported as saved", kind.name());
            ensure!(dir.list() == files, "{}: data that cannot be saved left {:?}", kind.name(), dir.list());
        }
    }
    Ok(())
}

/// Material documents from before some fields existed get the documented defaults.
fn defaults(c: &mut Ctx) -> R {
    let mut m = matl(&mut c.src, &DK::json());
    let mut j = serde_json::to_value(&m).unwrap();
    let mut n = 0;
    for (i, e) in m.entries.iter_mut().enumerate() {
        let je = j["entries"][i].as_object_mut().unwrap();
        if c.src.chance(1, 2) {
            je.remove("uv_transforms").unwrap();
            e.uv_transforms = vec![];
            n += 1;
        }
        for (s, p) in e.samplers.iter_mut().enumerate() {
            let js = je["samplers"][s]["data"].as_object_mut().unwrap();
            macro_rules! drop_field {
                ($($f:ident = $v:expr;)*) => {$(
                    if c.src.chance(1, 3) {
                        js.remove(stringify!($f)).unwrap();
                        p.data.$f = $v;
                        n += 1;
                    }
                )*};
            }
            drop_field! {
                wraps = ssbh_data::matl_data::WrapMode::ClampToEdge;
                wrapt = WrapMode::ClampToEdge;
                wrapr = WrapMode::ClampToEdge;
                min_filter = MinFilter::LinearMipmapLinear;
                mag_filter = MagFilter::Linear;
                border_color = ssbh_lib::Color4f { r: 0.0, g: 0.0, b: 0.0, a: 0.0 };
                lod_bias = 0.0;
            }
            match c.src.below(4) {
                0 => {
                    js.remove("max_anisotropy").unwrap();
                    p.data.max_anisotropy = MaxAnisotropy::One;
                    n += 1;
                }
                1 => {
                    // earlier documents have null for no anisotropic filtering
                    js["max_anisotropy"] = serde_json::Value::Null;
                    p.data.max_anisotropy = MaxAnisotropy::One;
                    n += 1;
                }
                _ => {}
            }
        }
        for (s, p) in e.blend_states.iter_mut().enumerate() {
            let js = je["blend_states"][s]["data"].as_object_mut().unwrap();
            let d = BlendStateData {
                source_color: BlendFactor::One,
                color_operation: BlendOperation::Add,
                destination_color: BlendFactor::Zero,
                source_alpha: BlendFactor::One,
                alpha_operation: BlendOperation::Add,
                destination_alpha: BlendFactor::Zero,
                alpha_sample_to_coverage: false,
            };
            macro_rules! drop_field {
                ($($f:ident)*) => {$(
                    if c.src.chance(1, 3) {
                        js.remove(stringify!($f)).unwrap();
                        p.data.$f = d.$f;
                        n += 1;
                    }
                )*};
            }
            drop_field!(source_color color_operation destination_color source_alpha alpha_operation destination_alpha alpha_sample_to_coverage);
        }
    }
    let text = j.to_string();
    c.describe(|| text.clone());
    if n > 0 {
        c.interesting(&text);
    }
    match AnyData::from_json(DKind::Matl, &text)? {
        Ok(d) => {
            if let Some(d) = AnyData::Matl(m).to_val()?.diff(&d.to_val()?) {
                fail!("missing fields do not get their defaults: {d}");
            }
        }
        Err(e) => fail!("a document without the later fields is refused: {e}"),
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_serde_round_trip(c: &mut Ctx) -> R {
    c.src.large = true;
    serde_round_trip(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "round_trip: data with more than 10 parts; defaults: at least one field is missing; cli: a file is given to the tool",
        assumptions: &["floats are finite"],
        subs: vec![
            Sub { name: "round_trip", quick: 96_000, thorough: 3_000_000, enumerate: 8, f: serde_round_trip },
            Sub { name: "large_round_trip", quick: 160, thorough: 9600, enumerate: 8, f: large_serde_round_trip },
            Sub { name: "defaults", quick: 48_000, thorough: 1_000_000, enumerate: 0, f: defaults },
            Sub { name: "cli", quick: 6_400, thorough: 200_000, enumerate: 8, f: cli },
        ],
        probes: vec![],
    }
}
