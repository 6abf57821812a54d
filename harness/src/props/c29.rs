//! C29: the optional features: `arbitrary` makes values that are written and read as any other,
//! `strum` names agree with the stored codes. Built with the harness feature "extra" only.
use crate::alloc;
use crate::dgen::*;
use crate::engine::*;
use crate::file::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use arbitrary::{Arbitrary, Unstructured};
use ssbh_data::prelude::*;
use ssbh_lib::prelude::*;
use ssbh_lib::{Ssbh, Versioned};
use strum::IntoEnumIterator;

const LIMIT: usize = 1 << 30;

/// Bytes for the library's generators: structured (small numbers) or anything.
fn raw(s: &mut Src) -> Vec<u8> {
    let style = s.below(3);
    let n = *s.pick(&[40u64, 8, 150, 500, 1500, 4000]);
    let n = s.range(n / 2, n);
    let mut b = Vec::with_capacity(n as usize + 8);
    while b.len() < n as usize {
        match style {
            0 => b.extend(s.u64().to_le_bytes()),
            1 => b.push(s.below(256) as u8 & s.below(256) as u8),
            _ => b.push(*s.pick(&[0u8, 1, 255, 2, 3, 128, 65, 97])),
        }
    }
    b
}

/// A value made by the library's `arbitrary` support, and its kind.
fn made<T: for<'a> Arbitrary<'a>>(b: &[u8]) -> Result<Option<T>, Fail> {
    let (r, _) = alloc::guarded(LIMIT, LIMIT, || lib(|| T::arbitrary(&mut Unstructured::new(b)).ok()));
    r
}

fn has_nan_or_text(v: &Val) -> bool {
    match v {
        Val::F(b) => f32::from_bits(*b).is_nan(),
        Val::Some(x) | Val::Variant(_, Some(x)) => has_nan_or_text(x),
        Val::Seq(x) => x.iter().any(has_nan_or_text),
        Val::Map(x) => x.iter().any(|x| has_nan_or_text(&x.1)),
        _ => false,
    }
}

fn file(c: &mut Ctx) -> R {
    let which = c.src.below(12);
    let b = raw(&mut c.src);
    macro_rules! ssbh {
        ($v:ident) => {
            made::<Versioned<_>>(&b)?.map(|x| AnyFile::Ssbh(SsbhFile { data: Ssbh::$v(x) }))
        };
    }
    let f = match which {
        0 => ssbh!(Hlpb),
        1 => ssbh!(Modl),
        2 => ssbh!(Mesh),
        3 => ssbh!(Skel),
        4 => ssbh!(Anim),
        5 => ssbh!(Nlst),
        6 => ssbh!(Nrpd),
        7 => ssbh!(Nufx),
        8 => ssbh!(Shdr),
        9 => ssbh!(Matl),
        10 => made::<MeshEx>(&b)?.map(AnyFile::MeshEx),
        _ => made::<Adj>(&b)?.map(AnyFile::Adj),
    };
    let Some(f) = f else {
        c.label("none made");
        return Ok(());
    };
    let v = f.to_val()?;
    c.describe(|| clip(format!("{v:?}")));
    let kind = match &f {
        AnyFile::MeshEx(m) => {
            // one flag per entry is what the format can hold
            if m.entries.as_ref().map(|e| e.len()).unwrap_or(0) != m.entry_flags.as_ref().map(|e| e.0.len()).unwrap_or(0) {
                c.label("MeshEx not representable");
                return Ok(());
            }
            Kind::MeshEx
        }
        AnyFile::Adj(_) => Kind::Adj,
        _ => match &v {
            Val::Variant(f, Some(x)) => match &**x {
                Val::Variant(n, _) => kind(f, n),
                x => fail!("unexpected {x:?}"),
            },
            x => fail!("unexpected {x:?}"),
        },
    };
    c.label(kind.name());
    if v.size() > 12 {
        c.interesting(&v);
    }
    let out = f.bytes()?;
    let (r, _) = alloc::guarded(LIMIT, LIMIT, || AnyFile::read_bytes(kind, &out));
    let r = match r? {
        Ok(r) => r,
        Err(e) => fail!("{}: an arbitrary value cannot be read back: {e}", kind.name()),
    };
    if let Some(d) = v.diff(&r.to_val()?) {
        fail!("{}: an arbitrary value is changed by write and read: {d}", kind.name());
    }
    if !has_nan_or_text(&v) {
        ensure!(f.lib_eq(&r), "{}: the value read back is not equal to the arbitrary one", kind.name());
    }
    let again = r.bytes()?;
    if let Some(d) = super::first_diff(&out, &again) {
        fail!("{}: second write differs: {d}", kind.name());
    }
    // by the format definition
    match parse_kind(kind, &out) {
        Ok(p) => {
            if let Some(d) = v.diff(&lossy(&p.val)) {
                fail!("{}: an arbitrary value is not stored by the format definition: {d}", kind.name());
            }
        }
        Err(e) => fail!("{}: an arbitrary value is not stored by the format definition: {e:?}", kind.name()),
    }
    Ok(())
}

fn data(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let b = raw(&mut c.src);
    let d = match kind {
        DKind::Mesh => made::<MeshData>(&b)?.map(AnyData::Mesh),
        DKind::Skel => made::<SkelData>(&b)?.map(AnyData::Skel),
        DKind::Anim => made::<AnimData>(&b)?.map(AnyData::Anim),
        DKind::Modl => made::<ModlData>(&b)?.map(AnyData::Modl),
        DKind::Matl => made::<MatlData>(&b)?.map(AnyData::Matl),
        DKind::Hlpb => made::<HlpbData>(&b)?.map(AnyData::Hlpb),
        DKind::MeshEx => made::<MeshExData>(&b)?.map(AnyData::MeshEx),
        DKind::Adj => made::<AdjData>(&b)?.map(AnyData::Adj),
    };
    let Some(mut d) = d else {
        c.label("none made");
        return Ok(());
    };
    // a version that can be saved, most of the time
    if c.src.chance(3, 4) {
        match &mut d {
            AnyData::Mesh(m) => (m.major_version, m.minor_version) = (1, *c.src.pick(&[10, 9, 8])),
            AnyData::Skel(m) => (m.major_version, m.minor_version) = (1, 0),
            AnyData::Anim(m) => (m.major_version, m.minor_version) = (2, *c.src.pick(&[0, 1])),
            AnyData::Matl(m) => (m.major_version, m.minor_version) = (1, 6),
            _ => {}
        }
    }
    c.describe(|| d.debug());
    let v = d.to_val()?;
    if v.size() > 12 {
        c.interesting(&v);
    }
    super::c26::save_and_load(&d, c)
}

/// Name, number and stored code of every enumeration value.
fn names(c: &mut Ctx) -> R {
    use ssbh_lib::formats::{anim::GroupType, matl::*, nrpd::UnkFormat, skel::BillboardType};
    macro_rules! table {
        ($($t:ident),*) => {{
            const N: u64 = [$(stringify!($t)),*].len() as u64;
            let i = c.src.below(N);
            let mut n = 0u64;
            $(
                if n == i {
                    c.label(stringify!($t));
                    return one::<$t>(
                        c,
                        stringify!($t),
                        |x| $t::from_repr(x as _).map(|x| x.to_string()),
                        |s| s.parse::<$t>().ok().map(|x| (x as u64, x.to_string())),
                        || $t::iter().map(|x| (x as u64, x.to_string())).collect(),
                    );
                }
                #[allow(unused_assignments)]
                { n += 1; }
            )*
            Ok(())
        }};
    }
    table!(
        ParamId, FillMode, CullMode, WrapMode, MinFilter, MagFilter, FilteringType, MaxAnisotropy, BlendFactor, BlendOperation, GroupType,
        BillboardType, UnkFormat
    )
}

fn one<T>(
    c: &mut Ctx,
    ty: &str,
    from_repr: impl Fn(u64) -> Option<String>,
    parse: impl Fn(&str) -> Option<(u64, String)>,
    iter: impl Fn() -> Vec<(u64, String)>,
) -> R {
    let Ty::Enum { vars, .. } = schema().types[ty] else { fail!("{ty} is no enumeration") };
    let listed = lib(iter)?;
    for (n, code) in vars {
        ensure!(
            listed.iter().filter(|(x, m)| x == code && m == n).count() == 1,
            "{ty}: {n} = {code} is not listed exactly once"
        );
    }
    ensure!(listed.len() == vars.len(), "{ty}: {} values listed, expected {}", listed.len(), vars.len());
    // numbers: any, near a code, or a code
    let code = match c.src.below(3) {
        0 => c.src.pick(vars).1,
        1 => c.src.pick(vars).1.wrapping_add(c.src.below(5)).wrapping_sub(2) & 0xffff,
        _ => c.src.below(256),
    };
    let got = lib(|| from_repr(code))?;
    let want = vars.iter().find(|v| v.1 == code).map(|v| v.0);
    // single byte enumerations do not take larger numbers
    if code < 256 || want.is_some() {
        ensure!(got.as_deref() == want, "{ty}: number {code} is {got:?}, expected {want:?}");
    }
    // names: one, or changed
    let (n, code) = *c.src.pick(vars);
    let mut name = n.to_string();
    if c.src.chance(1, 2) {
        match c.src.below(4) {
            0 => drop(name.pop()),
            1 => name.push(*c.src.pick(&['0', '1', '2', 's', ' '])),
            2 => name = name.to_lowercase(),
            _ => name.insert(0, ' '),
        }
    }
    c.describe(|| format!("{ty} {name:?}"));
    c.interesting(&(ty, &name, code));
    let got = lib(|| parse(&name))?;
    let want = vars.iter().find(|v| v.0 == name).map(|v| (v.1, v.0.to_string()));
    ensure!(got == want, "{ty}: name {name:?} is {got:?}, expected {want:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        level: "exploration",
        rule: "file, data: an arbitrary value with more than 12 parts; names: any name",
        assumptions: &["MeshEx values with another number of flags than entries cannot be stored and are left out"],
        subs: vec![
            Sub { name: "file", quick: 1_200_000, thorough: 40_000_000, enumerate: 12, f: file },
            Sub { name: "data", quick: 1_200_000, thorough: 40_000_000, enumerate: 8, f: data },
            Sub { name: "names", quick: 200_000, thorough: 2_000_000, enumerate: 13, f: names },
        ],
        probes: vec![],
    }
}
