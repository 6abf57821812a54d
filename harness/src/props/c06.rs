//! C06: wrong type, version, code or truncation is an error.
use crate::engine::*;
use crate::file::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};

fn small(c: &mut Ctx) -> (Kind, Val, Vec<u8>, Parsed) {
    let kind = pick_kind(&mut c.src);
    let mut k = Knobs::small();
    k.utf8 = c.src.chance(4, 5);
    let v = gen_file(&mut c.src, kind, &mut k);
    let b = if c.src.chance(1, 3) { scattered(&mut c.src, kind, &v).bytes } else { canonical(kind, &v) };
    let p = parse_kind(kind, &b).unwrap_or_else(|e| panic!("reference reader refuses a reference file: {e:?}"));
    c.label(kind.name());
    (kind, v, b, p)
}

/// A file with one large part that is cut off near its end.
fn large_truncated(c: &mut Ctx) -> R {
    let kind = pick_kind(&mut c.src);
    let mut k = Knobs::small();
    c.src.large = true;
    let v = gen_file(&mut c.src, kind, &mut k);
    c.src.large = false;
    let b = if c.src.chance(1, 2) { scattered(&mut c.src, kind, &v).bytes } else { canonical(kind, &v) };
    let p = match parse_kind(kind, &b) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    c.label(kind.name());
    let mut cuts: Vec<u64> = vec![p.needed - 1];
    for _ in 0..5 {
        let x = *c.src.pick(&[4, 16, 64, 256, 1024, 4096, 65536]);
        cuts.push(p.needed.saturating_sub(1 + c.src.below(x)));
    }
    cuts.push(c.src.below(p.needed));
    for _ in 0..3 {
        // inside one of the parts (up to the next place that is referred to)
        let r = &p.sites[c.src.usize(p.sites.len())];
        cuts.push((r.at + r.len + c.src.below(5000)).min(p.needed - 1));
    }
    cuts.sort();
    cuts.dedup();
    c.interesting(&(&b, &cuts));
    c.evals = cuts.len() as u64;
    c.describe(|| format!("{} of {} bytes cut to {cuts:?}", kind.name(), b.len()));
    for n in cuts {
        let got = AnyFile::read_bytes(kind, &b[..n as usize])?;
        ensure!(
            got.is_err(),
            "{}: cut to {n} of {} bytes (data up to byte {} is referred to) is read as a value",
            kind.name(),
            b.len(),
            p.needed
        );
    }
    Ok(())
}

/// The library's verdict on `b` must be the reference reader's.
fn agree(kind: Kind, b: &[u8], what: &str) -> Result<bool, Fail> {
    let want = parse_kind(kind, b);
    let got = AnyFile::read_bytes(kind, b)?;
    match (want, got) {
        (Err(RefErr::Budget), _) => Ok(false),
        (Err(RefErr::Bad(_)), Err(_)) => Ok(false),
        (Err(RefErr::Bad(e)), Ok(_)) => fail!("{}: {what}: accepted ({e})", kind.name()),
        (Ok(p), Err(e)) => fail!("{}: {what}: refused: {e}", p.kind.name()),
        (Ok(p), Ok(f)) => {
            if let Some(d) = lossy(&p.val).diff(&f.to_val()?) {
                fail!("{}: {what}: read as another value: {d}", p.kind.name());
            }
            Ok(true)
        }
    }
}

fn truncated(c: &mut Ctx) -> R {
    let (kind, v, b, p) = small(c);
    let mut cuts: Vec<usize> = if b.len() <= 160 {
        (0..b.len()).collect()
    } else {
        let mut x: Vec<usize> = (0..40).map(|_| c.src.usize(b.len())).collect();
        x.extend([p.needed as usize - 1, p.needed as usize, 0, b.len() - 1]);
        for _ in 0..20 {
            let r = &p.sites[c.src.usize(p.sites.len())];
            x.push((r.at + c.src.below(r.len)) as usize);
        }
        x
    };
    cuts.sort();
    cuts.dedup();
    c.interesting(&b);
    c.evals = cuts.len() as u64;
    c.describe(|| format!("{} cuts of {}", cuts.len(), hex(&b)));
    for n in cuts {
        if n > b.len() {
            continue;
        }
        let cut = &b[..n];
        let got = AnyFile::read_bytes(kind, cut)?;
        if (n as u64) < p.needed {
            ensure!(
                got.is_err(),
                "{}: cut to {n} of {} bytes (data up to byte {} is referred to) is read as a value",
                kind.name(),
                b.len(),
                p.needed
            );
            if let Kind::Ssbh(f, _) = kind {
                match typed_read(f.name, cut)? {
                    Typed::Value(_) => fail!("{}: cut to {n} bytes is read as a value by the typed reader", kind.name()),
                    _ => {}
                }
            }
        } else {
            let f = match got {
                Ok(f) => f,
                Err(e) => fail!("{}: cutting only unused bytes (at {n}) makes the file unreadable: {e}", kind.name()),
            };
            let want = match kind {
                Kind::Adj => parse_kind(kind, cut).ok().unwrap().val,
                _ => lossy(&v),
            };
            if let Some(d) = want.diff(&f.to_val()?) {
                fail!("{}: cutting unused bytes (at {n}) changes the value: {d}", kind.name());
            }
        }
    }
    Ok(())
}

fn codes(c: &mut Ctx) -> R {
    let (kind, _, b, p) = small(c);
    let sites: Vec<&Region> = p.sites.iter().filter(|r| r.what == "enum" || r.what == "tag").collect();
    if sites.is_empty() {
        return Ok(());
    }
    let r = sites[c.src.usize(sites.len())];
    let (at, w) = (r.at as usize, r.len as usize);
    c.interesting(&(b.clone(), at));
    c.label(r.what);
    let mut list: Vec<u64> = (0..=80).collect();
    list.extend([255, 256, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, u64::MAX, 0x7fff_ffff_ffff_ffff]);
    let mut x = [0u8; 8];
    x[..w].copy_from_slice(&b[at..at + w]);
    let old = u64::from_le_bytes(x);
    for sh in 0..64 {
        list.push(old ^ (1 << sh));
    }
    for _ in 0..8 {
        list.push(c.src.u64());
        list.push(c.src.below(400));
    }
    c.describe(|| format!("{} codes at {at} of {}", list.len(), hex(&b)));
    let mut ok = 0;
    let mut m = b.clone();
    for code in list.iter() {
        m[at..at + w].copy_from_slice(&code.to_le_bytes()[..w]);
        c.evals += 1;
        if agree(kind, &m, &format!("code {code} at byte {at}"))? {
            ok += 1;
        }
    }
    if ok > 0 {
        c.label("some codes accepted");
    }
    Ok(())
}

/// Offsets and counts that lead anywhere: into the file, just past it, backwards, far away.
fn places(c: &mut Ctx) -> R {
    let (kind, _, b, p) = small(c);
    let sites: Vec<&Region> = p.sites.iter().filter(|r| r.what == "offset" || r.what == "count").collect();
    if sites.is_empty() {
        return Ok(());
    }
    let r = sites[c.src.usize(sites.len())];
    let (at, w) = (r.at as usize, r.len as usize);
    c.interesting(&(b.clone(), at));
    c.label(r.what);
    let n = b.len() as u64;
    let mut x = [0u8; 8];
    x[..w].copy_from_slice(&b[at..at + w]);
    let old = u64::from_le_bytes(x);
    let mut list: Vec<u64> = (0..=24).collect();
    for base in [0, n, n - at as u64, at as u64, 1 << 32, 1 << 63, 100 << 20] {
        for d in 0..6 {
            list.push(base.wrapping_add(d));
            list.push(base.wrapping_sub(d));
        }
    }
    for sh in [8, 12, 15, 16, 23, 24, 31, 32, 33, 40, 47, 48, 62, 63] {
        list.push(old ^ (1 << sh));
        list.push(old | u64::MAX << sh);
        list.push((1 << sh) - 1);
    }
    for _ in 0..6 {
        list.push((c.src.below(n + 40)).wrapping_neg());
        list.push(c.src.below(n + 40));
        list.push(c.src.u64() >> c.src.below(64));
    }
    c.describe(|| format!("{} values of the {} at {at} of {}", list.len(), r.what, hex(&b)));
    let mut ok = 0;
    let mut m = b.clone();
    for v in list.iter() {
        m[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
        c.evals += 1;
        if agree(kind, &m, &format!("{} {v:#x} at byte {at}", r.what))? {
            ok += 1;
        }
    }
    if ok > 0 {
        c.label("some places accepted");
    }
    Ok(())
}

fn versions(c: &mut Ctx) -> R {
    let (kind, _, mut b, _) = small(c);
    let Kind::Ssbh(f, ver) = kind else { return Ok(()) };
    let mut pairs: Vec<(u16, u16)> = vec![];
    for a in 0..12 {
        for d in 0..12 {
            pairs.push((a, d));
        }
    }
    for _ in 0..60 {
        let (a, d) = (c.src.u64() as u16, c.src.u64() as u16);
        pairs.push((a, d));
        pairs.push((a, ver.minor));
        pairs.push((ver.major, d));
        pairs.push((ver.major, (d as u8) as u16));
    }
    pairs.push((ver.minor, ver.major));
    pairs.push((ver.major.swap_bytes(), ver.minor.swap_bytes()));
    pairs.push((ver.major, ver.minor | 0x100));
    pairs.push((ver.major | 0x100, ver.minor));
    c.interesting(&b);
    c.describe(|| format!("{} version pairs for {}", pairs.len(), kind.name()));
    for (a, d) in pairs {
        b[20..22].copy_from_slice(&a.to_le_bytes());
        b[22..24].copy_from_slice(&d.to_le_bytes());
        c.evals += 1;
        let known = f.vers.iter().any(|v| v.major == a && v.minor == d);
        if !known {
            if let Ok(_) = AnyFile::read_bytes(kind, &b)? {
                fail!("{} file with unsupported version {a}.{d} is read as a value", f.name);
            }
            if let Typed::Value(_) = typed_read(f.name, &b)? {
                fail!("{} file with unsupported version {a}.{d} is read as a value", f.name);
            }
        } else {
            agree(kind, &b, &format!("version {a}.{d}"))?;
        }
    }
    Ok(())
}

fn types(c: &mut Ctx) -> R {
    let (kind, v, b, _) = small(c);
    let Kind::Ssbh(f, _) = kind else { return Ok(()) };
    c.interesting(&b);
    c.describe(|| format!("{} {}", kind.name(), hex(&b)));
    let v = lossy(&v);
    for name in TYPED {
        c.evals += 1;
        match typed_read(name, &b)? {
            Typed::Value(t) => {
                ensure!(*name == f.name, "{name}::read accepted a {} file", f.name);
                if let Some(d) = v.diff(&t) {
                    fail!("{name}::read: {d}");
                }
            }
            Typed::WrongType => {
                ensure!(*name != f.name, "{name}::read reports the type of a {name} file as wrong");
            }
            Typed::Other(e) => fail!("{name}::read on a {} file: error other than the wrong type: {e}", f.name),
        }
    }
    match AnyFile::read_bytes(kind, &b)? {
        Ok(x) => {
            if let Some(d) = v.diff(&x.to_val()?) {
                fail!("SsbhFile::read: {d}");
            }
        }
        Err(e) => fail!("SsbhFile::read: {e}"),
    }
    // unknown magics
    for i in 0..40 {
        let mut m = b.clone();
        let at = if i % 2 == 0 { 0 } else { 16 };
        if c.src.chance(1, 2) {
            m[at + c.src.usize(4)] ^= 1 << c.src.below(8);
        } else {
            let x = c.src.u64() as u32;
            m[at..at + 4].copy_from_slice(&x.to_le_bytes());
        }
        c.evals += 1;
        agree(kind, &m, "changed magic")?;
        if m[..4] != *b"HBSS" {
            if let Ok(_) = AnyFile::read_bytes(kind, &m)? {
                fail!("a file without the HBSS header is read");
            }
        }
    }
    // every type's magic on this body
    for g in &schema().formats {
        let mut m = b.clone();
        m[16..20].copy_from_slice(&g.magic);
        c.evals += 1;
        let ok = agree(kind, &m, &format!("magic of {}", g.name))?;
        match typed_read(g.name, &m)? {
            Typed::Value(_) => ensure!(ok, "{}::read accepts what SsbhFile::read refuses", g.name),
            Typed::WrongType => fail!("{}::read reports a file with its magic as another type", g.name),
            Typed::Other(_) => ensure!(!ok, "{}::read refuses what SsbhFile::read accepts", g.name),
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "a file of a supported format put through the whole list of cuts, codes, versions or readers",
        assumptions: &["schema.txt lists the supported versions and codes; refcodec.rs tells which bytes are referred to"],
        subs: vec![
            Sub { name: "truncated", quick: 19_500, thorough: 900_000, enumerate: kinds().len() as u64, f: truncated },
            Sub { name: "large_truncated", quick: 900, thorough: 60_000, enumerate: kinds().len() as u64, f: large_truncated },
            Sub { name: "codes", quick: 19_500, thorough: 900_000, enumerate: kinds().len() as u64, f: codes },
            Sub { name: "places", quick: 6_000, thorough: 300_000, enumerate: kinds().len() as u64, f: places },
            Sub { name: "versions", quick: 3_900, thorough: 120_000, enumerate: kinds().len() as u64, f: versions },
            Sub { name: "types", quick: 10_400, thorough: 400_000, enumerate: kinds().len() as u64, f: types },
        ],
        probes: vec![],
    }
}
