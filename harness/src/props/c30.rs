//! C30: the batch tool names exactly the files that are unreadable or not reproduced.
use super::c04::{flag_mismatch, mutated_file};
use super::c09::{ext, Dir};
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Verdict {
    Silent,
    Differs,
    Unreadable,
}

fn ssbh_ext(s: &mut Src, k: Kind) -> &'static str {
    let own = ext(k);
    if own != "nulstb" && s.chance(2, 3) {
        return own;
    }
    // any of them holds any SSBH file
    s.pick(&["numatb", "numdlb", "numshb", "nusktb", "nurpdb", "nufxlb", "nuanmb", "nuhlpb", "nushdb"])
}

/// Contents for one file of a kind, with what the tool has to say; None: not decided.
fn content(s: &mut Src, k: Kind) -> Option<(Vec<u8>, Verdict)> {
    let b = match s.weighted(&[6, 4, 2, 2, 3, 1]) {
        how @ (0 | 1 | 2 | 3) => {
            let mut kn = Knobs::small();
            kn.utf8 = s.chance(3, 4);
            s.large = s.chance(1, 60);
            let v = gen_file(s, k, &mut kn);
            s.large = false;
            match how {
                0 => canonical(k, &v),
                1 => scattered(s, k, &v).bytes,
                2 => {
                    let mut b = canonical(k, &v);
                    for _ in 0..s.range(1, 20) {
                        b.push(s.below(3) as u8);
                    }
                    b
                }
                _ => {
                    let mut b = canonical(k, &v);
                    let n = s.usize(b.len() + 1);
                    b.truncate(n);
                    b
                }
            }
        }
        4 => mutated_file(s, k),
        _ => s.pick(&[&b""[..], b"HBSS", b"not a model", &[0; 3], b"{\"data\": 1}"]).to_vec(),
    };
    match parse_kind(k, &b) {
        Err(RefErr::Budget) => None,
        Err(RefErr::Bad(_)) => Some((b, Verdict::Unreadable)),
        Ok(p) if matches!(p.kind, Kind::MeshEx) && flag_mismatch(&p.val) => None,
        Ok(p) => {
            let same = canonical(p.kind, &p.val) == b;
            Some((b, if same { Verdict::Silent } else { Verdict::Differs }))
        }
    }
}

/// A leading "./" of the path makes no difference.
fn plain(line: &str) -> String {
    let mut x = line.to_string();
    while let Some(i) = x.find("\"./") {
        x.replace_range(i + 1..i + 3, "");
    }
    x
}

fn batch(c: &mut Ctx) -> R {
    let dir = Dir::new("c30");
    // the folder as given to the tool and where it really is
    // (a leading "./" is left to the probe of the known finding)
    let (root, real) = *c.src.pick(&[
        ("root", "root"),
        ("root/", "root"),
        ("a/b c", "a/b c"),
        (".", "."),
        ("root/.", "root"),
        ("x/../root", "root"),
    ]);
    let real = dir.0.join(real);
    for d in [&dir.0.join("x"), &real] {
        std::fs::create_dir_all(d).map_err(|e| Fail(e.to_string()))?;
    }
    let mut folders = vec![PathBuf::new()];
    let (deep, many) = match c.src.weighted(&[20, 1, 1]) {
        0 => (c.src.range(0, 4), c.src.range(1, 9)),
        1 => (c.src.range(10, 40), c.src.range(1, 9)),
        _ => (c.src.range(0, 30), c.src.range(60, 200)),
    };
    for i in 0..deep {
        // mostly under the last one of many
        let n = folders.len();
        let at = if deep > 4 && c.src.chance(7, 8) { n - 1 } else { c.src.usize(n) };
        let under = folders[at].clone();
        let name = *c.src.pick(&["fighter", "c00", "with space", "ナ", "dots.in.name", "numatb", ".hidden"]);
        folders.push(under.join(format!("{name}{i}")));
    }
    for f in &folders {
        std::fs::create_dir_all(real.join(f)).map_err(|e| Fail(e.to_string()))?;
    }
    let mut want: BTreeMap<String, Verdict> = BTreeMap::new();
    let mut files: Vec<(PathBuf, Vec<u8>)> = vec![];
    for i in 0..many {
        let n = folders.len();
        let at = if deep > 4 && c.src.chance(1, 2) { n - 1 } else { c.src.usize(n) };
        let folder = folders[at].clone();
        let stem = *c.src.pick(&["model", "a.b", "light map", "ナ", "x.numatb", "-v"]);
        let k = pick_kind(&mut c.src);
        let (bytes, verdict) = match content(&mut c.src, k) {
            Some(x) => x,
            None => continue,
        };
        let ignored = c.src.chance(1, 8);
        let e = match k {
            _ if ignored => *c.src.pick(&["nulstb", "json", "numatb.bak", "bin", "nusrcmdlb", "numatbx", "xadjb", "nuflxb"]),
            Kind::Ssbh(..) => ssbh_ext(&mut c.src, k),
            k => ext(k),
        };
        let path: PathBuf = folder.join(format!("{stem}{i}.{e}"));
        std::fs::write(real.join(&path), &bytes).map_err(|e| Fail(e.to_string()))?;
        c.label(if ignored { "other file".into() } else { format!("{verdict:?}") });
        if !ignored {
            let shown = Path::new(root).join(&path);
            match verdict {
                Verdict::Silent => {}
                Verdict::Differs => {
                    want.insert(plain(&format!("Read/write not 1:1 for {shown:?}")), verdict);
                }
                Verdict::Unreadable => {
                    want.insert(plain(&format!("Error reading {shown:?}")), verdict);
                }
            }
        }
        files.push((path, bytes));
    }
    c.describe(|| {
        let f: Vec<String> = files.iter().map(|(p, b)| format!("{p:?}: {}", hex(b))).collect();
        format!("{root}: {}", f.join("; "))
    });
    if !want.is_empty() && want.len() < files.len() {
        c.interesting(&(&files, root));
    }
    let r = tool("ssbh_test", &dir.0, &[root]);
    c.evals = files.len().max(1) as u64;
    ensure!(r.ok, "the tool failed: {} {}", r.out, r.text);
    let mut lines: Vec<String> = r.out.lines().map(plain).collect();
    ensure!(
        lines.pop().is_some_and(|x| x.starts_with("Finished in ")),
        "the last line does not say that it finished: {}",
        r.out
    );
    lines.sort();
    for x in want.keys() {
        ensure!(lines.contains(x), "not reported: {x} (the tool printed {lines:?})");
    }
    for x in &lines {
        ensure!(want.contains_key(x), "reported without reason: {x}");
    }
    ensure!(lines.len() == want.len(), "reported more than once: {lines:?}");
    for (p, b) in &files {
        if &std::fs::read(real.join(p)).unwrap_or_default() != b {
            fail!("{p:?} was changed");
        }
    }
    let mut found = 0;
    count(&dir.0, &mut found);
    ensure!(found == files.len(), "{found} files instead of {} after the run", files.len());
    Ok(())
}

/// Known finding: a folder spelled with a leading "./".
fn leading_dot() -> R {
    for (root, real) in [("./root", "root"), ("./", "."), ("././root", "root"), ("./root/", "root")] {
        let dir = Dir::new("c30p");
        let folder = dir.0.join(real);
        std::fs::create_dir_all(&folder).map_err(|e| Fail(e.to_string()))?;
        std::fs::write(folder.join("model.adjb"), [0u8; 1]).map_err(|e| Fail(e.to_string()))?;
        let r = tool("ssbh_test", &dir.0, &[root]);
        ensure!(r.ok, "the tool failed for {root}: {} {}", r.out, r.text);
        let want = plain(&format!("Error reading {:?}", Path::new(root).join("model.adjb")));
        ensure!(r.out.lines().any(|l| plain(l) == want), "not reported for {root}: {want} (the tool printed {})", r.out);
    }
    Ok(())
}

fn count(d: &Path, n: &mut usize) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            count(&e.path(), n);
        } else {
            *n += 1;
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        level: "exploration",
        rule: "a folder for which the tool has to report at least one file and stay silent on at least one",
        assumptions: &[
            "refcodec.rs (independent reader and writer over schema.txt) decides what a file encodes and its canonical bytes",
            "the listed files are readable regular files; line order is free",
        ],
        subs: vec![Sub { name: "batch", quick: 3_000, thorough: 160_000, enumerate: kinds().len() as u64, f: batch }],
        probes: vec![Probe { key: "leading-dot", f: leading_dot }],
    }
}
