//! Runs a property's sub-checks in worker processes, merges the results deterministically,
//! shrinks failures, writes the evidence and replay files.
use crate::engine::*;
use crate::props;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// The first choice is the case number modulo this (systematic enumeration of one dimension).
    pub enumerate: u64,
    pub f: CaseFn,
}

pub struct Probe {
    /// Key in known_findings.txt
    pub key: &'static str,
    /// Ok = the defect is gone, Err = still there as recorded
    pub f: fn() -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub probes: Vec<Probe>,
}

const CASE_CPU_SECONDS: i64 = 100;

fn seed_for(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    hash_of(&(seed, prop, sub, i))
}

fn make_src(sub: &Sub, seed: u64, prop: &str, i: u64) -> Src {
    let mut s = Src::random(seed_for(seed, prop, sub.name, i));
    if sub.enumerate > 0 {
        s.force_first(i % sub.enumerate);
    }
    s
}

fn set_case_timer(secs: i64) {
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
    }
}

fn no_core() {
    unsafe {
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let seed: u64 = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = opt("--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}: {}", p.id, p.subs.iter().map(|s| format!("{}({})", s.name, s.quick)).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("check") => check(&args[1], &tier, seed, opt("--sub"), opt("--cases").and_then(|s| s.parse().ok())),
        Some("worker") => worker(&args[1], &tier, seed, &args),
        Some("case") => case(&args),
        Some("replay") => replay(&args[1]),
        _ => {
            eprintln!("usage: list | check ID [--tier T] [--seed N] [--sub S] [--cases N] | replay FILE");
            2
        }
    }
}

fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

/// The case counts listed with the properties are for a few seconds each.
const QUICK_SCALE: u64 = 2;

fn cases_of(s: &Sub, tier: &str, over: Option<u64>) -> u64 {
    over.unwrap_or(if tier == "thorough" { s.thorough } else { s.quick * QUICK_SCALE })
}

// ---------------------------------------------------------------- worker

fn worker(id: &str, tier: &str, seed: u64, args: &[String]) -> i32 {
    no_core();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let k: u64 = get("--shard").unwrap().parse().unwrap();
    let n: u64 = get("--shards").unwrap().parse().unwrap();
    let dir = PathBuf::from(get("--dir").unwrap());
    let only = get("--sub");
    let over: Option<u64> = get("--cases").and_then(|s| s.parse().ok());
    let deadline: u64 = get("--deadline").unwrap().parse().unwrap();
    let prop = find(id).unwrap();
    let progress = std::fs::File::create(dir.join(format!("progress{k}"))).unwrap();
    let mut stats = Stats::default();
    let mut persub: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    let mut result = serde_json::Value::Null;
    let t0 = Instant::now();
    let mut cut = false;
    'outer: for (si, sub) in prop.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != sub.name) {
            continue;
        }
        let total = cases_of(sub, tier, over);
        let mut samples = 0;
        let mut i = k;
        while i < total {
            // thorough runs stop (without judging) when their time is used up
            if tier == "thorough" && t0.elapsed().as_secs() > deadline {
                cut = true;
                break 'outer;
            }
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(si as u64).to_le_bytes());
            buf[8..].copy_from_slice(&i.to_le_bytes());
            progress.write_at(&buf, 0).unwrap();
            set_case_timer(CASE_CPU_SECONDS);
            let want = samples < 2 || i < n * 2;
            let mut ctx = Ctx::new(make_src(sub, seed, id, i), want);
            let start = Instant::now();
            let out = run_case(sub.f, &mut ctx);
            set_case_timer(0);
            if let Some(f) = std::env::var_os("VERIF_SLOW") {
                // development aid: a list of the slow cases
                if start.elapsed().as_secs() >= 2 {
                    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(f) {
                        let _ = writeln!(f, "{id} {} case {i}: {:?}", sub.name, start.elapsed());
                    }
                }
            }
            stats.cases += 1;
            stats.evals += ctx.evals;
            let e = persub.entry(sub.name).or_default();
            e.0 += 1;
            for l in &ctx.labels {
                *stats.labels.entry(format!("{}:{}", sub.name, l)).or_default() += 1;
            }
            if ctx.nontrivial {
                stats.nontrivial += 1;
                e.1 += 1;
                stats.fingerprints.push(ctx.fingerprint.unwrap_or(0) ^ hash_of(sub.name));
                if samples < 1 && !ctx.desc.is_empty() && k < 3 {
                    samples += 1;
                    let mut d = ctx.desc.join(" | ");
                    if d.len() > 700 {
                        let mut e = 700;
                        while !d.is_char_boundary(e) {
                            e -= 1;
                        }
                        d.truncate(e);
                        d.push_str("...");
                    }
                    stats.samples.push(format!("{}#{}: {}", sub.name, i, d));
                }
            }
            match out {
                Outcome::Pass => {}
                Outcome::Harness(m) => {
                    result = serde_json::json!({"kind": "harness", "sub": si, "i": i, "msg": m});
                    break 'outer;
                }
                Outcome::Fail(msg) => {
                    let log = std::mem::take(&mut ctx.src.log);
                    // Shrinking may hit a hang or an allocation limit: save the unshrunk case first.
                    let pre = serde_json::json!({"kind": "fail", "sub": si, "i": i, "msg": msg, "choices": log});
                    std::fs::write(dir.join(format!("fail{k}")), pre.to_string()).unwrap();
                    let mut last_msg = msg.clone();
                    let f = sub.f;
                    let t0 = Instant::now();
                    set_case_timer(CASE_CPU_SECONDS * 2);
                    let small = shrink(log, 3000, &mut |c| {
                        if t0.elapsed().as_secs() > 45 {
                            return None;
                        }
                        let mut ctx = Ctx::new(Src::replay(c.to_vec()), false);
                        match run_case(f, &mut ctx) {
                            Outcome::Fail(m) => {
                                last_msg = m;
                                Some(ctx.src.log)
                            }
                            _ => None,
                        }
                    });
                    let mut ctx = Ctx::new(Src::replay(small.clone()), true);
                    let msg = match run_case(f, &mut ctx) {
                        Outcome::Fail(m) => m,
                        _ => last_msg,
                    };
                    result = serde_json::json!({"kind": "fail", "sub": si, "i": i, "msg": msg, "choices": small, "desc": ctx.desc});
                    break 'outer;
                }
            }
            i += n;
        }
    }
    let mut h: Vec<u8> = Vec::with_capacity(stats.fingerprints.len() * 8);
    for f in &stats.fingerprints {
        h.extend_from_slice(&f.to_le_bytes());
    }
    std::fs::write(dir.join(format!("fp{k}")), h).unwrap();
    let out = serde_json::json!({
        "cases": stats.cases, "evals": stats.evals, "nontrivial": stats.nontrivial, "labels": stats.labels,
        "samples": stats.samples, "persub": persub, "result": result, "cut": cut,
    });
    std::fs::write(dir.join(format!("out{k}")), out.to_string()).unwrap();
    0
}

// ---------------------------------------------------------------- single case in a child

/// case ID SUB (--index I --seed N | --choices FILE) [--tee FILE]: exit 0 pass, 1 fail, 3 harness error
fn case(args: &[String]) -> i32 {
    no_core();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let prop = find(&args[1]).unwrap();
    let sub = prop.subs.iter().find(|s| s.name == args[2]).unwrap();
    let mut src = match get("--choices") {
        Some(f) => {
            let v: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            Src::replay(v)
        }
        None => make_src(
            sub,
            get("--seed").unwrap().parse().unwrap(),
            prop.id,
            get("--index").unwrap().parse().unwrap(),
        ),
    };
    if let Some(t) = get("--tee") {
        src.tee = Some(std::fs::File::create(t).unwrap());
    }
    let cpu: i64 = get("--cpu").and_then(|s| s.parse().ok()).unwrap_or(CASE_CPU_SECONDS);
    set_case_timer(cpu);
    let mut ctx = Ctx::new(src, get("--describe").is_some());
    let out = run_case(sub.f, &mut ctx);
    for d in &ctx.desc {
        println!("{d}");
    }
    match out {
        Outcome::Pass => 0,
        Outcome::Fail(m) => {
            println!("FAIL {m}");
            1
        }
        Outcome::Harness(m) => {
            println!("HARNESS {m}");
            3
        }
    }
}

fn read_tee(p: &Path) -> Vec<u64> {
    let mut b = Vec::new();
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_end(&mut b);
    }
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

struct CaseRun {
    failed: bool,
    harness: bool,
    msg: String,
    log: Vec<u64>,
}

fn run_child(id: &str, sub: &str, how: &[String], dir: &Path, cpu: i64) -> CaseRun {
    let tee = dir.join("tee");
    let _ = std::fs::remove_file(&tee);
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["case", id, sub])
        .args(how)
        .arg("--tee")
        .arg(&tee)
        .args(["--cpu", &cpu.to_string()])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    use std::os::unix::process::ExitStatusExt;
    let log = read_tee(&tee);
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => CaseRun { failed: false, harness: false, msg: String::new(), log },
        (Some(1), _) => CaseRun {
            failed: true,
            harness: false,
            msg: text.lines().find(|l| l.starts_with("FAIL ")).unwrap_or("FAIL").to_string(),
            log,
        },
        (Some(c), _) if c == crate::alloc::EXIT_ALLOC => CaseRun {
            failed: true,
            harness: false,
            msg: format!("memory requested out of proportion to the input: {}", err.trim()),
            log,
        },
        (_, Some(libc::SIGVTALRM)) => CaseRun {
            failed: true,
            harness: false,
            msg: format!("the case used more than {cpu} s of CPU time (does not terminate)"),
            log,
        },
        (_, Some(s)) if s == libc::SIGKILL || s == libc::SIGTERM => {
            CaseRun { failed: false, harness: true, msg: format!("killed by signal {s}"), log }
        }
        (_, Some(s)) => CaseRun {
            failed: true,
            harness: false,
            msg: format!("process ended by signal {s}: {}", err.trim()),
            log,
        },
        (c, _) => CaseRun { failed: false, harness: true, msg: format!("child exit {c:?}: {text} {err}"), log },
    }
}

// ---------------------------------------------------------------- check

struct Failure {
    sub: usize,
    i: u64,
    msg: String,
    choices: Vec<u64>,
    desc: Vec<String>,
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    // known: property=C20 key=rel-order text...
    let mut v = vec![];
    let Ok(text) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return v };
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("");
            let t = it.next().unwrap_or("");
            if p == format!("property={id}") {
                v.push((k.trim_start_matches("key=").to_string(), t.to_string()));
            }
        }
    }
    v
}

fn check(id: &str, tier: &str, seed: u64, only: Option<String>, over: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let base = std::env::temp_dir().join(format!("ssbh_verif.{}.{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    struct Clean(PathBuf);
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _clean = Clean(base.clone());

    // Known findings: report the listed ones that still reproduce.
    let known = known_keys(id);
    let mut probe_violation: Option<(String, String)> = None;
    for p in &prop.probes {
        let r = lib(p.f);
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(Fail(m))) => Some(m),
            Err(Fail(m)) => Some(m),
        };
        if let Some(m) = err {
            match known.iter().find(|(k, _)| k == p.key) {
                Some((_, text)) => println!("KNOWN-FINDING: property={id} {text}"),
                None => probe_violation = Some((p.key.to_string(), m)),
            }
        }
    }

    let n = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16)
    });
    let budget = if tier == "thorough" { 600 } else { 600 };
    let mut kids = vec![];
    for k in 0..n {
        let scratch = base.join(format!("scratch{k}"));
        std::fs::create_dir_all(&scratch).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["worker", id, "--tier", tier, "--seed", &seed.to_string(), "--shard", &k.to_string()])
            .args(["--shards", &n.to_string(), "--dir"])
            .arg(&base)
            .args(["--deadline", &budget.to_string()])
            .env("VERIF_SCRATCH", &scratch)
            .env("TMPDIR", &scratch)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(base.join(format!("err{k}"))).unwrap());
        if let Some(o) = &only {
            c.args(["--sub", o]);
        }
        if let Some(o) = over {
            c.args(["--cases", &o.to_string()]);
        }
        kids.push(c.spawn().unwrap());
    }
    // wait
    let hard = Duration::from_secs(if tier == "thorough" { 820 } else { 780 });
    let mut status: Vec<Option<std::process::ExitStatus>> = vec![None; n as usize];
    loop {
        let mut alive = 0;
        for (k, c) in kids.iter_mut().enumerate() {
            if status[k].is_none() {
                match c.try_wait().unwrap() {
                    Some(s) => status[k] = Some(s),
                    None => alive += 1,
                }
            }
        }
        if alive == 0 {
            break;
        }
        if t0.elapsed() > hard {
            for c in kids.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            eprintln!("{id}: out of time");
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let mut failures: Vec<Failure> = vec![];
    let mut harness_err: Option<String> = None;
    let mut cases = 0u64;
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut cut = false;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut persub: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fps: HashSet<u64> = HashSet::new();
    for k in 0..n {
        use std::os::unix::process::ExitStatusExt;
        let st = status[k as usize].unwrap();
        let outp = base.join(format!("out{k}"));
        if st.code() == Some(0) && outp.exists() {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&outp).unwrap()).unwrap();
            cases += v["cases"].as_u64().unwrap();
            evals += v["evals"].as_u64().unwrap();
            nontrivial += v["nontrivial"].as_u64().unwrap();
            cut |= v["cut"].as_bool().unwrap();
            for (l, c) in v["labels"].as_object().unwrap() {
                *labels.entry(l.clone()).or_default() += c.as_u64().unwrap();
            }
            for (l, c) in v["persub"].as_object().unwrap() {
                let e = persub.entry(l.clone()).or_default();
                e.0 += c[0].as_u64().unwrap();
                e.1 += c[1].as_u64().unwrap();
            }
            for s in v["samples"].as_array().unwrap() {
                samples.push(s.as_str().unwrap().to_string());
            }
            let h = std::fs::read(base.join(format!("fp{k}"))).unwrap();
            fps.extend(h.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            let r = &v["result"];
            match r["kind"].as_str() {
                Some("fail") => failures.push(failure_of(r)),
                Some("harness") => {
                    harness_err = Some(format!(
                        "harness error in {} case {}: {}",
                        prop.subs[r["sub"].as_u64().unwrap() as usize].name, r["i"], r["msg"]
                    ))
                }
                _ => {}
            }
        } else {
            // died: which case?
            let err = std::fs::read_to_string(base.join(format!("err{k}"))).unwrap_or_default();
            let failp = base.join(format!("fail{k}"));
            if failp.exists() {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&failp).unwrap()).unwrap();
                failures.push(failure_of(&v));
                continue;
            }
            let sig = st.signal();
            if sig == Some(libc::SIGKILL) || sig == Some(libc::SIGTERM) {
                harness_err = Some(format!("worker {k} was killed (signal {sig:?})"));
                continue;
            }
            let pb = std::fs::read(base.join(format!("progress{k}"))).unwrap_or_default();
            if pb.len() != 16 {
                harness_err = Some(format!("worker {k} died before its first case: {st:?} {err}"));
                continue;
            }
            let si = u64::from_le_bytes(pb[..8].try_into().unwrap()) as usize;
            let i = u64::from_le_bytes(pb[8..].try_into().unwrap());
            let name = prop.subs[si].name;
            let how = vec!["--seed".to_string(), seed.to_string(), "--index".to_string(), i.to_string()];
            let first = run_child(id, name, &how, &base, CASE_CPU_SECONDS);
            if !first.failed {
                harness_err = Some(format!(
                    "worker {k} died in {name} case {i} ({st:?}: {}), not reproduced: {}",
                    err.trim(),
                    first.msg
                ));
                continue;
            }
            let hang = first.msg.contains("CPU time");
            let mut msg = first.msg.clone();
            let cf = base.join("choices");
            let budget = if hang { 8 } else { 500 };
            let small = shrink(first.log, budget, &mut |c| {
                std::fs::write(&cf, serde_json::to_string(c).unwrap()).unwrap();
                let how = vec!["--choices".to_string(), cf.display().to_string()];
                let r = run_child(id, name, &how, &base, 10);
                if r.failed {
                    msg = r.msg;
                    Some(r.log)
                } else {
                    None
                }
            });
            failures.push(Failure { sub: si, i, msg, choices: small, desc: vec![] });
        }
    }
    failures.sort_by_key(|f| (f.sub, f.i));
    let wall = t0.elapsed().as_secs_f64();
    let mut violations = vec![];
    for f in failures.iter().take(1) {
        let sub = &prop.subs[f.sub];
        let rep = serde_json::json!({
            "property": id, "sub": sub.name, "case": f.i, "seed": seed, "tier": tier,
            "message": f.msg, "input": f.desc, "choices": f.choices,
        });
        let dir = verif_dir().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let name = format!("{}-{}-{:016x}.json", id, sub.name, hash_of(&f.choices));
        let path = dir.join(name);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("{id} {}: {}", sub.name, f.msg);
        for d in f.desc.iter().take(6) {
            let d: String = d.chars().take(1500).collect();
            println!("  input: {d}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        violations.push(serde_json::json!({"replay": path.display().to_string(), "message": f.msg}));
    }
    if let (Some((key, m)), true) = (&probe_violation, failures.is_empty()) {
        let dir = verif_dir().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{id}-probe-{key}.json"));
        let rep = serde_json::json!({"property": id, "probe": key, "message": m});
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("{id} regression {key}: {m}");
        println!("VIOLATION property={id} replay={}", path.display());
        violations.push(serde_json::json!({"replay": path.display().to_string(), "message": m}));
    }
    samples.truncate(12);
    let mut ev = serde_json::json!({
        "property": id, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": fps.len(),
            "rule": prop.rule,
            "per_generator": persub.iter().map(|(k, v)| (k.clone(), serde_json::json!({"cases": v.0, "nontrivial": v.1}))).collect::<serde_json::Map<_, _>>(),
            "labels": labels,
            "samples": samples,
            "stopped_by_time": cut,
        },
        "assumptions": prop.assumptions,
        "violations": violations.len(),
        "violation_details": violations,
        "wall_s": wall,
    });
    // counts that say something of their own
    if evals != cases {
        ev["coverage"]["assertions_on_sub_inputs"] = evals.into();
    }
    if nontrivial != fps.len() as u64 {
        ev["coverage"]["nontrivial_with_repeats"] = nontrivial.into();
    }
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    if only.is_none() {
        std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{id}: {cases} cases ({evals} evaluations), {nontrivial} non-trivial, {} distinct, {wall:.1} s",
        fps.len()
    );
    let _ = std::io::stdout().flush();
    if !violations.is_empty() {
        return 1;
    }
    if let Some(e) = harness_err {
        eprintln!("{e}");
        return 2;
    }
    0
}

fn failure_of(r: &serde_json::Value) -> Failure {
    Failure {
        sub: r["sub"].as_u64().unwrap() as usize,
        i: r["i"].as_u64().unwrap(),
        msg: r["msg"].as_str().unwrap().to_string(),
        choices: r["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect(),
        desc: r["desc"]
            .as_array()
            .map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect())
            .unwrap_or_default(),
    }
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let prop = find(id).unwrap();
    if let Some(key) = v["probe"].as_str() {
        let p = prop.probes.iter().find(|p| p.key == key).unwrap();
        return match lib(p.f) {
            Ok(Ok(())) => {
                println!("replay: passes");
                0
            }
            Ok(Err(Fail(m))) | Err(Fail(m)) => {
                println!("replay: {m}\nVIOLATION property={id} replay={path}");
                1
            }
        };
    }
    let dir = std::env::temp_dir().join(format!("ssbh_verif.replay.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let cf = dir.join("choices");
    std::fs::write(&cf, v["choices"].to_string()).unwrap();
    std::env::set_var("VERIF_SCRATCH", &dir);
    let how = vec!["--choices".into(), cf.display().to_string(), "--describe".into(), "1".into()];
    let r = run_child(id, v["sub"].as_str().unwrap(), &how, &dir, CASE_CPU_SECONDS);
    let _ = std::fs::remove_dir_all(&dir);
    if r.failed {
        println!("replay: {}\nVIOLATION property={id} replay={path}", r.msg);
        1
    } else if r.harness {
        println!("replay: {}", r.msg);
        2
    } else {
        println!("replay: passes");
        0
    }
}
