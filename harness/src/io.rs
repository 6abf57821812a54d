//! Readers and writers that transfer little, interrupt, or fail at a chosen operation.
use crate::engine::splitmix;
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// a read with the number of bytes it returned
    Read(usize),
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    Once,
    /// the operation and everything after it fails
    Forever,
    /// writes report that nothing more fits (Ok(0)); other operations as Once
    Zero,
}

/// A cursor that records its operations and fails at one of them.
pub struct Faulty {
    pub inner: Cursor<Vec<u8>>,
    pub ops: Vec<Op>,
    pub fail_at: Option<(usize, Fault)>,
    pub failed: bool,
    pub kind: ErrorKind,
    /// short transfers and interruptions
    pub short: Option<u64>,
    interrupted: bool,
}

impl Faulty {
    pub fn new(b: Vec<u8>) -> Self {
        Faulty {
            inner: Cursor::new(b),
            ops: vec![],
            fail_at: None,
            failed: false,
            kind: ErrorKind::Other,
            short: None,
            interrupted: false,
        }
    }
    fn fault(&mut self) -> Option<Fault> {
        if let Some((at, f)) = self.fail_at {
            let n = self.ops.len();
            if n == at || (n > at && f == Fault::Forever) {
                self.failed = true;
                return Some(f);
            }
        }
        None
    }
    fn err(&self) -> Error {
        Error::new(self.kind, "injected fault")
    }
    /// How many of n bytes to transfer; None = report an interruption instead.
    fn portion(&mut self, n: usize) -> Option<usize> {
        match &mut self.short {
            None => Some(n),
            Some(r) => {
                let x = splitmix(r);
                if x & 7 == 0 && !self.interrupted {
                    self.interrupted = true;
                    return None;
                }
                self.interrupted = false;
                if n == 0 {
                    return Some(0);
                }
                Some(if x & 8 == 0 { 1 } else { 1 + ((x >> 8) % n as u64) as usize })
            }
        }
    }
}

impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.fault().is_some() {
            self.ops.push(Op::Read(0));
            return Err(self.err());
        }
        let r = match self.portion(b.len()) {
            Some(n) => self.inner.read(&mut b[..n]),
            None => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
        };
        self.ops.push(Op::Read(*r.as_ref().unwrap_or(&0)));
        r
    }
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if let Some(f) = self.fault() {
            self.ops.push(Op::Write);
            return if f == Fault::Zero && !b.is_empty() { Ok(0) } else { Err(self.err()) };
        }
        let r = match self.portion(b.len()) {
            Some(n) => self.inner.write(&b[..n]),
            None => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
        };
        self.ops.push(Op::Write);
        r
    }
    fn flush(&mut self) -> Result<()> {
        let f = self.fault().is_some();
        self.ops.push(Op::Flush);
        if f {
            return Err(self.err());
        }
        Ok(())
    }
}

impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let f = self.fault().is_some();
        self.ops.push(Op::Seek);
        if f {
            return Err(self.err());
        }
        self.inner.seek(p)
    }
}

/// A directory of this worker for files the checks create.
pub fn scratch() -> std::path::PathBuf {
    match std::env::var("VERIF_SCRATCH") {
        Ok(d) => d.into(),
        Err(_) => {
            let d = std::env::temp_dir().join(format!("ssbh_verif.scratch.{}", std::process::id()));
            let _ = std::fs::create_dir_all(&d);
            d
        }
    }
}

/// Limits the size of files this process can write while `f` runs (a full disk).
pub fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

pub struct ToolRun {
    pub ok: bool,
    pub text: String,
    pub out: String,
}

/// Run one of the command line tools in a directory.
pub fn tool(name: &str, dir: &std::path::Path, args: &[&str]) -> ToolRun {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let root = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let mut c = std::process::Command::new(format!("{root}/target/debug/{name}"));
    c.args(args).current_dir(dir).stdin(std::process::Stdio::null());
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 30, rlim_max: 30 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let out = c.output().unwrap_or_else(|e| panic!("{name} does not run: {e}"));
    let mut text = String::from_utf8_lossy(&out.stderr).into_owned();
    if let Some(s) = out.status.signal() {
        text.push_str(&format!(" (ended by signal {s})"));
    }
    ToolRun { ok: out.status.success(), text, out: String::from_utf8_lossy(&out.stdout).into_owned() }
}
