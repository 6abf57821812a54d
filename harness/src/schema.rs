//! Parser for schema.txt, the independent description of every format.
use std::collections::HashMap;
use std::sync::OnceLock;

pub type T = &'static Ty;

#[derive(Debug)]
pub enum Ty {
    Int { w: usize, signed: bool },
    F32,
    Enum { name: &'static str, w: usize, vars: Vec<(&'static str, u64)> },
    Bits(usize),
    Str(u64),
    CStr(u64),
    Bytes,
    Arr(T),
    Rel(u64, T),
    Abs(u64, T),
    Tag(T),
    Tagged { name: &'static str, cases: Vec<(u64, &'static str, T)> },
    Fixed(T, usize),
    Struct { name: &'static str, fields: Vec<(&'static str, T)>, pad: usize },
    Unit,
    /// A vector whose length is stored elsewhere (MeshEx)
    Vec(T),
}

#[derive(Debug)]
pub struct Ver {
    pub major: u16,
    pub minor: u16,
    pub name: &'static str,
    pub body: T,
    pub padfile: usize,
    pub alignfile: u64,
}

#[derive(Debug)]
pub struct Format {
    pub name: &'static str,
    pub magic: [u8; 4],
    pub vers: Vec<Ver>,
}

pub struct Schema {
    pub formats: Vec<Format>,
    pub types: HashMap<&'static str, T>,
}

impl Ty {
    /// Size in the containing structure.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int { w, .. } => *w as u64,
            Ty::F32 => 4,
            Ty::Enum { w, .. } => *w as u64,
            Ty::Bits(n) => *n as u64,
            Ty::Str(_) | Ty::Rel(..) | Ty::Abs(..) => 8,
            Ty::Bytes | Ty::Arr(_) | Ty::Tag(_) => 16,
            Ty::Fixed(t, n) => t.size() * *n as u64,
            Ty::Struct { fields, pad, .. } => fields.iter().map(|f| f.1.size()).sum::<u64>() + *pad as u64,
            Ty::Unit => 0,
            Ty::CStr(_) | Ty::Tagged { .. } | Ty::Vec(_) => panic!("no fixed size"),
        }
    }
}

fn leak(t: Ty) -> T {
    Box::leak(Box::new(t))
}
fn ls(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

struct P {
    toks: Vec<String>,
    i: usize,
    types: HashMap<&'static str, T>,
    templates: HashMap<String, (Vec<String>, Vec<String>)>,
    /// enums and structs may be used before their definition
    late: HashMap<&'static str, usize>,
}

impl P {
    fn next(&mut self) -> String {
        self.i += 1;
        self.toks[self.i - 1].clone()
    }
    fn peek(&self) -> &str {
        self.toks.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn expect(&mut self, s: &str) {
        let t = self.next();
        assert_eq!(t, s, "schema syntax near token {}", self.i);
    }
    fn ty(&mut self) -> T {
        let t = self.next();
        let base = match t.as_str() {
            "u8" => leak(Ty::Int { w: 1, signed: false }),
            "u16" => leak(Ty::Int { w: 2, signed: false }),
            "u32" => leak(Ty::Int { w: 4, signed: false }),
            "u64" => leak(Ty::Int { w: 8, signed: false }),
            "i16" => leak(Ty::Int { w: 2, signed: true }),
            "i32" => leak(Ty::Int { w: 4, signed: true }),
            "f32" => leak(Ty::F32),
            "str" => leak(Ty::Str(4)),
            "str8" => leak(Ty::Str(8)),
            "cstr4" => leak(Ty::CStr(4)),
            "cstr16" => leak(Ty::CStr(16)),
            "bytes" => leak(Ty::Bytes),
            "unit" => leak(Ty::Unit),
            "bits4" => leak(Ty::Bits(4)),
            "bits2" => leak(Ty::Bits(2)),
            "[" => {
                let e = self.ty();
                self.expect("]");
                leak(Ty::Arr(e))
            }
            "*" => {
                let a = self.next().parse().unwrap();
                let e = self.ty();
                leak(Ty::Rel(a, e))
            }
            "@" => {
                let a = self.next().parse().unwrap();
                let e = self.ty();
                leak(Ty::Abs(a, e))
            }
            "tag" => {
                let e = self.ty();
                leak(Ty::Tag(e))
            }
            n => match self.types.get(n) {
                Some(t) => t,
                None => {
                    // defined later
                    let pos = *self.late.get(n).unwrap_or_else(|| panic!("unknown type {n}"));
                    let save = self.i;
                    self.i = pos;
                    self.def();
                    self.i = save;
                    self.types[n]
                }
            },
        };
        if self.peek() == "x" {
            self.next();
            let n = self.next().parse().unwrap();
            return leak(Ty::Fixed(base, n));
        }
        base
    }
    fn fields(&mut self) -> (Vec<(&'static str, T)>, usize) {
        self.expect("{");
        let mut fields = vec![];
        let mut pad = 0;
        while self.peek() != "}" {
            let n = self.next();
            if n == "pad" {
                pad = self.next().parse().unwrap();
                continue;
            }
            self.expect(":");
            let t = self.ty();
            fields.push((ls(&n), t));
        }
        self.next();
        (fields, pad)
    }
    fn def(&mut self) -> Option<Format> {
        let kw = self.next();
        match kw.as_str() {
            "struct" => {
                let name = ls(&self.next());
                let (fields, pad) = self.fields();
                let t = leak(Ty::Struct { name, fields, pad });
                self.types.entry(name).or_insert(t);
            }
            "enum8" | "enum32" | "enum64" => {
                let w = kw[4..].parse::<usize>().unwrap() / 8;
                let name = ls(&self.next());
                self.expect("{");
                let mut vars = vec![];
                while self.peek() != "}" {
                    let n = self.next();
                    self.expect("=");
                    vars.push((ls(&n), self.next().parse().unwrap()));
                }
                self.next();
                let t = leak(Ty::Enum { name, w, vars });
                self.types.entry(name).or_insert(t);
            }
            "tagged" => {
                let name = ls(&self.next());
                self.expect("{");
                let mut cases = vec![];
                while self.peek() != "}" {
                    let tag = self.next().parse().unwrap();
                    let n = self.next();
                    self.expect(":");
                    let t = self.ty();
                    cases.push((tag, ls(&n), t));
                }
                self.next();
                let t = leak(Ty::Tagged { name, cases });
                self.types.entry(name).or_insert(t);
            }
            "template" => {
                let name = self.next();
                self.expect("(");
                let mut args = vec![];
                while self.peek() != ")" {
                    args.push(self.next());
                }
                self.next();
                let start = self.i;
                while self.next() != "}" {}
                self.templates.insert(name, (args, self.toks[start..self.i].to_vec()));
            }
            "use" => {
                let name = ls(&self.next());
                self.expect("=");
                let tn = self.next();
                self.expect("(");
                let mut args = vec![];
                while self.peek() != ")" {
                    args.push(self.next());
                }
                self.next();
                let (params, body) = self.templates[&tn].clone();
                let body: Vec<String> = body
                    .into_iter()
                    .map(|t| params.iter().position(|p| *p == t).map(|i| args[i].clone()).unwrap_or(t))
                    .collect();
                let (save, save_toks) = (self.i, std::mem::replace(&mut self.toks, body));
                self.i = 0;
                let (fields, pad) = self.fields();
                self.toks = save_toks;
                self.i = save;
                let t = leak(Ty::Struct { name, fields, pad });
                self.types.insert(name, t);
            }
            "format" => {
                let name = ls(&self.next());
                let m = self.next();
                let mut padfile = 0;
                let mut alignfile = 1;
                while self.peek() != "{" {
                    match self.next().as_str() {
                        "padfile" => padfile = self.next().parse().unwrap(),
                        "alignfile" => alignfile = self.next().parse().unwrap(),
                        o => panic!("{o}"),
                    }
                }
                self.next();
                let mut vers = vec![];
                while self.peek() != "}" {
                    let v = self.next();
                    let (a, b) = v.split_once('.').unwrap();
                    let vn = ls(&self.next());
                    let mut al = alignfile;
                    if self.peek() == "alignfile" {
                        self.next();
                        al = self.next().parse().unwrap();
                    }
                    let body = if self.peek() == "=" {
                        self.next();
                        self.ty()
                    } else {
                        let (fields, pad) = self.fields();
                        leak(Ty::Struct { name: vn, fields, pad })
                    };
                    vers.push(Ver {
                        major: a.parse().unwrap(),
                        minor: b.parse().unwrap(),
                        name: vn,
                        body,
                        padfile,
                        alignfile: al,
                    });
                }
                self.next();
                return Some(Format { name, magic: m.as_bytes().try_into().unwrap(), vers });
            }
            o => panic!("schema keyword {o}"),
        }
        None
    }
}

fn tokens(text: &str) -> Vec<String> {
    let mut v = vec![];
    for line in text.lines() {
        let line = line.split('#').next().unwrap();
        let mut cur = String::new();
        let chars: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < chars.len() {
            let c = chars[i];
            if c.is_alphanumeric() || c == '_' || c == '.' {
                cur.push(c);
            } else {
                // T*N: no space before the star
                let star_n = c == '*' && !cur.is_empty();
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                if star_n {
                    v.push("x".into());
                } else if !c.is_whitespace() {
                    v.push(c.to_string());
                }
            }
            i += 1;
        }
        if !cur.is_empty() {
            v.push(cur);
        }
    }
    v
}

pub fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let toks = tokens(include_str!("schema.txt"));
        let mut late = HashMap::new();
        for i in 0..toks.len() {
            if matches!(toks[i].as_str(), "struct" | "tagged" | "enum8" | "enum32" | "enum64") {
                late.insert(ls(&toks[i + 1]), i);
            }
        }
        let mut p = P { toks, i: 0, types: HashMap::new(), templates: HashMap::new(), late };
        let mut formats = vec![];
        while p.i < p.toks.len() {
            if let Some(f) = p.def() {
                formats.push(f);
            }
        }
        Schema { formats, types: p.types }
    })
}

/// Every kind of file: an SSBH format and version, or one of the two formats with own headers.
#[derive(Clone, Copy)]
pub enum Kind {
    Ssbh(&'static Format, &'static Ver),
    MeshEx,
    Adj,
}

impl Kind {
    pub fn name(&self) -> String {
        match self {
            Kind::Ssbh(f, v) => format!("{}.{}", f.name, v.name),
            Kind::MeshEx => "MeshEx".into(),
            Kind::Adj => "Adj".into(),
        }
    }
    pub fn format(&self) -> &'static str {
        match self {
            Kind::Ssbh(f, _) => f.name,
            Kind::MeshEx => "MeshEx",
            Kind::Adj => "Adj",
        }
    }
}

pub fn kinds() -> &'static [Kind] {
    static K: OnceLock<Vec<Kind>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v = vec![];
        for f in &schema().formats {
            for ver in &f.vers {
                v.push(Kind::Ssbh(f, ver));
            }
        }
        v.push(Kind::MeshEx);
        v.push(Kind::Adj);
        v
    })
}

pub fn kind(format: &str, ver: &str) -> Kind {
    *kinds()
        .iter()
        .find(|k| match k {
            Kind::Ssbh(f, v) => f.name == format && v.name == ver,
            k => k.format() == format,
        })
        .unwrap()
}
