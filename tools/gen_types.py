#!/usr/bin/env python3
"""Writes harness/src/types_gen.rs: random types deriving SsbhWrite, each with the description of
its layout that the reference writer of C03 uses. Run by hand; the result is committed."""
import random, os
R = random.Random(20240607)
out = []
types = []   # (name, kind) kind: uniform inline size known?, flat?
PR = ["u8","u16","u32","u64","i8","i16","i32","i64","f32","f64","u128","i128","NonZeroU8","NonZeroU32","NonZeroI16","NonZeroU64"]
class Ty:
    def __init__(s, name, uniform=True, flat=True, enum=False, copy=False):
        s.name, s.uniform, s.flat, s.enum = name, uniform, flat, enum
prims = [Ty(p) for p in PR]
structs = []   # usable anywhere
enums64 = []   # usable in SsbhEnum64
def inner(depth=0):
    """a type usable as a field"""
    c = R.random()
    if c < 0.30: return R.choice(prims)
    if c < 0.42 and structs: return R.choice(structs)
    if c < 0.50:
        t = target(depth+1); return Ty(f"RelPtr64<{t.name}>", True, False)
    if c < 0.56:
        t = target(depth+1); return Ty(f"{R.choice(['Ptr16','Ptr32','Ptr64','Ptr64'])}<{t.name}>", True, False)
    if c < 0.68:
        t = elem(depth+1); return Ty(f"SsbhArray<{t.name}>", True, False)
    if c < 0.72: return Ty("SsbhByteBuffer", True, False)
    if c < 0.80: return Ty(R.choice(["SsbhString","SsbhString8"]), True, False)
    if c < 0.86 and enums64: return Ty(f"SsbhEnum64<{R.choice(enums64)}>", True, False)
    if c < 0.91:
        t = elem(depth+1); n = R.randint(1,4); return Ty(f"[{t.name}; {n}]", True, t.flat)
    if c < 0.94:
        t = elem(depth+1); return Ty(f"Vec<{t.name}>", False, t.flat)
    if c < 0.97:
        t = R.choice(prims + structs); return Ty(f"Option<{t.name}>", False, t.flat)
    return Ty("()", True, True)
def elem(depth):
    for _ in range(50):
        t = inner(depth) if depth < 4 else R.choice(prims)
        if t.uniform and t.name != "()": return t
    return prims[0]
def target(depth):
    c = R.random()
    if c < 0.15: return Ty(R.choice(["CString<4>","CString<8>","CString<1>"]))
    if c < 0.3:
        t = elem(depth); return Ty(f"Vec<{t.name}>", False, t.flat)
    if depth >= 4: return R.choice(prims)
    for _ in range(50):
        t = inner(depth)
        if not t.name.startswith("Option"): return t
    return prims[2]
def attr(pad, align_after, alignment, magic, repr_=None):
    a = []
    if pad: a.append(f"pad_after = {pad}")
    if align_after: a.append(f"align_after = {align_after}")
    if alignment: a.append(f"alignment = {alignment}")
    if magic: a.append(f'magic = b"{magic}"')
    r = ""
    if repr_: r = f"#[ssbhwrite(repr({repr_}))]\n"
    if a: r += f"#[ssbhwrite({', '.join(a)})]\n"
    return r
def magic(): return "".join(R.choice("ABCDEFGHIJKLMNOP") for _ in range(R.randint(9,40) if BIG else R.randint(1,8)))
BIG = False   # larger paddings and longer magics
def padding(n): return R.choice([16,17,31,32,33,64,100,127,128,129,255,256,300]) if BIG and R.random() < .5 else R.randint(1,n)
def fieldattr():
    return padding(9) if R.random() < 0.18 else 0
def node_struct(mg, parts, pad, aa):
    ps = ", ".join(parts)
    m = f'b"{mg}"' if mg else 'b""'
    return f"Node::Struct {{ magic: {m}, parts: vec![{ps}], pad: {pad}, align_after: {aa} }}"
def emit_struct(name, nf, tuple_, flat_only=False, align_after=0, field_aa=False, aligned=True, al=None):
    fs = []
    for _ in range(nf):
        if flat_only: t = R.choice(prims)
        else: t = inner()
        fs.append((t, fieldattr(), R.choice([2,3,4,8,16]) if field_aa and R.random() < .5 else 0))
    pad = padding(12) if R.random() < 0.3 else 0
    if al is None: al = R.choice([1,2,3,4,8,12,16,32,64]) if aligned and R.random() < 0.3 else 0
    mg = magic() if R.random() < 0.2 else ""
    names = [f"f{i}" for i in range(nf)]
    s = "#[derive(SsbhWrite)]\n" + attr(pad, align_after, al, mg)
    def fa(x): 
        a = attr(x[1], x[2], 0, "").strip()
        return a + " " if a else ""
    if tuple_:
        s += f"pub struct {name}(" + ", ".join(f"{fa(f)}pub {f[0].name}" for f in fs) + ");\n"
        cons = f"{name}(" + ", ".join(names) + ")"
    else:
        s += f"pub struct {name} {{ " + ", ".join(f"{fa(f)}pub {n}: {f[0].name}" for n, f in zip(names, fs)) + " }\n"
        cons = f"{name} {{ " + ", ".join(names) + " }"
    s += f"impl Gen for {name} {{\n    fn gen(s: &mut Src, d: u32) -> (Self, Node) {{\n"
    for n, f in zip(names, fs):
        s += f"        let ({n}, n{n}) = <{f[0].name} as Gen>::gen(s, d + 1);\n"
    s += f"        ({cons}, " + node_struct(mg, [f"(n{n}, {f[1]}, {f[2]})" for n, f in zip(names, fs)], pad, align_after) + ")\n    }\n"
    s += f"    fn align() -> u64 {{ {al if al else 'std::mem::align_of::<Self>() as u64'} }}\n}}\n"
    out.append(s)
    return Ty(name, all(f[0].uniform for f in fs), all(f[0].flat for f in fs))
def emit_enum(name, nv, tagged):
    pad = padding(12) if R.random() < 0.25 else 0
    al = R.choice([1,2,4,8,16]) if R.random() < 0.2 else 0
    mg = magic() if R.random() < 0.15 else ""
    s = "#[derive(SsbhWrite)]\n" + attr(pad, 0, al, mg) + f"pub enum {name} {{\n"
    arms = ""
    tags = R.sample(range(0, 40), nv)
    for v in range(nv):
        nf = R.randint(1,3)
        fs = [(inner(), fieldattr()) for _ in range(nf)]
        vp = padding(6) if R.random() < (.5 if BIG else 0.25) else 0
        named = R.random() < 0.5
        names = [f"f{i}" for i in range(nf)]
        va = attr(vp, 0, 0, "").strip()
        if va: s += f"    {va}\n"
        def fa(x):
            a = attr(x[1], 0, 0, "").strip()
            return a + " " if a else ""
        if named:
            s += f"    V{v} {{ " + ", ".join(f"{fa(f)}{n}: {f[0].name}" for n, f in zip(names, fs)) + " },\n"
            cons = f"{name}::V{v} {{ " + ", ".join(names) + " }"
        else:
            s += f"    V{v}(" + ", ".join(f"{fa(f)}{f[0].name}" for f in fs) + "),\n"
            cons = f"{name}::V{v}(" + ", ".join(names) + ")"
        arms += f"            {v if v < nv-1 else '_'} => {{\n"
        for n, f in zip(names, fs):
            arms += f"                let ({n}, n{n}) = <{f[0].name} as Gen>::gen(s, d + 1);\n"
        arms += f"                ({cons}, " + node_struct(mg, [f"(n{n}, {f[1]}, 0)" for n, f in zip(names, fs)], f"{vp} + {pad}", 0) + ")\n            }\n"
    s += "}\n"
    s += f"impl Gen for {name} {{\n    fn gen(s: &mut Src, d: u32) -> (Self, Node) {{\n        match s.below({nv}) {{\n{arms}        }}\n    }}\n"
    s += f"    fn align() -> u64 {{ {al if al else 'std::mem::align_of::<Self>() as u64'} }}\n}}\n"
    if tagged:
        pats = ", ".join(f"{name}::V{v} {{ .. }} => {tags[v]}" for v in range(nv))
        s += f"impl ssbh_lib::DataType for {name} {{ fn data_type(&self) -> u64 {{ match self {{ {pats} }} }} }}\n"
        enums64.append(name)
    out.append(s)
    return Ty(name, False, False, True)
def emit_repr(name):
    w = R.choice(["u8","u16","u32","u64","i32"])
    mx = {"u8":255,"u16":65535,"u32":2**32-1,"u64":2**64-1,"i32":2**31-1}[w]
    codes = sorted({0, mx, R.randint(1,mx-1), R.randint(1,200)})
    if w == "i32": codes = [-5] + codes
    s = f"#[derive(SsbhWrite, Clone, Copy)]\n#[ssbhwrite(repr({w}))]\n#[repr({w})]\npub enum {name} {{ " + ", ".join(f"C{i} = {c}" for i, c in enumerate(codes)) + " }\n"
    s += f"impl Gen for {name} {{\n    fn gen(s: &mut Src, _: u32) -> (Self, Node) {{\n        match s.below({len(codes)}) {{\n"
    for i, c in enumerate(codes):
        s += f"            {i if i < len(codes)-1 else '_'} => ({name}::C{i}, Node::Flat(({c} as {w}).to_le_bytes().to_vec())),\n"
    s += f"        }}\n    }}\n    fn align() -> u64 {{ std::mem::align_of::<{w}>() as u64 }}\n}}\n"
    out.append(s)
    return Ty(name)
roots = []
n = 0
for i in range(5):
    t = emit_repr(f"R{i}"); prims.append(t); roots.append(t.name)
for i in range(100):
    c = R.random()
    name = f"T{i}"
    if c < 0.5: t = emit_struct(name, R.randint(1,6), False)
    elif c < 0.75: t = emit_struct(name, R.randint(1,4), True)
    else:
        t = emit_enum(name, R.randint(1,4), R.random() < 0.7)
    structs.append(t); roots.append(name)
# root-only types with align_after
for i in range(8):
    t = emit_struct(f"A{i}", R.randint(1,5), R.random() < .3, align_after=R.choice([2,3,4,8,16,32])); roots.append(t.name)
for i in range(8):
    t = emit_struct(f"B{i}", R.randint(2,5), R.random() < .3, flat_only=True, field_aa=True); roots.append(t.name)
gens = [f"Pair<{R.choice(structs).name}, {R.choice(structs).name}>" for _ in range(6)]
gens += ["Pair<u8, SsbhString>", "Pair<Pair<u16, u8>, Pair<u8, RelPtr64<u64>>>", "Boxed<u8>", "Boxed<Boxed<u16>>"] + [f"Boxed<{R.choice(structs).name}>" for _ in range(4)]
roots += gens
# alignments that are no power of two, pointed to and in arrays; larger paddings and alignments
ODD = [3,5,6,7,9,12,20,24,48,96,100,128,255,256,1000,4096]
old, structs = structs, []
for i in range(len(ODD)):
    t = emit_struct(f"N{i}", R.randint(1,4), R.random() < .4, flat_only=R.random() < .5, al=ODD[i]); structs.append(t); roots.append(t.name); roots.append(f"Boxed<{t.name}>")
    if t.uniform: roots.append(f"Pair<SsbhArray<{t.name}>, RelPtr64<{t.name}>>")
for i in range(24):
    t = emit_struct(f"M{i}", R.randint(1,6), R.random() < .4) if i % 3 else emit_enum(f"M{i}", R.randint(1,4), True); roots.append(t.name)
    if i % 2: roots.append(f"Boxed<{t.name}>")
for i in range(8):
    t = emit_struct(f"P{i}", R.randint(1,5), R.random() < .3, align_after=R.choice([3,5,6,12,24,64,100,256])); roots.append(t.name)
# larger paddings, longer magics, optional values of types with an alignment larger than their size
BIG = True
for i in range(20):
    t = emit_struct(f"Q{i}", R.randint(1,4), R.random() < .4) if i % 2 else emit_enum(f"Q{i}", R.randint(2,4), True)
    structs.append(t); roots.append(t.name); roots.append(f"Boxed<{t.name}>")
for i in range(len(ODD)):
    roots.append(f"Pair<Option<N{i}>, RelPtr64<u32>>")
roots += ["Pair<[u8; 300], RelPtr64<u16>>", "Pair<[SsbhString; 9], [u16; 257]>", "Pair<[RelPtr64<u8>; 40], u8>"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "types_gen.rs"), "w") as f:
    f.write("// Generated by tools/gen_types.py. Do not edit.\n#![allow(dead_code)]\n#![cfg_attr(rustfmt, rustfmt_skip)]\nuse crate::engine::Src;\nuse crate::typemodel::*;\nuse ssbh_lib::*;\nuse ssbh_write::SsbhWrite;\nuse std::num::*;\n\n")
    f.write("\n".join(out))
    f.write(f"\npub const ROOTS: &[(&str, fn(&mut crate::engine::Ctx) -> crate::engine::R)] = &[\n")
    for r in roots: f.write(f'    ("{r}", check::<{r}>),\n')
    f.write("];\n")
print(len(roots))
