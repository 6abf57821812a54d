//! C12: saved meshes are self-consistent and decode by the stated layout.
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::meshfile::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::*;

fn parse(b: &[u8], minor: u16) -> Result<MeshFile, Fail> {
    match parse_kind(kind("Mesh", &format!("V{minor}")), b) {
        Ok(p) => Ok(mesh_file(&p.val)),
        Err(e) => fail!("the saved file is not readable by the format definition: {e:?}"),
    }
}

/// The attributes in the order the file has to have them.
fn given(d: &MeshObjectData, minor: u16) -> Vec<(&'static str, usize, &AttributeData)> {
    let mut v = vec![];
    let mut add = |usage: &'static str, l| {
        let l: &Vec<AttributeData> = l;
        for (i, a) in l.iter().enumerate() {
            v.push((usage, i, a));
        }
    };
    add("Position", &d.positions);
    add("Normal", &d.normals);
    if minor != 8 {
        add("Binormal", &d.binormals);
    }
    add("Tangent", &d.tangents);
    add("TextureCoordinate", &d.texture_coordinates);
    add("ColorSet", &d.color_sets);
    v
}

fn object(m: &MeshFile, o: &Obj, d: &MeshObjectData, minor: u16) -> R {
    ensure!(o.name == d.name && o.subindex == d.subindex, "{:?} {} is stored as {:?} {}", d.name, d.subindex, o.name, o.subindex);
    ensure!(o.parent == d.parent_bone_name, "the parent bone {:?} is stored as {:?}", d.parent_bone_name, o.parent);
    ensure!(o.bias == d.sort_bias as i64, "the sort bias {} is stored as {}", d.sort_bias, o.bias);
    ensure!(
        o.no_write == d.disable_depth_write as u64 && o.no_test == d.disable_depth_test as u64,
        "the depth flags {} {} are stored as {} {}",
        d.disable_depth_write,
        d.disable_depth_test,
        o.no_write,
        o.no_test
    );
    ensure!(
        o.skinned == !d.bone_influences.is_empty() as u64,
        "{} influences, but vertex skinning is {}",
        d.bone_influences.len(),
        o.skinned
    );
    let n = d.vertex_count().unwrap();
    ensure!(o.vertices == n as u64, "{n} vertices are stored as {}", o.vertices);
    ensure!(o.indices == d.vertex_indices.len() as u64, "{} indices are stored as {}", d.vertex_indices.len(), o.indices);
    let wide = d.vertex_indices.iter().any(|i| *i > 65535);
    ensure!(o.wide == wide, "{} bit indices", if o.wide { 32 } else { 16 });
    match decode_indices(m, o) {
        Ok(i) => ensure!(i == d.vertex_indices, "indices {:?} are stored as {i:?}", d.vertex_indices),
        Err(e) => fail!("the indices cannot be decoded: {e}"),
    }
    let w = given(d, minor);
    ensure!(o.attrs.len() == w.len(), "{} attributes are stored for {}", o.attrs.len(), w.len());
    // by use: each use's attributes in order, numbered from 0
    for (usage, i, a) in &w {
        let Some(s) = o.attrs.iter().filter(|s| s.usage == *usage).nth(*i) else {
            fail!("{usage} {i} is not stored");
        };
        ensure!(s.subindex == *i as u64, "{usage} {i} is numbered {}", s.subindex);
        if minor != 8 {
            ensure!(s.name.as_deref() == Some(&a.name), "{usage} {i} {:?} is stored as {:?}", a.name, s.name);
        }
        ensure!(s.dim == dim(&a.data), "{usage} {i} has {} components, stored {}", dim(&a.data), s.dim);
        match decode(m, o, s) {
            Ok(g) => {
                for (e, (x, y)) in rows(&a.data).iter().zip(&g).enumerate() {
                    for (k, (x, y)) in x.iter().zip(y).enumerate() {
                        ensure!(
                            kept(usage, minor == 10, s.dim, *x, *y),
                            "{usage} {i}, element {e}, component {k}: {x:?} is stored as {y:?}"
                        );
                    }
                }
            }
            Err(e) => fail!("{usage} {i} cannot be decoded: {e}"),
        }
        ensure!(
            n == 0 || s.offset + s.size() <= o.stride[s.buffer],
            "{usage} {i} ends at {} in a vertex of {} bytes",
            s.offset + s.size(),
            o.stride[s.buffer]
        );
    }
    // no two attributes share bytes of a vertex
    for (i, a) in o.attrs.iter().enumerate() {
        for b in &o.attrs[..i] {
            if a.buffer == b.buffer {
                ensure!(
                    a.offset + a.size() <= b.offset || b.offset + b.size() <= a.offset,
                    "attributes {b:?} and {a:?} overlap"
                );
            }
        }
    }
    Ok(())
}

fn disjoint(what: &str, len: u64, mut r: Vec<(u64, u64)>) -> R {
    r.retain(|x| x.1 > 0);
    r.sort();
    for (at, n) in &r {
        ensure!(at + n <= len, "{what}: {n} bytes from {at} in {len} bytes");
    }
    for w in r.windows(2) {
        ensure!(w[0].0 + w[0].1 <= w[1].0, "{what}: {:?} and {:?} overlap", w[0], w[1]);
    }
    Ok(())
}

pub fn consistent(b: &[u8], d: &MeshData) -> R {
    let minor = d.minor_version;
    let m = parse(b, minor)?;
    ensure!(m.objects.len() == d.objects.len(), "{} objects are stored as {}", d.objects.len(), m.objects.len());
    for (i, (o, d)) in m.objects.iter().zip(&d.objects).enumerate() {
        object(&m, o, d, minor).map_err(|Fail(e)| Fail(format!("object {i} ({:?}): {e}", d.name)))?;
    }
    ensure!(m.sizes.len() == m.buffers.len(), "{} buffers, {} buffer sizes", m.buffers.len(), m.sizes.len());
    for (i, (s, b)) in m.sizes.iter().zip(&m.buffers).enumerate() {
        ensure!(*s == b.len() as u64, "buffer {i} has {} bytes, recorded as {s}", b.len());
        disjoint(
            &format!("buffer {i}"),
            *s,
            m.objects.iter().map(|o| (o.offset[i.min(3)], o.vertices * o.stride[i.min(3)])).collect(),
        )?;
    }
    ensure!(m.index_size == m.index.len() as u64, "{} bytes of indices, recorded as {}", m.index.len(), m.index_size);
    disjoint(
        "index buffer",
        m.index_size,
        m.objects.iter().map(|o| (o.index_offset, o.indices * if o.wide { 4 } else { 2 })).collect(),
    )
}

fn saved(c: &mut Ctx) -> R {
    let mut k = DK::valid();
    k.finite = c.src.chance(1, 2);
    let mut m = mesh(&mut c.src, &k);
    if c.src.chance(1, 3) {
        // the same name and other subindices
        for (i, o) in m.objects.iter_mut().enumerate() {
            o.name = "same".into();
            o.subindex = 100u64.wrapping_sub(i as u64);
        }
    }
    c.label(format!("1.{}", m.minor_version));
    let any = AnyData::Mesh(m);
    c.describe(|| any.debug());
    let AnyData::Mesh(m) = &any else { unreachable!() };
    if m.objects.iter().filter(|o| o.vertex_count().unwrap_or(0) > 0).count() > 1 {
        c.interesting(&any.to_val()?);
    }
    consistent(&any.must_bytes()?, m)
}

/// Meshes with many vertices, so that index width and offsets matter.
fn large(c: &mut Ctx) -> R {
    let minor = *c.src.pick(&[10u16, 9, 8]);
    let mut objects = vec![];
    for i in 0..c.src.range(1, 4) {
        let n = *c.src.pick(&[1usize, 300, 65535, 65536, 65537, 70000]);
        let x = c.src.below(100) as f32;
        let mut o = MeshObjectData {
            name: format!("o{}", c.src.below(2)),
            subindex: i,
            positions: vec![AttributeData {
                name: "Position0".into(),
                data: VectorData::Vector3((0..n).map(|j| [j as f32, x, 1.0]).collect()),
            }],
            ..Default::default()
        };
        if c.src.chance(1, 2) {
            o.normals = vec![AttributeData {
                name: "Normal0".into(),
                data: VectorData::Vector4((0..n).map(|j| [(j % 2) as f32, 1.0, 0.0, 1.0]).collect()),
            }];
        }
        if c.src.chance(1, 2) {
            o.color_sets = vec![AttributeData {
                name: "colorSet1".into(),
                data: VectorData::Vector4((0..n).map(|j| [(j % 256) as f32 / 255.0, 0.0, 1.0, 1.0]).collect()),
            }];
        }
        for _ in 0..3 * c.src.below(4) {
            let i = match c.src.below(3) {
                0 => n - 1,
                1 => (n - 1).min(65535),
                _ => c.src.usize(n),
            };
            o.vertex_indices.push(i as u32);
        }
        objects.push(o);
    }
    let m = MeshData { major_version: 1, minor_version: minor, objects };
    c.describe(|| {
        let v: Vec<_> = m.objects.iter().map(|o| (o.vertex_count().unwrap(), &o.vertex_indices)).collect();
        format!("1.{minor}: {v:?}")
    });
    c.interesting(&(minor, m.objects.iter().map(|o| (o.positions[0].data.len(), o.vertex_indices.clone())).collect::<Vec<_>>()));
    let any = AnyData::Mesh(m);
    let AnyData::Mesh(m) = &any else { unreachable!() };
    consistent(&any.must_bytes()?, m)
}

fn set(v: &mut Val, f: &str, x: Val) {
    let Val::Map(m) = v else { panic!() };
    m.iter_mut().find(|(k, _)| *k == f).unwrap().1 = x;
}
fn get<'a>(v: &'a mut Val, f: &str) -> &'a mut Val {
    let Val::Map(m) = v else { panic!() };
    &mut m.iter_mut().find(|(k, _)| *k == f).unwrap().1
}
fn items(v: &mut Val) -> &mut Vec<Val> {
    let Val::Seq(s) = v else { panic!() };
    s
}

/// Any mesh file laid out otherwise than the library does: other buffers, strides, types,
/// shared data, gaps; sometimes data that is not there.
pub fn foreign(s: &mut Src) -> (Kind, Val) {
    foreign_sized(s, false)
}

/// A buffer of repeating random bytes, up to a few hundred kilobytes.
fn big_buffer(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[1, 2, 3]) {
        0 => s.below(300),
        1 => 65_400 + s.below(800),
        _ => 90_000 + s.below(170_000),
    };
    let t: Vec<u8> = (0..251).map(|_| s.below(256) as u8).collect();
    (0..n as usize).map(|i| t[i % 251] ^ (i >> 8) as u8).collect()
}

fn foreign_sized(s: &mut Src, big: bool) -> (Kind, Val) {
    let ver = *s.pick(&["V8", "V9", "V10"]);
    let k = kind("Mesh", ver);
    let mut kn = Knobs::small();
    kn.utf8 = true;
    let mut v = gen_file(s, k, &mut kn);
    let names: Vec<(String, u64)> =
        (0..3).map(|_| (s.pick(&["a", "b", "bodyShape", ""]).to_string(), s.below(2))).collect();
    let breaks = s.chance(1, 5);
    let nbuf = s.range(1, 5) as usize;
    let buffers: Vec<Vec<u8>> = (0..nbuf)
        .map(|_| {
            if big {
                return big_buffer(s);
            }
            let n = s.range(0, 160) as usize;
            (0..n).map(|_| s.below(256) as u8).collect()
        })
        .collect();
    let index: Vec<u8> = if big { big_buffer(s) } else { (0..s.range(0, 60)).map(|_| s.below(256) as u8).collect() };
    {
        let Val::Variant(_, Some(f)) = &mut v else { panic!() };
        let Val::Variant(_, Some(m)) = &mut **f else { panic!() };
        let m = &mut **m;
        set(m, "vertex_buffers", Val::Seq(buffers.iter().map(|b| Val::Bytes(b.clone())).collect()));
        set(m, "index_buffer", Val::Bytes(index.clone()));
        let objs = items(get(m, "objects"));
        for o in objs.iter_mut() {
            let (n, sub) = s.pick(&names).clone();
            set(o, "name", Val::Some(Box::new(Val::Str(n.into_bytes()))));
            set(o, "subindex", Val::U(sub));
            let count = s.below(if big { 500 } else { 7 });
            set(o, "vertex_count", Val::U(count));
            let wide = matches!(o.field("draw_element_type"), Val::Variant("UnsignedInt", _));
            let w = if wide { 4 } else { 2 };
            let most = index.len() as u64 / w;
            let ni = if big { s.below(most.min(40) + 1) } else { s.below(most + 1) };
            set(o, "vertex_index_count", Val::U(ni));
            let at = s.below(index.len() as u64 - ni * w + 1);
            set(o, "index_buffer_offset", Val::U(at));
            let mut strides = [0u64; 4];
            let mut offs = [0u64; 4];
            for i in 0..4 {
                let most = if big && s.chance(1, 3) { 300 } else { 24 };
                strides[i] = s.range(if breaks { 0 } else { 1 }, most);
                offs[i] = if big { *s.pick(&[0, 65_500, 65_536, 100_000]) + s.below(40) } else { s.below(12) };
                set(o, ["stride0", "stride1", "stride2", "stride3"][i], Val::U(strides[i]));
                set(o, ["vertex_buffer0_offset", "vertex_buffer1_offset", "vertex_buffer2_offset", "vertex_buffer3_offset"][i], Val::U(offs[i]));
            }
            let attrs = items(get(o, "attributes"));
            let mut keep = vec![];
            for mut a in attrs.drain(..) {
                let b = s.usize(nbuf.min(4));
                let need = if count == 0 { 0 } else { offs[b] + (count - 1) * strides[b] + 16 };
                let have = buffers[b].len() as u64;
                if have < need {
                    if !breaks {
                        continue;
                    }
                }
                let off = if have < need { s.below(16) } else { s.below(have - need + 1) };
                set(&mut a, "buffer_index", Val::U(b as u64));
                set(&mut a, "buffer_offset", Val::U(off));
                keep.push(a);
            }
            if breaks && s.chance(1, 2) {
                if let Some(a) = keep.last_mut() {
                    match s.below(3) {
                        0 => set(a, "buffer_index", Val::U(s.below(7))),
                        1 => set(a, "buffer_offset", Val::U(s.below(300))),
                        _ => set(a, "buffer_offset", Val::U(int(s, 4))),
                    }
                }
            }
            *attrs = keep;
            if breaks && s.chance(1, 4) {
                match s.below(3) {
                    0 => set(o, "vertex_count", Val::U(int(s, 4))),
                    1 => set(o, "vertex_index_count", Val::U(ni + s.below(4))),
                    _ => set(o, "index_buffer_offset", Val::U(int(s, 4))),
                }
            }
        }
        let groups = items(get(m, "rigging_buffers"));
        if !groups.is_empty() && s.chance(1, 3) {
            for _ in 0..s.range(1, 5) {
                let g = groups[s.usize(groups.len())].clone();
                let at = s.usize(groups.len() + 1);
                groups.insert(at, g);
            }
        }
        for g in groups {
            let (n, sub) = s.pick(&names).clone();
            set(g, "mesh_object_name", Val::Some(Box::new(Val::Str(n.into_bytes()))));
            set(g, "mesh_object_subindex", Val::U(sub));
            for b in items(get(g, "buffers")) {
                let n = s.pick(&BONES).to_string();
                set(b, "bone_name", Val::Some(Box::new(Val::Str(n.into_bytes()))));
            }
        }
    }
    (k, v)
}

fn loaded_object(m: &MeshFile, o: &Obj, d: &MeshObjectData) -> R {
    ensure!(
        o.name == d.name && o.subindex == d.subindex && o.parent == d.parent_bone_name && o.bias == d.sort_bias as i64,
        "{o:?} is loaded as {:?} {} {:?} {}",
        d.name,
        d.subindex,
        d.parent_bone_name,
        d.sort_bias
    );
    ensure!(
        (o.no_write != 0, o.no_test != 0) == (d.disable_depth_write, d.disable_depth_test),
        "depth flags {} {} are loaded as {} {}",
        o.no_write,
        o.no_test,
        d.disable_depth_write,
        d.disable_depth_test
    );
    let i = decode_indices(m, o).map_err(Fail)?;
    ensure!(i == d.vertex_indices, "indices {i:?} are loaded as {:?}", d.vertex_indices);
    for (usage, l) in [
        ("Position", &d.positions),
        ("Normal", &d.normals),
        ("Binormal", &d.binormals),
        ("Tangent", &d.tangents),
        ("TextureCoordinate", &d.texture_coordinates),
        ("ColorSet", &d.color_sets),
    ] {
        let want: Vec<&Attr> = o.attrs.iter().filter(|a| a.usage == usage).collect();
        ensure!(want.len() == l.len(), "{} {usage} attributes are loaded as {}", want.len(), l.len());
        for (w, g) in want.iter().zip(l) {
            ensure!(g.name == w.name.clone().unwrap_or_default(), "{w:?} is named {:?}", g.name);
            ensure!(w.dim == dim(&g.data), "{w:?} has {} components", dim(&g.data));
            let r = decode(m, o, w).map_err(Fail)?;
            let gr = rows(&g.data);
            let eq = r.len() == gr.len() && r.iter().zip(&gr).all(|(a, b)| a.iter().zip(b).all(|(a, b)| same(*a, *b)));
            ensure!(eq, "{w:?} holds {r:?}, loaded as {gr:?}");
        }
    }
    let mut w = vec![];
    for g in &m.groups {
        if g.name.as_deref() == Some(&o.name) && g.subindex == o.subindex {
            for (b, x) in &g.bones {
                w.push((b.clone().ok_or_else(|| Fail("a bone name that is not text was loaded".into()))?, x.clone()));
            }
        }
    }
    let g: Vec<_> = d
        .bone_influences
        .iter()
        .map(|b| (b.bone_name.clone(), b.vertex_weights.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect::<Vec<_>>()))
        .collect();
    ensure!(w == g, "influences {w:?} are loaded as {g:?}");
    Ok(())
}

/// Does the file refer to data it does not have?
fn broken(m: &MeshFile) -> Option<String> {
    for o in &m.objects {
        if let Err(e) = decode_indices(m, o) {
            return Some(e);
        }
        for a in &o.attrs {
            if let Err(e) = decode(m, o, a) {
                return Some(e);
            }
        }
        for g in &m.groups {
            if g.name.as_deref() == Some(&o.name) && g.subindex == o.subindex && g.bones.iter().any(|b| b.0.is_none()) {
                return Some("bone name".into());
            }
        }
    }
    None
}

pub fn loads_as(v: &Val, b: &[u8]) -> Result<bool, Fail> {
    let m = mesh_file(v);
    let want = broken(&m);
    match (AnyData::read_bytes(DKind::Mesh, b)?, want) {
        (Ok(AnyData::Mesh(d)), None) => {
            ensure!(d.objects.len() == m.objects.len(), "{} objects are loaded as {}", m.objects.len(), d.objects.len());
            for (i, (o, d)) in m.objects.iter().zip(&d.objects).enumerate() {
                loaded_object(&m, o, d).map_err(|Fail(e)| Fail(format!("object {i}: {e}")))?;
            }
            Ok(true)
        }
        (Ok(_), Some(e)) => fail!("a mesh is loaded although data is missing: {e}"),
        (Err(e), None) => fail!("a mesh with all its data is refused: {e}"),
        (Err(_), Some(_)) => Ok(false),
        _ => unreachable!(),
    }
}

fn other_layouts(c: &mut Ctx) -> R {
    let (k, v) = foreign(&mut c.src);
    c.describe(|| clip(format!("{v:?}")));
    let m = mesh_file(&v);
    if m.objects.iter().any(|o| o.vertices > 0 && !o.attrs.is_empty()) {
        c.interesting(&v);
    }
    let b = if c.src.chance(1, 6) { scattered(&mut c.src, k, &v).bytes } else { canonical(k, &v) };
    let ok = loads_as(&v, &b)?;
    c.label(if ok { "loaded" } else { "refused" });
    Ok(())
}

/// Buffers, offsets and strides beyond what two bytes hold.
fn large_layouts(c: &mut Ctx) -> R {
    let (k, v) = foreign_sized(&mut c.src, true);
    let m = mesh_file(&v);
    c.describe(|| format!("{:?}", m.objects));
    if m.objects.iter().any(|o| o.vertices > 0 && o.attrs.iter().any(|a| a.offset + o.offset[a.buffer.min(3)] > 0xffff)) {
        c.interesting(&v);
    }
    let ok = loads_as(&v, &canonical(k, &v))?;
    c.label(if ok { "loaded" } else { "refused" });
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "saved: at least two objects have vertices; large: every case; other_layouts: an object has vertices and attributes",
        assumptions: &["meshfile.rs decodes buffers from the format description", "names are UTF-8 and free of NUL"],
        subs: vec![
            Sub { name: "saved", quick: 96_000, thorough: 6_000_000, enumerate: 8, f: saved },
            Sub { name: "large_saved", quick: 400, thorough: 24000, enumerate: 8, f: large_saved },
            Sub { name: "large", quick: 480, thorough: 20_000, enumerate: 0, f: large },
            Sub { name: "large_layouts", quick: 6_000, thorough: 300_000, enumerate: 0, f: large_layouts },
            Sub { name: "other_layouts", quick: 180_000, thorough: 10_000_000, enumerate: 0, f: other_layouts },
        ],
        probes: vec![],
    }
}
