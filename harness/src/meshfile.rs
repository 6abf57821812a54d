//! A saved mesh as plain data, and an independent decoder for its buffers.
use crate::props::{body, num, seq};
use crate::val::*;
use ssbh_data::mesh_data::VectorData;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    F32,
    Half,
    Byte,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub usage: &'static str,
    pub ty: Ty,
    pub dim: usize,
    pub buffer: usize,
    pub offset: u64,
    pub subindex: u64,
    /// the name the attribute is stored (or in 1.8 generated) with
    pub name: Option<String>,
}
impl Attr {
    pub fn size(&self) -> u64 {
        self.dim as u64
            * match self.ty {
                Ty::F32 => 4,
                Ty::Half => 2,
                Ty::Byte => 1,
            }
    }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub name: String,
    pub subindex: u64,
    pub parent: String,
    pub vertices: u64,
    pub indices: u64,
    pub offset: [u64; 4],
    pub stride: [u64; 4],
    pub index_offset: u64,
    pub wide: bool,
    pub skinned: u64,
    pub bias: i64,
    pub no_write: u64,
    pub no_test: u64,
    pub bounds: Bounds,
    pub attrs: Vec<Attr>,
}

#[derive(Clone, Debug)]
pub struct Bounds {
    pub center: [f64; 3],
    pub radius: f64,
    pub min: [f64; 3],
    pub max: [f64; 3],
    pub obb_center: [f64; 3],
    pub obb_axes: [[f64; 3]; 3],
    pub obb_size: [f64; 3],
}

#[derive(Clone, Debug)]
pub struct Group {
    pub name: Option<String>,
    pub subindex: u64,
    pub max_influences: u64,
    /// bone name (None: not text) and weights: vertex, weight bits
    pub bones: Vec<(Option<String>, Vec<(u32, u32)>)>,
}

#[derive(Clone, Debug)]
pub struct MeshFile {
    pub v8: bool,
    pub v10: bool,
    pub bounds: Bounds,
    pub objects: Vec<Obj>,
    pub sizes: Vec<u64>,
    pub index_size: u64,
    pub buffers: Vec<Vec<u8>>,
    pub index: Vec<u8>,
    pub groups: Vec<Group>,
}

pub fn txt(v: &Val) -> Option<String> {
    match v {
        Val::Str(s) => String::from_utf8(s.clone()).ok(),
        Val::Some(x) => txt(x),
        _ => None,
    }
}

pub fn flt(v: &Val) -> f64 {
    match v {
        Val::F(b) => f32::from_bits(*b) as f64,
        _ => panic!("not a float"),
    }
}

fn p3(v: &Val) -> [f64; 3] {
    [flt(v.field("x")), flt(v.field("y")), flt(v.field("z"))]
}

fn bytes(v: &Val) -> Vec<u8> {
    match v {
        Val::Bytes(b) => b.clone(),
        Val::Seq(s) => s.iter().map(|x| num(x) as u8).collect(),
        Val::Map(m) => bytes(&m[0].1),
        _ => panic!("not bytes: {v:?}"),
    }
}

fn name_of(v: &Val) -> &'static str {
    match v {
        Val::Variant(n, None) => n,
        _ => panic!("not a plain variant"),
    }
}

fn bounds(v: &Val) -> Bounds {
    let s = v.field("bounding_sphere");
    let b = v.field("bounding_volume");
    let o = v.field("oriented_bounding_box");
    let t = o.field("transform");
    let axes = match t {
        Val::Map(m) => [p3(&m[0].1), p3(&m[1].1), p3(&m[2].1)],
        _ => panic!("{t:?}"),
    };
    Bounds {
        center: p3(s.field("center")),
        radius: flt(s.field("radius")),
        min: p3(b.field("min")),
        max: p3(b.field("max")),
        obb_center: p3(o.field("center")),
        obb_axes: axes,
        obb_size: p3(o.field("size")),
    }
}

fn attr(v: &Val, v8: bool) -> Attr {
    let (ty, dim) = match name_of(v.field("data_type")) {
        "Float2" => (Ty::F32, 2),
        "Float3" => (Ty::F32, 3),
        "Float4" => (Ty::F32, 4),
        "HalfFloat2" => (Ty::Half, 2),
        "HalfFloat4" => (Ty::Half, 4),
        "Byte4" => (Ty::Byte, 4),
        x => panic!("{x}"),
    };
    let usage = name_of(v.field("usage"));
    let subindex = num(v.field("subindex"));
    let name = if v8 {
        Some(format!("{}{subindex}", if usage == "ColorSet" { "colorSet" } else { usage }))
    } else {
        seq(v.field("attribute_names")).first().and_then(txt)
    };
    Attr {
        usage,
        ty,
        dim,
        buffer: num(v.field("buffer_index")) as usize,
        offset: num(v.field("buffer_offset")),
        subindex,
        name,
    }
}

/// The mesh in a file value as the reference codec gives it.
pub fn mesh_file(v: &Val) -> MeshFile {
    let Val::Variant(_, Some(f)) = v else { panic!() };
    let Val::Variant(ver, _) = &**f else { panic!() };
    let (v8, v10) = (*ver == "V8", *ver == "V10");
    let m = body(v);
    let objects = seq(m.field("objects"))
        .iter()
        .map(|o| {
            let n = |f: &str| num(o.field(f));
            Obj {
                name: txt(o.field("name")).unwrap_or_default(),
                subindex: n("subindex"),
                parent: txt(o.field("parent_bone_name")).unwrap_or_default(),
                vertices: n("vertex_count"),
                indices: n("vertex_index_count"),
                offset: [
                    n("vertex_buffer0_offset"),
                    n("vertex_buffer1_offset"),
                    n("vertex_buffer2_offset"),
                    n("vertex_buffer3_offset"),
                ],
                stride: [n("stride0"), n("stride1"), n("stride2"), n("stride3")],
                index_offset: n("index_buffer_offset"),
                wide: name_of(o.field("draw_element_type")) == "UnsignedInt",
                skinned: n("use_vertex_skinning"),
                bias: match o.field("sort_bias") {
                    Val::I(x) => *x,
                    Val::U(x) => *x as i64,
                    x => panic!("{x:?}"),
                },
                no_write: num(o.field("depth_flags").field("disable_depth_write")),
                no_test: num(o.field("depth_flags").field("disable_depth_test")),
                bounds: bounds(o.field("bounding_info")),
                attrs: seq(o.field("attributes")).iter().map(|a| attr(a, v8)).collect(),
            }
        })
        .collect();
    let groups = seq(m.field("rigging_buffers"))
        .iter()
        .map(|g| Group {
            name: txt(g.field("mesh_object_name")),
            subindex: num(g.field("mesh_object_subindex")),
            max_influences: num(g.field("flags").field("max_influences")),
            bones: seq(g.field("buffers"))
                .iter()
                .map(|b| {
                    let d = b.field("data");
                    let w = if v10 {
                        bytes(d)
                            .chunks_exact(6)
                            .map(|c| {
                                (
                                    u16::from_le_bytes([c[0], c[1]]) as u32,
                                    u32::from_le_bytes([c[2], c[3], c[4], c[5]]),
                                )
                            })
                            .collect()
                    } else {
                        seq(d)
                            .iter()
                            .map(|w| {
                                let Val::F(x) = w.field("vertex_weight") else { panic!() };
                                (num(w.field("vertex_index")) as u32, *x)
                            })
                            .collect()
                    };
                    (txt(b.field("bone_name")), w)
                })
                .collect(),
        })
        .collect();
    MeshFile {
        v8,
        v10,
        bounds: bounds(m.field("bounding_info")),
        objects,
        sizes: seq(m.field("buffer_sizes")).iter().map(num).collect(),
        index_size: num(m.field("polygon_index_size")),
        buffers: seq(m.field("vertex_buffers")).iter().map(bytes).collect(),
        index: bytes(m.field("index_buffer")),
        groups,
    }
}

/// The value of a half precision number.
pub fn from_half(h: u16) -> f32 {
    let sign = if h & 0x8000 != 0 { -1.0f64 } else { 1.0 };
    let (e, m) = ((h >> 10 & 31) as i32, (h & 1023) as f64);
    let v = match e {
        31 if m == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        0 => m * 2f64.powi(-24),
        _ => (1024.0 + m) * 2f64.powi(e - 25),
    };
    (sign * v) as f32
}

/// The nearest half precision number, ties to even.
pub fn round_half(x: f32) -> f32 {
    if x.is_nan() || x.is_infinite() || x == 0.0 {
        return x;
    }
    let a = (x as f64).abs();
    let mut e = -14;
    while e < 16 && a >= 2f64.powi(e + 1) {
        e += 1;
    }
    let ulp = 2f64.powi(e - 10);
    let mut r = (a / ulp).round_ties_even() * ulp;
    if r >= 65536.0 {
        r = f64::INFINITY;
    }
    (if x < 0.0 { -r } else { r }) as f32
}

/// What the attribute's bytes mean; Err when they are not all there.
pub fn decode(m: &MeshFile, o: &Obj, a: &Attr) -> Result<Vec<Vec<f32>>, String> {
    let Some(buf) = m.buffers.get(a.buffer) else { return Err(format!("no buffer {}", a.buffer)) };
    if a.buffer >= 4 {
        return Err(format!("buffer {} has no offset", a.buffer));
    }
    let (base, stride) = (o.offset[a.buffer] + a.offset, o.stride[a.buffer]);
    if o.vertices > 0 && stride == 0 {
        return Err("stride 0".into());
    }
    // every element inside the buffer
    if o.vertices > 0 && base + (o.vertices - 1) * stride + a.size() > buf.len() as u64 {
        return Err(format!("{} vertices of stride {stride} from {base} in {} bytes", o.vertices, buf.len()));
    }
    Ok((0..o.vertices)
        .map(|i| {
            let at = (base + i * stride) as usize;
            (0..a.dim)
                .map(|k| match a.ty {
                    Ty::F32 => f32::from_le_bytes(buf[at + 4 * k..at + 4 * k + 4].try_into().unwrap()),
                    Ty::Half => from_half(u16::from_le_bytes(buf[at + 2 * k..at + 2 * k + 2].try_into().unwrap())),
                    Ty::Byte => buf[at + k] as f32 / 255.0,
                })
                .collect()
        })
        .collect())
}

pub fn decode_indices(m: &MeshFile, o: &Obj) -> Result<Vec<u32>, String> {
    let w = if o.wide { 4 } else { 2 };
    if o.indices > 0 && o.index_offset + o.indices * w > m.index.len() as u64 {
        return Err(format!("{} indices from {} in {} bytes", o.indices, o.index_offset, m.index.len()));
    }
    Ok((0..o.indices)
        .map(|i| {
            let at = (o.index_offset + i * w) as usize;
            if o.wide {
                u32::from_le_bytes(m.index[at..at + 4].try_into().unwrap())
            } else {
                u16::from_le_bytes(m.index[at..at + 2].try_into().unwrap()) as u32
            }
        })
        .collect())
}

pub fn rows(d: &VectorData) -> Vec<Vec<f32>> {
    match d {
        VectorData::Vector2(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector3(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector4(v) => v.iter().map(|x| x.to_vec()).collect(),
    }
}
pub fn dim(d: &VectorData) -> usize {
    match d {
        VectorData::Vector2(_) => 2,
        VectorData::Vector3(_) => 3,
        VectorData::Vector4(_) => 4,
    }
}

/// Same float: the same bits, or both undefined.
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

/// May `x` be stored as `got` in this use and version?
pub fn kept(usage: &str, v10: bool, dim: usize, x: f32, got: f32) -> bool {
    if x.to_bits() == got.to_bits() {
        return true;
    }
    match usage {
        "Position" => false,
        "ColorSet" if dim == 4 => {
            (0.0..=1.0).contains(&got) && (x.is_nan() || (got - x.clamp(0.0, 1.0)).abs() <= 0.501 / 255.0)
        }
        _ => (dim == 4 || dim == 2 && v10) && same(round_half(x), got),
    }
}
