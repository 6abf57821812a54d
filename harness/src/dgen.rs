//! Generators for the editable (ssbh_data) types, and uniform access to them.
use crate::engine::*;
use crate::gen::*;
use crate::schema::*;
use crate::val::*;
use ssbh_data::adj_data::*;
use ssbh_data::anim_data::*;
use ssbh_data::hlpb_data::*;
use ssbh_data::matl_data::*;
use ssbh_data::mesh_data::*;
use ssbh_data::meshex_data::*;
use ssbh_data::modl_data::*;
use ssbh_data::prelude::*;
use ssbh_data::skel_data::*;
use ssbh_lib::{Color4f, Vector3, Vector4};
use std::io::{Cursor, Read, Seek, Write};
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum DKind {
    Mesh,
    Skel,
    Anim,
    Modl,
    Matl,
    Hlpb,
    MeshEx,
    Adj,
}

pub const DKINDS: [DKind; 8] =
    [DKind::Mesh, DKind::Skel, DKind::Anim, DKind::Modl, DKind::Matl, DKind::Hlpb, DKind::MeshEx, DKind::Adj];

impl DKind {
    pub fn name(self) -> &'static str {
        match self {
            DKind::Mesh => "Mesh",
            DKind::Skel => "Skel",
            DKind::Anim => "Anim",
            DKind::Modl => "Modl",
            DKind::Matl => "Matl",
            DKind::Hlpb => "Hlpb",
            DKind::MeshEx => "MeshEx",
            DKind::Adj => "Adj",
        }
    }
    pub fn ext(self) -> &'static str {
        match self {
            DKind::Mesh => "numshb",
            DKind::Skel => "nusktb",
            DKind::Anim => "nuanmb",
            DKind::Modl => "numdlb",
            DKind::Matl => "numatb",
            DKind::Hlpb => "nuhlpb",
            DKind::MeshEx => "numshexb",
            DKind::Adj => "adjb",
        }
    }
    /// the file kinds this data is made from
    pub fn kinds(self) -> Vec<Kind> {
        kinds().iter().copied().filter(|k| k.format() == self.name()).collect()
    }
    pub fn of(k: Kind) -> Option<DKind> {
        DKINDS.iter().copied().find(|d| d.name() == k.format())
    }
}

#[derive(Debug, Clone)]
pub enum AnyData {
    Mesh(MeshData),
    Skel(SkelData),
    Anim(AnimData),
    Modl(ModlData),
    Matl(MatlData),
    Hlpb(HlpbData),
    MeshEx(MeshExData),
    Adj(AdjData),
}

macro_rules! each {
    ($self:expr, $d:ident => $e:expr) => {
        match $self {
            AnyData::Mesh($d) => $e,
            AnyData::Skel($d) => $e,
            AnyData::Anim($d) => $e,
            AnyData::Modl($d) => $e,
            AnyData::Matl($d) => $e,
            AnyData::Hlpb($d) => $e,
            AnyData::MeshEx($d) => $e,
            AnyData::Adj($d) => $e,
        }
    };
}
macro_rules! make {
    ($kind:expr, $t:ident => $e:expr) => {
        match $kind {
            DKind::Mesh => { type $t = MeshData; $e.map(AnyData::Mesh) }
            DKind::Skel => { type $t = SkelData; $e.map(AnyData::Skel) }
            DKind::Anim => { type $t = AnimData; $e.map(AnyData::Anim) }
            DKind::Modl => { type $t = ModlData; $e.map(AnyData::Modl) }
            DKind::Matl => { type $t = MatlData; $e.map(AnyData::Matl) }
            DKind::Hlpb => { type $t = HlpbData; $e.map(AnyData::Hlpb) }
            DKind::MeshEx => { type $t = MeshExData; $e.map(AnyData::MeshEx) }
            DKind::Adj => { type $t = AdjData; $e.map(AnyData::Adj) }
        }
    };
}

impl AnyData {
    pub fn kind(&self) -> DKind {
        match self {
            AnyData::Mesh(_) => DKind::Mesh,
            AnyData::Skel(_) => DKind::Skel,
            AnyData::Anim(_) => DKind::Anim,
            AnyData::Modl(_) => DKind::Modl,
            AnyData::Matl(_) => DKind::Matl,
            AnyData::Hlpb(_) => DKind::Hlpb,
            AnyData::MeshEx(_) => DKind::MeshEx,
            AnyData::Adj(_) => DKind::Adj,
        }
    }
    pub fn to_val(&self) -> Result<Val, Fail> {
        lib(|| each!(self, d => to_val(d)))?.map_err(|e| Fail(format!("data not serializable: {e}")))
    }
    pub fn from_val(kind: DKind, v: &Val) -> Result<Result<AnyData, String>, Fail> {
        lib(|| make!(kind, T => from_val::<T>(v).map_err(|e| e.to_string())))
    }
    pub fn read<Rd: Read + Seek>(kind: DKind, r: &mut Rd) -> Result<Result<AnyData, String>, Fail> {
        lib(|| make!(kind, T => T::read(r).map_err(|e| e.to_string())))
    }
    pub fn read_bytes(kind: DKind, b: &[u8]) -> Result<Result<AnyData, String>, Fail> {
        Self::read(kind, &mut Cursor::new(b))
    }
    pub fn from_file(kind: DKind, p: &Path) -> Result<Result<AnyData, String>, Fail> {
        lib(|| make!(kind, T => T::from_file(p).map_err(|e| e.to_string())))
    }
    pub fn write<W: Write + Seek>(&self, w: &mut W) -> Result<Result<(), String>, Fail> {
        lib(|| each!(self, d => d.write(w).map_err(|e| format!("{e:?}"))))
    }
    pub fn write_to_file(&self, p: &Path) -> Result<Result<(), String>, Fail> {
        lib(|| each!(self, d => d.write_to_file(p).map_err(|e| format!("{e:?}"))))
    }
    pub fn bytes(&self) -> Result<Result<Vec<u8>, String>, Fail> {
        let mut c = Cursor::new(Vec::new());
        Ok(self.write(&mut c)?.map(|_| c.into_inner()))
    }
    /// bytes of data that has to be accepted
    pub fn must_bytes(&self) -> Result<Vec<u8>, Fail> {
        self.bytes()?.map_err(|e| Fail(format!("{} data refused: {e}", self.kind().name())))
    }
    pub fn json(&self, pretty: bool) -> Result<Result<String, String>, Fail> {
        lib(|| {
            each!(self, d => if pretty { serde_json::to_string_pretty(d) } else { serde_json::to_string(d) })
                .map_err(|e| e.to_string())
        })
    }
    pub fn from_json(kind: DKind, s: &str) -> Result<Result<AnyData, String>, Fail> {
        lib(|| make!(kind, T => serde_json::from_str::<T>(s).map_err(|e| e.to_string())))
    }
    pub fn debug(&self) -> String {
        let s = each!(self, d => format!("{d:?}"));
        clip(s)
    }
}

pub fn clip(mut s: String) -> String {
    if s.len() > 3000 {
        let mut n = 3000;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

/// What generated data may contain.
#[derive(Clone, Copy)]
pub struct DK {
    /// floats are finite
    pub finite: bool,
    /// data that the format accepts
    pub valid: bool,
    pub big: bool,
}

impl DK {
    pub fn valid() -> DK {
        DK { finite: false, valid: true, big: true }
    }
    pub fn json() -> DK {
        DK { finite: true, valid: true, big: false }
    }
    pub fn wild() -> DK {
        DK { finite: false, valid: false, big: true }
    }
    pub fn f32(&self, s: &mut Src) -> f32 {
        if self.finite {
            f32_finite(s)
        } else {
            f32_any(s)
        }
    }
}

pub fn string(s: &mut Src) -> String {
    String::from_utf8(text(s, true)).expect("generated text is UTF-8")
}

pub fn name(s: &mut Src, pool: &[&str]) -> String {
    if s.chance(1, 3) {
        string(s)
    } else {
        s.pick(pool).to_string()
    }
}

pub fn v3(s: &mut Src, k: &DK) -> Vector3 {
    Vector3::new(k.f32(s), k.f32(s), k.f32(s))
}
pub fn v4(s: &mut Src, k: &DK) -> Vector4 {
    Vector4::new(k.f32(s), k.f32(s), k.f32(s), k.f32(s))
}

/// A random variant of a library enumeration, by the schema's list of codes.
pub fn variant<T: serde::de::DeserializeOwned>(s: &mut Src, ty: &str) -> T {
    let v = gen(s, schema().types[ty], &mut Knobs::small());
    from_val::<T>(&v).unwrap_or_else(|e| panic!("{ty}: {e}"))
}

pub fn gen_data(s: &mut Src, kind: DKind, k: &DK) -> AnyData {
    match kind {
        DKind::Mesh => AnyData::Mesh(mesh(s, k)),
        DKind::Skel => AnyData::Skel(skel(s, k)),
        DKind::Anim => AnyData::Anim(anim(s, k)),
        DKind::Modl => AnyData::Modl(modl(s, k)),
        DKind::Matl => AnyData::Matl(matl(s, k)),
        DKind::Hlpb => AnyData::Hlpb(hlpb(s, k)),
        DKind::MeshEx => AnyData::MeshEx(meshex(s, k)),
        DKind::Adj => AnyData::Adj(adj(s, k)),
    }
}

fn version(s: &mut Src, k: &DK, ok: &[(u16, u16)]) -> (u16, u16) {
    if k.valid || s.chance(7, 8) {
        *s.pick(ok)
    } else if s.chance(1, 2) {
        (s.below(4) as u16, s.below(12) as u16)
    } else {
        (s.u64() as u16, s.u64() as u16)
    }
}

// ---------------------------------------------------------------- small types

pub fn modl(s: &mut Src, k: &DK) -> ModlData {
    if !s.large {
        return small_modl(s, k);
    }
    s.large = false;
    let mut d = small_modl(s, k);
    large_modl(s, k, &mut d);
    s.large = true;
    d
}

fn small_modl(s: &mut Src, k: &DK) -> ModlData {
    let (major_version, minor_version) = version(s, k, &[(1, 7)]);
    ModlData {
        major_version,
        minor_version,
        model_name: string(s),
        skeleton_file_name: string(s),
        material_file_names: (0..s.len(2, 6)).map(|_| string(s)).collect(),
        animation_file_name: if s.chance(1, 2) { Some(string(s)) } else { None },
        mesh_file_name: string(s),
        entries: (0..s.len(4, 40))
            .map(|_| ModlEntryData {
                mesh_object_name: string(s),
                mesh_object_subindex: int(s, 8),
                material_label: string(s),
            })
            .collect(),
    }
}

pub fn hlpb(s: &mut Src, k: &DK) -> HlpbData {
    if !s.large {
        return small_hlpb(s, k);
    }
    s.large = false;
    let mut d = small_hlpb(s, k);
    large_hlpb(s, k, &mut d);
    s.large = true;
    d
}

fn small_hlpb(s: &mut Src, k: &DK) -> HlpbData {
    let (major_version, minor_version) = version(s, k, &[(1, 1)]);
    HlpbData {
        major_version,
        minor_version,
        aim_constraints: (0..s.len(2, 12))
            .map(|_| AimConstraintData {
                name: string(s),
                aim_bone_name1: string(s),
                aim_bone_name2: string(s),
                aim_type1: string(s),
                aim_type2: string(s),
                target_bone_name1: string(s),
                target_bone_name2: string(s),
                unk1: int(s, 4) as u32,
                unk2: int(s, 4) as u32,
                aim: v3(s, k),
                up: v3(s, k),
                quat1: v4(s, k),
                quat2: v4(s, k),
            })
            .collect(),
        orient_constraints: (0..s.len(2, 12))
            .map(|_| OrientConstraintData {
                name: string(s),
                parent_bone_name1: string(s),
                parent_bone_name2: string(s),
                source_bone_name: string(s),
                target_bone_name: string(s),
                unk_type: int(s, 4) as u32,
                constraint_axes: v3(s, k),
                quat1: v4(s, k),
                quat2: v4(s, k),
                range_min: v3(s, k),
                range_max: v3(s, k),
            })
            .collect(),
    }
}

pub fn meshex(s: &mut Src, k: &DK) -> MeshExData {
    if !s.large {
        return small_meshex(s, k);
    }
    s.large = false;
    let mut d = small_meshex(s, k);
    large_meshex(s, k, &mut d);
    s.large = true;
    d
}

fn small_meshex(s: &mut Src, k: &DK) -> MeshExData {
    MeshExData {
        mesh_object_groups: (0..s.len(3, 20))
            .map(|_| MeshObjectGroupData {
                bounding_sphere: BoundingSphere { center: v3(s, k), radius: k.f32(s) },
                mesh_object_full_name: string(s),
                mesh_object_name: string(s),
                entry_flags: (0..s.len(2, 10))
                    .map(|_| EntryFlags { draw_model: s.chance(1, 2), cast_shadow: s.chance(1, 2) })
                    .collect(),
            })
            .collect(),
    }
}

pub fn adj(s: &mut Src, k: &DK) -> AdjData {
    if !s.large {
        return small_adj(s, k);
    }
    s.large = false;
    let mut d = small_adj(s, k);
    large_adj(s, k, &mut d);
    s.large = true;
    d
}

fn small_adj(s: &mut Src, k: &DK) -> AdjData {
    AdjData {
        entries: (0..s.len(3, 20))
            .map(|_| AdjEntryData {
                mesh_object_index: if k.valid || s.chance(3, 4) {
                    int(s, 4) as u32 as usize
                } else {
                    int(s, 8) as usize
                },
                vertex_adjacency: (0..s.len(6, 60)).map(|_| int(s, 2) as i16).collect(),
            })
            .collect(),
    }
}

pub fn param_id(s: &mut Src) -> ParamId {
    variant(s, "ParamId")
}

fn param<T>(s: &mut Src, d: impl FnOnce(&mut Src) -> T) -> ParamData<T> {
    ParamData { param_id: param_id(s), data: d(s) }
}

pub fn sampler(s: &mut Src, k: &DK) -> SamplerData {
    SamplerData {
        wraps: variant(s, "WrapMode"),
        wrapt: variant(s, "WrapMode"),
        wrapr: variant(s, "WrapMode"),
        min_filter: variant(s, "MinFilter"),
        mag_filter: variant(s, "MagFilter"),
        border_color: Color4f { r: k.f32(s), g: k.f32(s), b: k.f32(s), a: k.f32(s) },
        lod_bias: k.f32(s),
        max_anisotropy: variant(s, "MaxAnisotropy"),
    }
}

pub fn matl(s: &mut Src, k: &DK) -> MatlData {
    if !s.large {
        return small_matl(s, k);
    }
    s.large = false;
    let mut d = small_matl(s, k);
    large_matl(s, k, &mut d);
    s.large = true;
    d
}

fn small_matl(s: &mut Src, k: &DK) -> MatlData {
    let (major_version, minor_version) = version(s, k, &[(1, 6)]);
    MatlData {
        major_version,
        minor_version,
        entries: (0..s.len(2, 8))
            .map(|_| {
                let mut n = || 0;
                let _ = &mut n;
                MatlEntryData {
                    material_label: string(s),
                    shader_label: string(s),
                    blend_states: (0..s.len(1, 4))
                        .map(|_| {
                            param(s, |s| BlendStateData {
                                source_color: variant(s, "BlendFactor"),
                                color_operation: variant(s, "BlendOperation"),
                                destination_color: variant(s, "BlendFactor"),
                                source_alpha: variant(s, "BlendFactor"),
                                alpha_operation: variant(s, "BlendOperation"),
                                destination_alpha: variant(s, "BlendFactor"),
                                alpha_sample_to_coverage: s.chance(1, 2),
                            })
                        })
                        .collect(),
                    floats: (0..s.len(1, 6)).map(|_| param(s, |s| k.f32(s))).collect(),
                    booleans: (0..s.len(1, 6)).map(|_| param(s, |s| s.chance(1, 2))).collect(),
                    vectors: (0..s.len(1, 6)).map(|_| param(s, |s| v4(s, k))).collect(),
                    rasterizer_states: (0..s.len(1, 4))
                        .map(|_| {
                            param(s, |s| RasterizerStateData {
                                fill_mode: variant(s, "FillMode"),
                                cull_mode: variant(s, "CullMode"),
                                depth_bias: k.f32(s),
                            })
                        })
                        .collect(),
                    samplers: (0..s.len(1, 4)).map(|_| param(s, |s| sampler(s, k))).collect(),
                    textures: (0..s.len(1, 4)).map(|_| param(s, string)).collect(),
                    uv_transforms: (0..s.len(1, 4))
                        .map(|_| {
                            param(s, |s| ssbh_data::matl_data::UvTransform {
                                scale_u: k.f32(s),
                                scale_v: k.f32(s),
                                rotation: k.f32(s),
                                translate_u: k.f32(s),
                                translate_v: k.f32(s),
                            })
                        })
                        .collect(),
                }
            })
            .collect(),
    }
}

// ---------------------------------------------------------------- skel

/// A matrix: identity, scale/rotation/translation, plain numbers or anything.
pub fn matrix(s: &mut Src, k: &DK) -> [[f32; 4]; 4] {
    match s.weighted(&[2, 12, 4, 2, 1]) {
        0 => IDENTITY,
        1 => trs(s),
        4 => {
            // nearly something else
            let mut m = if s.chance(2, 3) { IDENTITY } else { trs(s) };
            for _ in 0..s.range(1, 4) {
                let (i, j) = (s.usize(4), s.usize(4));
                m[i][j] += tiny(s);
            }
            m
        }
        2 => {
            let mut m = [[0.0; 4]; 4];
            for c in m.iter_mut().flatten() {
                *c = f32_geo(s);
            }
            m
        }
        _ => {
            let mut m = [[0.0; 4]; 4];
            for c in m.iter_mut().flatten() {
                *c = k.f32(s);
            }
            m
        }
    }
}

pub const IDENTITY: [[f32; 4]; 4] =
    [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];

/// An invertible column-major scale/rotation/translation matrix of moderate size.
pub fn trs(s: &mut Src) -> [[f32; 4]; 4] {
    let ang = |s: &mut Src| match s.weighted(&[2, 2, 3]) {
        0 => 0.0f64,
        1 => std::f64::consts::FRAC_PI_2 * s.below(4) as f64,
        _ => s.below(6284) as f64 / 1000.0,
    };
    let (a, b, c) = (ang(s), ang(s), ang(s));
    let sc: Vec<f64> = (0..3)
        .map(|_| match s.weighted(&[4, 3, 1]) {
            0 => 1.0,
            1 => (s.below(300) as f64 + 20.0) / 100.0,
            _ => -((s.below(200) as f64 + 50.0) / 100.0),
        })
        .collect();
    // now and then tiny or huge as a whole
    let all = if s.chance(1, 8) { 10f64.powi(s.below(9) as i32 - 6) } else { 1.0 };
    let sc: Vec<f64> = sc.into_iter().map(|x| x * all).collect();
    let tr: Vec<f64> = (0..3).map(|_| (s.below(4001) as f64 - 2000.0) / 64.0).collect();
    let rx = [[1.0, 0.0, 0.0], [0.0, a.cos(), a.sin()], [0.0, -a.sin(), a.cos()]];
    let ry = [[b.cos(), 0.0, -b.sin()], [0.0, 1.0, 0.0], [b.sin(), 0.0, b.cos()]];
    let rz = [[c.cos(), c.sin(), 0.0], [-c.sin(), c.cos(), 0.0], [0.0, 0.0, 1.0]];
    let mul = |x: [[f64; 3]; 3], y: [[f64; 3]; 3]| {
        let mut r = [[0.0f64; 3]; 3];
        for (j, rj) in r.iter_mut().enumerate() {
            for (i, e) in rj.iter_mut().enumerate() {
                *e = (0..3).map(|q| x[q][i] * y[j][q]).sum();
            }
        }
        r
    };
    let m = mul(rz, mul(ry, rx));
    let mut out = IDENTITY;
    for j in 0..3 {
        for i in 0..3 {
            out[j][i] = (m[j][i] * sc[j]) as f32;
        }
        out[3][j] = tr[j] as f32;
    }
    out
}

pub fn skel(s: &mut Src, k: &DK) -> SkelData {
    if !s.large {
        return small_skel(s, k);
    }
    s.large = false;
    let mut d = small_skel(s, k);
    large_skel(s, k, &mut d);
    s.large = true;
    d
}

fn small_skel(s: &mut Src, k: &DK) -> SkelData {
    let (major_version, minor_version) = version(s, k, &[(1, 0)]);
    let n = if k.big && s.chance(1, 25) { s.range(100, 400) as usize } else { s.len(6, 40) };
    // a random forest in random order
    let mut order: Vec<usize> = (0..n).collect();
    s.shuffle(&mut order);
    let mut parent = vec![None; n];
    let chain = s.chance(1, 4);
    for i in 0..n {
        let me = order[i];
        if i > 0 && (chain || s.chance(4, 5)) {
            parent[me] = Some(if chain { order[i - 1] } else { order[s.usize(i)] });
        }
    }
    if !k.valid && n > 0 {
        for _ in 0..s.below(3) {
            let i = s.usize(n);
            parent[i] = Some(match s.weighted(&[4, 2, 1, 1, 1]) {
                0 => s.usize(n),
                1 => i,
                2 => n + s.usize(5),
                3 => int(s, 8) as usize,
                // around the largest indices that can be stored
                _ => ([1 << 15, 1 << 16, 1 << 32, usize::MAX - 9][s.usize(4)] - 3) + s.usize(6),
            });
        }
    }
    SkelData {
        major_version,
        minor_version,
        bones: (0..n)
            .map(|i| BoneData {
                name: string(s),
                transform: matrix(s, k),
                parent_index: parent[i],
                billboard_type: variant(s, "BillboardType"),
            })
            .collect(),
    }
}

// ---------------------------------------------------------------- mesh

pub const NAMES: [&str; 6] = ["body", "face", "bodyShape", "face_VIS_O_OBJShape", "a", ""];
pub const BONES: [&str; 5] = ["Trans", "Hip", "Head", "Arm", ""];

/// Values for half-precision, byte and full-precision attributes.
pub fn component(s: &mut Src, k: &DK, what: u32) -> f32 {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => f32_geo(s),
        1 => match what {
            // colors
            2 => match s.weighted(&[3, 2]) {
                0 => s.below(256) as f32 / 255.0,
                _ => s.below(4001) as f32 / 2000.0 - 0.5,
            },
            _ => half_like(s),
        },
        2 => *s.pick(&[0.0, 1.0, -1.0, -0.0, 0.5, 65504.0, 65519.9, 65520.0, -65536.0, 6.1035156e-5, 5.9604645e-8, 2.9802322e-8, 1.5, 0.25, 254.5 / 255.0]),
        _ => k.f32(s),
    }
}

fn half_like(s: &mut Src) -> f32 {
    let h = half::f16::from_bits(s.below(65536) as u16);
    let f = h.to_f32();
    if f.is_finite() {
        match s.weighted(&[2, 1, 1]) {
            0 => f,
            1 => f32::from_bits(f.to_bits().wrapping_add(0x1000)),
            _ => f32::from_bits(f.to_bits().wrapping_add(s.below(0x2000) as u32)),
        }
    } else {
        1.0
    }
}

pub fn vectors(s: &mut Src, k: &DK, dim: u64, n: usize, what: u32) -> VectorData {
    let same = s.chance(1, 6);
    let f = |s: &mut Src| if same { 0.5 } else { component(s, k, what) };
    match dim {
        0 => VectorData::Vector2((0..n).map(|_| [f(s), f(s)]).collect()),
        1 => VectorData::Vector3((0..n).map(|_| [f(s), f(s), f(s)]).collect()),
        _ => VectorData::Vector4((0..n).map(|_| [f(s), f(s), f(s), f(s)]).collect()),
    }
}

fn attrs(s: &mut Src, k: &DK, n: usize, typical: u64, dims: &[u64], names: &[&str], what: u32) -> Vec<AttributeData> {
    (0..s.below(typical + 1))
        .map(|_| {
            let dim = dims[s.weighted(&[8, 2, 2][..dims.len()])];
            AttributeData { name: name(s, names), data: vectors(s, k, dim, n, what) }
        })
        .collect()
}

pub fn mesh_object(s: &mut Src, k: &DK, v10: bool) -> MeshObjectData {
    let n: usize = if k.big && s.chance(1, 400) {
        65530 + s.usize(12)
    } else {
        match s.weighted(&[1, 12, 2]) {
            0 => 0,
            1 => s.range(1, 9) as usize,
            _ => s.range(10, 40) as usize,
        }
    };
    let mut o = MeshObjectData {
        name: name(s, &NAMES),
        subindex: if s.chance(4, 5) { s.below(4) } else { int(s, 8) },
        parent_bone_name: name(s, &BONES),
        sort_bias: int(s, 4) as i32,
        disable_depth_write: s.chance(1, 3),
        disable_depth_test: s.chance(1, 3),
        ..Default::default()
    };
    if n > 1000 {
        // a large mesh object: few choices
        let x = f32_geo(s);
        o.positions = vec![AttributeData {
            name: "Position0".into(),
            data: VectorData::Vector3((0..n).map(|i| [i as f32 * 0.5, x, -(i as f32)]).collect()),
        }];
        if s.chance(1, 2) {
            o.texture_coordinates = vec![AttributeData {
                name: "map1".into(),
                data: VectorData::Vector2((0..n).map(|i| [(i % 64) as f32, x]).collect()),
            }];
        }
        let t = s.below(3);
        o.vertex_indices = (0..3).map(|_| s.usize(n) as u32).collect();
        o.vertex_indices.extend([0, 1, n as u32 - 1 - t as u32]);
    } else {
        let p = if s.chance(9, 10) { 1 } else { s.below(3) };
        for _ in 0..p {
            let dim = [1, 0, 2][s.weighted(&[10, 1, 1])];
            o.positions.push(AttributeData { name: name(s, &["Position0", "Position1"]), data: vectors(s, k, dim, n, 0) });
        }
        o.normals = attrs(s, k, n, 1, &[2, 1, 0], &["Normal0"], 1);
        o.binormals = attrs(s, k, n, 2, &[2, 1, 0], &["Binormal0", "Binormal1"], 1);
        o.tangents = attrs(s, k, n, 2, &[2, 1, 0], &["Tangent0", "Tangent1"], 1);
        o.texture_coordinates = attrs(s, k, n, 3, &[0, 2, 1], &["map1", "uvSet", "uvSet1", "bake1"], 1);
        o.color_sets = attrs(s, k, n, 3, &[2, 1, 0], &["colorSet1", "colorSet2", "colorSet7"], 2);
        let any = !(o.positions.is_empty()
            && o.normals.is_empty()
            && o.tangents.is_empty()
            && o.binormals.is_empty()
            && o.texture_coordinates.is_empty()
            && o.color_sets.is_empty());
        if any && n > 0 {
            o.vertex_indices = (0..3 * s.len(3, 12)).map(|_| s.usize(n) as u32).collect();
        }
        if s.chance(1, 2) {
            for _ in 0..s.below(4) {
                let weights = (0..if s.chance(1, 40) { s.range(40, 300) } else { s.below(5) })
                    .map(|_| VertexWeight {
                        vertex_index: if n > 0 && s.chance(9, 10) {
                            s.usize(n) as u32
                        } else if v10 {
                            int(s, 2) as u32
                        } else {
                            int(s, 4) as u32
                        },
                        vertex_weight: k.f32(s),
                    })
                    .collect();
                o.bone_influences.push(BoneInfluence { bone_name: name(s, &BONES), vertex_weights: weights });
            }
        }
    }
    o
}

pub fn mesh(s: &mut Src, k: &DK) -> MeshData {
    if !s.large {
        return small_mesh(s, k);
    }
    s.large = false;
    let mut d = small_mesh(s, k);
    large_mesh(s, k, &mut d);
    s.large = true;
    d
}

fn small_mesh(s: &mut Src, k: &DK) -> MeshData {
    let (major_version, minor_version) = version(s, k, &[(1, 10), (1, 9), (1, 8)]);
    let n = s.weighted(&[1, 6, 4, 2, 2, 1]);
    let mut objects: Vec<MeshObjectData> = (0..n).map(|_| mesh_object(s, k, minor_version == 10)).collect();
    if k.valid {
        // no two objects with the same name and subindex
        let mut seen = std::collections::HashSet::new();
        for o in objects.iter_mut() {
            while !seen.insert((o.name.clone(), o.subindex)) {
                o.subindex = o.subindex.wrapping_add(1);
            }
        }
        if minor_version == 8 {
            // binormals cannot be stored but have to agree in length
        }
    } else {
        for _ in 0..s.below(3) {
            if objects.is_empty() {
                break;
            }
            let i = s.usize(objects.len());
            let other = objects[s.usize(objects.len())].clone();
            spoil(s, &mut objects[i], &other);
        }
    }
    MeshData { major_version, minor_version, objects }
}

fn resize(d: &mut VectorData, n: usize) {
    match d {
        VectorData::Vector2(v) => v.resize(n, [0.0; 2]),
        VectorData::Vector3(v) => v.resize(n, [0.0; 3]),
        VectorData::Vector4(v) => v.resize(n, [0.0; 4]),
    }
}

/// One defect (or apparent defect) in a mesh object.
pub fn spoil(s: &mut Src, o: &mut MeshObjectData, other: &MeshObjectData) {
    let n = o.vertex_count().unwrap_or(0);
    match s.weighted(&[4, 4, 4, 3, 2, 2]) {
        0 => {
            let lists = [
                &mut o.positions,
                &mut o.normals,
                &mut o.binormals,
                &mut o.tangents,
                &mut o.texture_coordinates,
                &mut o.color_sets,
            ];
            let mut l: Vec<&mut AttributeData> = lists.into_iter().flat_map(|l| l.iter_mut()).collect();
            if !l.is_empty() {
                let i = s.usize(l.len());
                let m = match s.weighted(&[2, 2, 1]) {
                    0 => n + 1,
                    1 => n.saturating_sub(1),
                    _ => s.usize(12),
                };
                resize(&mut l[i].data, m);
            }
        }
        1 => match s.below(2) {
            0 => o.vertex_indices.push(0),
            _ => {
                o.vertex_indices.pop();
            }
        },
        2 => {
            let v = match s.weighted(&[4, 2, 1]) {
                0 => n as u32,
                1 => n as u32 + s.below(4) as u32,
                _ => int(s, 4) as u32,
            };
            if o.vertex_indices.is_empty() {
                o.vertex_indices = vec![0, 0, v];
            } else {
                let i = s.usize(o.vertex_indices.len());
                o.vertex_indices[i] = v;
            }
        }
        3 => {
            o.name = other.name.clone();
            o.subindex = other.subindex;
        }
        4 => o.bone_influences.push(BoneInfluence {
            bone_name: name(s, &BONES),
            vertex_weights: vec![VertexWeight {
                vertex_index: *s.pick(&[65535, 65536, 65537, 70000, u32::MAX, 0x10000]),
                vertex_weight: 1.0,
            }],
        }),
        _ => {
            o.vertex_indices = (0..3 * s.below(4)).map(|_| int(s, 4) as u32).collect();
        }
    }
}

// ---------------------------------------------------------------- anim

pub fn series(s: &mut Src, k: &DK, n: usize, f: &mut dyn FnMut(&mut Src, &DK) -> f32) -> Vec<f32> {
    match s.weighted(&[6, 12, 4, 1]) {
        0 => {
            let v = f(s, k);
            vec![v; n]
        }
        3 => {
            // nearly constant
            let v = f(s, k);
            (0..n)
                .map(|_| {
                    let x = if s.chance(1, 3) { v + v.abs().max(1.0) * tiny(s) } else { v };
                    if x.is_finite() { x } else { v }
                })
                .collect()
        }
        1 => (0..n).map(|_| f(s, k)).collect(),
        _ => {
            let (a, b) = (f(s, k), f(s, k));
            (0..n).map(|_| if s.chance(1, 2) { a } else { b }).collect()
        }
    }
}

pub fn anim_component(s: &mut Src, k: &DK) -> f32 {
    match s.weighted(&[10, 2, 1]) {
        0 => f32_geo(s),
        1 => *s.pick(&[0.0, 1.0, -1.0, -0.0, 100.0]),
        _ => k.f32(s),
    }
}

fn unit_component(s: &mut Src) -> f32 {
    match s.weighted(&[4, 2]) {
        0 => (s.below(2001) as f32 - 1000.0) / 1000.0,
        _ => *s.pick(&[0.0, 1.0, -1.0, 0.5, std::f32::consts::FRAC_1_SQRT_2]),
    }
}

pub fn rotations(s: &mut Src, k: &DK, n: usize) -> Vec<Vector4> {
    let mode = s.weighted(&[4, 12, 4, 2, 1]);
    let one = |s: &mut Src| {
        let q: Vec<f64> = (0..4).map(|_| unit_component(s) as f64).collect();
        let l = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l < 1e-3 {
            Vector4::new(0.0, 0.0, 0.0, 1.0)
        } else {
            Vector4::new((q[0] / l) as f32, (q[1] / l) as f32, (q[2] / l) as f32, (q[3] / l) as f32)
        }
    };
    match mode {
        0 => {
            let q = one(s);
            vec![q; n]
        }
        1 => (0..n).map(|_| one(s)).collect(),
        2 => {
            // rotation about one axis
            let axis = s.usize(3);
            (0..n)
                .map(|_| {
                    let a = (s.below(6284) as f64) / 1000.0;
                    let mut q = [0.0f32; 4];
                    q[axis] = a.sin() as f32;
                    q[3] = a.cos() as f32;
                    Vector4::new(q[0], q[1], q[2], q[3])
                })
                .collect()
        }
        4 => {
            // nearly constant
            let q = one(s);
            (0..n)
                .map(|_| if s.chance(1, 2) { q } else { Vector4::new(q.x + tiny(s), q.y, q.z + tiny(s), q.w) })
                .collect()
        }
        _ => (0..n).map(|_| v4(s, k)).collect(),
    }
}

pub fn track_values(s: &mut Src, k: &DK, n: usize, kind: usize) -> TrackValues {
    let f = &mut |s: &mut Src, k: &DK| anim_component(s, k);
    match kind {
        0 => {
            let mut c: Vec<Vec<f32>> = (0..6).map(|_| series(s, k, n, f)).collect();
            if s.chance(1, 3) {
                // uniform scale
                c[1] = c[0].clone();
                c[2] = c[0].clone();
            }
            let r = rotations(s, k, n);
            TrackValues::Transform(
                (0..n)
                    .map(|i| Transform {
                        scale: Vector3::new(c[0][i], c[1][i], c[2][i]),
                        rotation: r[i],
                        translation: Vector3::new(c[3][i], c[4][i], c[5][i]),
                    })
                    .collect(),
            )
        }
        1 => {
            let mut c: Vec<Vec<f32>> = (0..5).map(|_| series(s, k, n, f)).collect();
            if s.chance(1, 3) {
                c[1] = c[0].clone();
            }
            TrackValues::UvTransform(
                (0..n)
                    .map(|i| ssbh_data::anim_data::UvTransform {
                        scale_u: c[0][i],
                        scale_v: c[1][i],
                        rotation: c[2][i],
                        translate_u: c[3][i],
                        translate_v: c[4][i],
                    })
                    .collect(),
            )
        }
        2 => TrackValues::Float(series(s, k, n, f)),
        3 => {
            let mode = s.weighted(&[5, 1, 1]);
            let base = int(s, 4) as u32;
            TrackValues::PatternIndex(
                (0..n)
                    .map(|_| match mode {
                        0 => s.below(17) as u32,
                        1 => base.wrapping_add(s.below(300) as u32),
                        _ => int(s, 4) as u32,
                    })
                    .collect(),
            )
        }
        4 => TrackValues::Boolean((0..n).map(|_| s.chance(1, 2)).collect()),
        _ => {
            let c: Vec<Vec<f32>> = (0..4).map(|_| series(s, k, n, f)).collect();
            TrackValues::Vector4((0..n).map(|i| Vector4::new(c[0][i], c[1][i], c[2][i], c[3][i])).collect())
        }
    }
}

pub const TRACKS: [&str; 5] = ["Transform", "Visibility", "CustomVector3", "DiffuseUVTransform", "Texture0"];

pub fn track_len(s: &mut Src) -> usize {
    match s.weighted(&[1, 4, 6, 4, 1]) {
        0 => 0,
        1 => 1,
        2 => s.range(2, 12) as usize,
        3 => s.range(2, 50) as usize,
        _ => s.range(50, 300) as usize,
    }
}

pub fn anim(s: &mut Src, k: &DK) -> AnimData {
    if !s.large {
        return small_anim(s, k);
    }
    s.large = false;
    let mut d = small_anim(s, k);
    large_anim(s, k, &mut d);
    s.large = true;
    d
}

fn small_anim(s: &mut Src, k: &DK) -> AnimData {
    let (major_version, minor_version) = version(s, k, &[(2, 0), (2, 1)]);
    let mut longest = 0;
    let groups: Vec<GroupData> = (0..s.len(2, 4))
        .map(|_| GroupData {
            group_type: variant(s, "GroupType"),
            nodes: (0..s.len(2, 6))
                .map(|_| NodeData {
                    name: name(s, &BONES),
                    tracks: (0..s.len(2, 5))
                        .map(|_| {
                            let n = track_len(s);
                            longest = longest.max(n);
                            let kind = s.usize(6);
                            TrackData {
                                name: name(s, &TRACKS),
                                compensate_scale: s.chance(1, 3),
                                transform_flags: if minor_version == 1 || !k.valid || true {
                                    TransformFlags {
                                        override_translation: s.chance(1, 4),
                                        override_rotation: s.chance(1, 4),
                                        override_scale: s.chance(1, 4),
                                        override_compensate_scale: s.chance(1, 4),
                                    }
                                } else {
                                    TransformFlags::default()
                                },
                                values: track_values(s, k, n, kind),
                            }
                        })
                        .collect(),
                })
                .collect(),
        })
        .collect();
    let last = longest.saturating_sub(1) as f32;
    let final_frame_index = if k.valid {
        match s.weighted(&[4, 2, 1]) {
            0 => last,
            1 => last + s.below(100) as f32 / 8.0,
            _ => last + 1000.0,
        }
    } else {
        match s.weighted(&[3, 2, 2, 2]) {
            0 => last,
            1 => last - 0.5,
            2 => s.below(40) as f32 - 3.0,
            _ => k.f32(s),
        }
    };
    AnimData { major_version, minor_version, final_frame_index, groups }
}

// ---------------------------------------------------------------- conversions without a file

/// The file-level value (as in gen_file) the data converts to, by reference and by value.
pub fn to_file_val(d: &AnyData) -> Result<Result<Val, String>, Fail> {
    use ssbh_lib::prelude::*;
    fn w(name: &'static str, v: Val) -> Val {
        Val::Variant(name, Some(Box::new(v)))
    }
    macro_rules! conv {
        ($d:expr, $lib:ty, $name:literal, $wrap:expr) => {{
            let a = lib(|| <$lib>::try_from($d).map_err(|e| format!("{e:?}")))?;
            let b = lib(|| <$lib>::try_from($d.clone()).map_err(|e| format!("{e:?}")))?;
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let (a, b) = lib(|| (to_val(&a), to_val(&b)))?;
                    let (a, b) = (a.unwrap(), b.unwrap());
                    if let Some(d) = a.diff(&b) {
                        crate::fail!("{}: converting by value and by reference differ: {d}", $name);
                    }
                    Ok(if $wrap { w($name, a) } else { a })
                }
                (Err(a), Err(b)) if a == b => Err(a),
                (a, b) => crate::fail!(
                    "{}: converting by value and by reference differ: {:?} {:?}",
                    $name,
                    a.map(|_| ()),
                    b.map(|_| ())
                ),
            }
        }};
    }
    Ok(match d {
        AnyData::Mesh(d) => conv!(d, Mesh, "Mesh", true),
        AnyData::Skel(d) => conv!(d, Skel, "Skel", true),
        AnyData::Anim(d) => conv!(d, Anim, "Anim", true),
        AnyData::Modl(d) => conv!(d, Modl, "Modl", true),
        AnyData::Matl(d) => conv!(d, Matl, "Matl", true),
        AnyData::Hlpb(d) => conv!(d, Hlpb, "Hlpb", true),
        AnyData::MeshEx(d) => conv!(d, MeshEx, "MeshEx", false),
        AnyData::Adj(d) => conv!(d, Adj, "Adj", false),
    })
}

/// The data a file-level value converts to, by reference and by value.
pub fn from_file_val(kind: DKind, v: &Val) -> Result<Result<AnyData, String>, Fail> {
    use ssbh_lib::prelude::*;
    let inner = match v {
        Val::Variant(_, Some(x)) => x,
        v => v,
    };
    macro_rules! conv {
        ($data:ty, $lib:ty, $v:ident) => {{
            let f: $lib = lib(|| from_val(inner))?.map_err(|e| Fail(format!("value not accepted: {e}")))?;
            let a = lib(|| <$data>::try_from(&f).map_err(|e| e.to_string()))?;
            let b = lib(|| <$data>::try_from(f).map_err(|e| e.to_string()))?;
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let (x, y) = lib(|| (to_val(&a), to_val(&b)))?;
                    if let Some(d) = x.unwrap().diff(&y.unwrap()) {
                        crate::fail!("{}: converting by value and by reference differ: {d}", stringify!($lib));
                    }
                    Ok(AnyData::$v(a))
                }
                (Err(a), Err(b)) if a == b => Err(a),
                (a, b) => crate::fail!(
                    "{}: converting by value and by reference differ: {:?} {:?}",
                    stringify!($lib),
                    a.map(|_| ()),
                    b.map(|_| ())
                ),
            }
        }};
    }
    Ok(match kind {
        DKind::Mesh => conv!(MeshData, Mesh, Mesh),
        DKind::Skel => conv!(SkelData, Skel, Skel),
        DKind::Anim => conv!(AnimData, Anim, Anim),
        DKind::Modl => conv!(ModlData, Modl, Modl),
        DKind::Matl => conv!(MatlData, Matl, Matl),
        DKind::Hlpb => conv!(HlpbData, Hlpb, Hlpb),
        DKind::MeshEx => conv!(MeshExData, MeshEx, MeshEx),
        DKind::Adj => conv!(AdjData, Adj, Adj),
    })
}

// ---------------------------------------------------------------- typed changes to file-level values

fn file_type(k: Kind) -> T {
    use std::sync::OnceLock;
    static MX: OnceLock<T> = OnceLock::new();
    static AD: OnceLock<T> = OnceLock::new();
    fn leak(t: Ty) -> T {
        Box::leak(Box::new(t))
    }
    let sc = schema();
    match k {
        Kind::Ssbh(_, v) => v.body,
        Kind::MeshEx => MX.get_or_init(|| {
            let arr = |n: &str| leak(Ty::Abs(16, leak(Ty::Vec(sc.types[n]))));
            leak(Ty::Struct {
                name: "MeshEx",
                fields: vec![
                    ("all_data", leak(Ty::Abs(16, sc.types["AllData"]))),
                    ("mesh_object_groups", arr("MeshObjectGroup")),
                    ("entries", arr("MeshEntry")),
                    ("entry_flags", leak(Ty::Abs(16, leak(Ty::Vec(leak(Ty::Bits(2))))))),
                    ("unk1", leak(Ty::Int { w: 4, signed: false })),
                ],
                pad: 0,
            })
        }),
        Kind::Adj => AD.get_or_init(|| {
            leak(Ty::Struct {
                name: "Adj",
                fields: vec![
                    ("entries", leak(Ty::Arr(sc.types["AdjEntry"]))),
                    ("index_buffer", leak(Ty::Arr(leak(Ty::Int { w: 2, signed: true })))),
                ],
                pad: 0,
            })
        }),
    }
}

type Node<'a> = (T, &'a mut Val);

fn children<'a>(t: T, v: &'a mut Val) -> Vec<Node<'a>> {
    match (t, v) {
        (Ty::Struct { fields, .. }, Val::Map(m)) => {
            fields.iter().zip(m.iter_mut()).map(|((_, t), (_, v))| (*t, v)).collect()
        }
        (Ty::Arr(e) | Ty::Vec(e), Val::Seq(s)) => s.iter_mut().map(|v| (*e, v)).collect(),
        (Ty::Fixed(e, _), Val::Seq(s)) => s.iter_mut().map(|v| (*e, v)).collect(),
        (Ty::Rel(_, e) | Ty::Abs(_, e), Val::Some(v)) => vec![(*e, &mut **v)],
        (Ty::Tag(e), Val::Map(m)) => match &mut m[0].1 {
            Val::Some(v) => vec![(*e, &mut **v)],
            _ => vec![],
        },
        (Ty::Tagged { cases, .. }, Val::Variant(n, Some(v))) => {
            let t = cases.iter().find(|c| c.1 == *n).unwrap().2;
            vec![(t, &mut **v)]
        }
        _ => vec![],
    }
}

/// Walk down to a random node (lists weigh like single fields, so small things are hit often).
fn pick_node<'a>(s: &mut Src, t: T, v: &'a mut Val, depth: usize) -> Node<'a> {
    let n = children(t, v).len();
    if n == 0 || s.chance(1, 12 + if depth < 3 { 30 } else { 0 }) {
        return (t, v);
    }
    let i = s.usize(n);
    let (ct, cv) = children(t, v).swap_remove(i);
    pick_node(s, ct, cv, depth + 1)
}

pub fn mutate_val(s: &mut Src, k: Kind, v: &mut Val) {
    let root: &mut Val = match (k, v) {
        (Kind::Ssbh(..), Val::Variant(_, Some(x))) => match &mut **x {
            Val::Variant(_, Some(b)) => b,
            _ => unreachable!(),
        },
        (_, v) => v,
    };
    let (t, n) = pick_node(s, file_type(k), root, 0);
    let mut kn = Knobs::small();
    match (t, &mut *n) {
        (Ty::Bytes, Val::Bytes(b)) => match s.weighted(&[4, 3, 1, 1, 2]) {
            0 if !b.is_empty() => {
                for _ in 0..s.range(1, 4) {
                    let i = s.usize(b.len());
                    b[i] = *s.pick(&[0, 1, 2, 0xff, 0x80, 0x7f, 4, 32, 33, 255]);
                }
            }
            1 => {
                let m = s.usize(b.len() + 1);
                b.truncate(m);
            }
            2 => b.clear(),
            3 => {
                for _ in 0..s.range(1, 8) {
                    b.push(s.below(256) as u8);
                }
            }
            _ => {
                // an aligned 16, 32 or 64 bit number
                let w = *s.pick(&[2usize, 4, 8]);
                if b.len() >= w {
                    let i = s.usize(b.len() - w + 1) / 2 * 2;
                    let x = int(s, w).to_le_bytes();
                    b[i..i + w].copy_from_slice(&x[..w]);
                }
            }
        },
        (Ty::Arr(_) | Ty::Vec(_), Val::Seq(x)) if !x.is_empty() => match s.weighted(&[3, 3, 1, 2]) {
            0 => {
                let i = s.usize(x.len());
                x.remove(i);
            }
            1 => {
                let i = s.usize(x.len());
                let y = x[i].clone();
                x.push(y);
            }
            2 => x.clear(),
            _ => {
                let (i, j) = (s.usize(x.len()), s.usize(x.len()));
                x.swap(i, j);
            }
        },
        (Ty::Int { w, signed: false }, Val::U(x)) => {
            let mask = if *w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
            *x = (match s.weighted(&[3, 2, 3]) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                _ => int(s, *w),
            }) & mask;
        }
        (t, n) => *n = gen(s, t, &mut kn),
    }
}

// ---------------------------------------------------------------- large values

fn is_big_node(t: T, v: &Val) -> bool {
    matches!(
        (t, v),
        (Ty::Bytes, _) | (Ty::CStr(_), Val::Str(_)) | (Ty::Str(_), _) | (Ty::Arr(_) | Ty::Vec(_), Val::Seq(_))
    )
}

fn count_big(t: T, v: &mut Val) -> usize {
    is_big_node(t, v) as usize + children(t, v).into_iter().map(|(t, v)| count_big(t, v)).sum::<usize>()
}

fn nth_big<'a>(t: T, v: &'a mut Val, n: &mut usize) -> Option<Node<'a>> {
    if is_big_node(t, v) {
        if *n == 0 {
            return Some((t, v));
        }
        *n -= 1;
    }
    let k = children(t, v).len();
    for i in 0..k {
        let (ct, cv) = children(t, v).swap_remove(i);
        let c = count_big(ct, cv);
        if *n < c {
            let (ct, cv) = children(t, v).swap_remove(i);
            return nth_big(ct, cv, n);
        }
        *n -= c;
    }
    None
}

fn pattern(i: usize) -> u8 {
    ((i as u32).wrapping_mul(2654435761) >> 13) as u8
}

/// A small file value with one of its lists, buffers or strings made large. Returns the value and the length.
pub fn giant_file(s: &mut Src, k: Kind, kn: &mut Knobs) -> (Val, usize) {
    kn.fuel = kn.fuel.min(60);
    let mut v = gen_file(s, k, kn);
    let root: &mut Val = match (k, &mut v) {
        (Kind::Ssbh(..), Val::Variant(_, Some(x))) => match &mut **x {
            Val::Variant(_, Some(b)) => b,
            _ => unreachable!(),
        },
        (_, v) => v,
    };
    let t = file_type(k);
    let total = count_big(t, root);
    let mut len = 0;
    if total > 0 {
        let mut i = s.usize(total);
        let (t, n) = nth_big(t, root, &mut i).unwrap();
        let short = [255usize, 256, 257, 511, 1000, 1024, 2049];
        let wide = [4095usize, 4096, 4097, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 70001];
        let huge = [131073usize, 262145, 1 << 20, (1 << 20) + 3];
        len = match t {
            Ty::Bytes | Ty::Str(_) | Ty::CStr(_) => match s.weighted(&[2, 5, 2]) {
                0 => *s.pick(&short),
                1 => *s.pick(&wide),
                _ => *s.pick(&huge),
            },
            Ty::Arr(e) | Ty::Vec(e) => {
                let small = matches!(e, Ty::Int { .. } | Ty::F32 | Ty::Enum { .. } | Ty::Bits(_) | Ty::Str(_) | Ty::Tag(_))
                    || matches!(e, Ty::Struct { fields, .. } if fields.len() <= 4);
                if small && s.chance(3, 4) {
                    *s.pick(&wide)
                } else {
                    *s.pick(&short)
                }
            }
            _ => 0,
        };
        let text = |n: usize| (0..n).map(|i| b' ' + pattern(i) % 95).collect::<Vec<u8>>();
        match (t, n) {
            (Ty::Bytes, n) => *n = Val::Bytes((0..len).map(pattern).collect()),
            (Ty::Str(_), n) => *n = Val::Some(Box::new(Val::Str(text(len)))),
            (Ty::CStr(_), n) => *n = Val::Str(text(len)),
            (Ty::Arr(e) | Ty::Vec(e), Val::Seq(x)) => {
                let prim = matches!(e, Ty::Int { .. } | Ty::F32 | Ty::Enum { .. } | Ty::Bits(_));
                let some: Vec<Val> = (0..if prim { 37 } else { 5 })
                    .map(|_| {
                        let mut k2 = kn.clone();
                        k2.fuel = 6;
                        k2.big = false;
                        gen(s, e, &mut k2)
                    })
                    .collect();
                *x = (0..len).map(|i| some[(i + i / 251) % some.len()].clone()).collect();
            }
            _ => {}
        }
    }
    if matches!(k, Kind::MeshEx) {
        // the flags have no count of their own
        if let Val::Map(m) = &mut v {
            let count = match &m[2].1 {
                Val::Some(e) => match &**e {
                    Val::Seq(e) => e.len(),
                    _ => 0,
                },
                _ => 0,
            };
            if let Val::Some(f) = &mut m[3].1 {
                if let Val::Seq(f) = &mut **f {
                    let blank = Val::Map(vec![("bytes", Val::Seq(vec![Val::U(1), Val::U(0)]))]);
                    let old = f.clone();
                    *f = (0..count).map(|i| if old.is_empty() { blank.clone() } else { old[i % old.len()].clone() }).collect();
                }
            } else if count > 0 {
                m[3].1 = Val::Some(Box::new(Val::Seq(vec![Val::Map(vec![("bytes", Val::Seq(vec![Val::U(1), Val::U(0)]))]); count])));
            }
        }
    }
    (v, len)
}

// ---------------------------------------------------------------- large data

/// A length past some power of two; `most` bounds it.
fn long(s: &mut Src, most: usize) -> usize {
    let sizes = [255usize, 256, 257, 300, 511, 1025, 2049, 4097, 8191, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073];
    let sizes: Vec<usize> = sizes.into_iter().filter(|n| *n <= most).collect();
    if s.chance(1, 2) {
        // the upper end
        let n = sizes.len().min(5);
        sizes[sizes.len() - 1 - s.usize(n)]
    } else {
        *s.pick(&sizes)
    }
}

/// Repeat what is there (or the blank) up to n items and tell each its place.
fn repeat<X: Clone>(v: &mut Vec<X>, n: usize, blank: X, mut place: impl FnMut(usize, &mut X)) {
    if v.is_empty() {
        v.push(blank);
    }
    let some = v.clone();
    *v = (0..n).map(|i| some[(i + i / 509) % some.len()].clone()).collect();
    for (i, x) in v.iter_mut().enumerate() {
        place(i, x);
    }
}

fn long_text(s: &mut Src) -> String {
    let n = long(s, 131073);
    (0..n).map(|i| (b'!' + pattern(i) % 94) as char).collect()
}

fn large_modl(s: &mut Src, _k: &DK, d: &mut ModlData) {
    match s.below(4) {
        0 => {
            let n = long(s, 70001);
            let blank = ModlEntryData { mesh_object_name: "a".into(), mesh_object_subindex: 0, material_label: "b".into() };
            repeat(&mut d.entries, n, blank, |i, e| {
                if i % 3 == 0 {
                    e.mesh_object_subindex = i as u64;
                }
                if i % 5 == 0 {
                    e.material_label = format!("mat{i}");
                }
            })
        }
        1 => {
            let n = long(s, 70001);
            repeat(&mut d.material_file_names, n, "m".into(), |i, e| {
                if i % 3 == 0 {
                    *e = format!("m{i}.numatb");
                }
            })
        }
        2 => d.model_name = long_text(s),
        _ => d.animation_file_name = Some(long_text(s)),
    }
}

fn large_hlpb(s: &mut Src, k: &DK, d: &mut HlpbData) {
    let aim = s.chance(1, 2);
    let n = long(s, 65537);
    if aim {
        let blank = AimConstraintData {
            name: "a".into(),
            aim_bone_name1: "b".into(),
            aim_bone_name2: "b".into(),
            aim_type1: "DEFAULT".into(),
            aim_type2: "DEFAULT".into(),
            target_bone_name1: "c".into(),
            target_bone_name2: "c".into(),
            unk1: 0,
            unk2: 1,
            aim: v3(s, k),
            up: v3(s, k),
            quat1: v4(s, k),
            quat2: v4(s, k),
        };
        repeat(&mut d.aim_constraints, n, blank, |i, e| e.unk1 = i as u32)
    } else {
        let blank = OrientConstraintData {
            name: "a".into(),
            parent_bone_name1: "b".into(),
            parent_bone_name2: "b".into(),
            source_bone_name: "c".into(),
            target_bone_name: "d".into(),
            unk_type: 2,
            constraint_axes: v3(s, k),
            quat1: v4(s, k),
            quat2: v4(s, k),
            range_min: v3(s, k),
            range_max: v3(s, k),
        };
        repeat(&mut d.orient_constraints, n, blank, |i, e| e.unk_type = i as u32)
    }
}

fn large_meshex(s: &mut Src, k: &DK, d: &mut MeshExData) {
    let blank = MeshObjectGroupData {
        bounding_sphere: BoundingSphere { center: v3(s, k), radius: k.f32(s) },
        mesh_object_full_name: "a_VIS_O_OBJShape".into(),
        mesh_object_name: "a".into(),
        entry_flags: vec![EntryFlags { draw_model: true, cast_shadow: false }],
    };
    match s.below(3) {
        0 => {
            let n = long(s, 16385);
            repeat(&mut d.mesh_object_groups, n, blank, |i, g| {
                g.entry_flags.truncate(2);
                if i % 3 == 0 {
                    g.mesh_object_name = format!("g{i}");
                }
            })
        }
        1 => {
            let n = long(s, 131073);
            if d.mesh_object_groups.is_empty() {
                d.mesh_object_groups.push(blank);
            }
            let g = s.usize(d.mesh_object_groups.len());
            let flag = EntryFlags { draw_model: true, cast_shadow: true };
            repeat(&mut d.mesh_object_groups[g].entry_flags, n, flag, |i, f| {
                if i % 7 == 0 {
                    f.draw_model = !f.draw_model;
                }
            })
        }
        _ => {
            if d.mesh_object_groups.is_empty() {
                d.mesh_object_groups.push(blank);
            }
            let g = s.usize(d.mesh_object_groups.len());
            if s.chance(1, 2) {
                d.mesh_object_groups[g].mesh_object_full_name = long_text(s)
            } else {
                d.mesh_object_groups[g].mesh_object_name = long_text(s)
            }
        }
    }
}

fn large_adj(s: &mut Src, _k: &DK, d: &mut AdjData) {
    let blank = AdjEntryData { mesh_object_index: 0, vertex_adjacency: vec![1, 2, -1] };
    if s.chance(1, 2) {
        let n = long(s, 70001);
        repeat(&mut d.entries, n, blank, |i, e| {
            e.vertex_adjacency.truncate(3);
            e.mesh_object_index = i
        })
    } else {
        let n = long(s, 131073);
        if d.entries.is_empty() {
            d.entries.push(blank);
        }
        let e = s.usize(d.entries.len());
        repeat(&mut d.entries[e].vertex_adjacency, n, 1, |i, a| {
            if i % 3 == 0 {
                *a = i as i16
            }
        })
    }
}

fn large_matl(s: &mut Src, k: &DK, d: &mut MatlData) {
    let blank = MatlEntryData {
        material_label: "a".into(),
        shader_label: "b".into(),
        blend_states: Vec::new(),
        floats: vec![param(s, |s| k.f32(s))],
        booleans: Vec::new(),
        vectors: Vec::new(),
        rasterizer_states: Vec::new(),
        samplers: Vec::new(),
        textures: vec![param(s, string)],
        uv_transforms: Vec::new(),
    };
    if s.chance(1, 2) {
        let n = long(s, 16385);
        repeat(&mut d.entries, n, blank, |i, e| {
            if i % 3 == 0 {
                e.material_label = format!("mat{i}");
            }
        })
    } else {
        let n = long(s, 65537);
        if d.entries.is_empty() {
            d.entries.push(blank);
        }
        let e = s.usize(d.entries.len());
        let e = &mut d.entries[e];
        let ids: Vec<ParamId> = (0..40).map(|_| param_id(s)).collect();
        match s.below(5) {
            0 => {
                let b = param(s, |s| k.f32(s));
                repeat(&mut e.floats, n, b, |i, p| {
                    p.param_id = ids[i % 40];
                    p.data = i as f32
                })
            }
            1 => {
                let b = param(s, |s| s.chance(1, 2));
                repeat(&mut e.booleans, n, b, |i, p| {
                    p.param_id = ids[i % 40];
                    p.data = i % 3 == 1
                })
            }
            2 => {
                let b = param(s, |s| v4(s, k));
                repeat(&mut e.vectors, n, b, |i, p| p.param_id = ids[i % 40])
            }
            3 => {
                let b = param(s, |s| sampler(s, k));
                repeat(&mut e.samplers, n, b, |i, p| p.data.lod_bias = i as f32)
            }
            _ => {
                let b = param(s, string);
                repeat(&mut e.textures, n, b, |i, p| {
                    p.param_id = ids[i % 40];
                    if i % 9 == 0 {
                        p.data = format!("tex{i}")
                    }
                })
            }
        }
    }
}

fn large_skel(s: &mut Src, k: &DK, d: &mut SkelData) {
    // parent indices are stored in 16 bits, signed
    let n = long(s, if k.valid { 32767 } else { 65537 });
    let blank = BoneData {
        name: "Trans".into(),
        transform: trs(s),
        parent_index: None,
        billboard_type: variant(s, "BillboardType"),
    };
    // chains of limited depth at both ends of the list
    let depth = s.range(2, 6) as usize;
    let far = s.chance(1, 2);
    repeat(&mut d.bones, n, blank, |i, b| {
        b.name = if i % 5 == 0 { format!("bone{i}") } else { b.name.clone() };
        b.parent_index = if i % depth == 0 { None } else { Some(i - 1) };
        if far && i % depth != 0 && i >= depth {
            // the parent is the matching one of the first chain's
            b.parent_index = Some(i % depth - 1);
        }
    });
    if far {
        d.bones.reverse();
        for b in d.bones.iter_mut() {
            b.parent_index = b.parent_index.map(|p| n - 1 - p);
        }
    }
}

fn large_mesh(s: &mut Src, k: &DK, d: &mut MeshData) {
    let big = |s: &mut Src, o: &mut MeshObjectData, n: usize| {
        let f = |d: &mut Vec<AttributeData>, none: VectorData| {
            for a in d.iter_mut() {
                if a.data.is_empty() {
                    a.data = none.clone();
                }
                let j = |i: usize| (i % 2048) as f32 * 0.125;
                match &mut a.data {
                    VectorData::Vector2(v) => repeat(v, n, [0.0; 2], |i, x| x[0] = j(i)),
                    VectorData::Vector3(v) => repeat(v, n, [0.0; 3], |i, x| x[0] = j(i)),
                    VectorData::Vector4(v) => repeat(v, n, [0.0; 4], |i, x| x[0] = j(i)),
                }
            }
        };
        if o.positions.is_empty() {
            o.positions.push(AttributeData { name: "Position0".into(), data: VectorData::Vector3(Vec::new()) });
        }
        let none = VectorData::Vector3(Vec::new());
        f(&mut o.positions, none.clone());
        f(&mut o.normals, none.clone());
        f(&mut o.binormals, none.clone());
        f(&mut o.tangents, none.clone());
        f(&mut o.texture_coordinates, none.clone());
        f(&mut o.color_sets, none);
        o.vertex_indices = (0..3 * s.range(1, 12)).map(|_| s.usize(n) as u32).collect();
        if s.chance(1, 2) {
            let m = n as u32 - 1;
            o.vertex_indices.extend([m, 0, m - m % 2]);
        }
    };
    let v10 = d.minor_version == 10;
    if d.objects.is_empty() {
        d.objects.push(small_object(s));
    }
    let at = s.usize(d.objects.len());
    match s.below(6) {
        0 => {
            let n = long(s, 70001);
            big(s, &mut d.objects[at], n);
        }
        1 => {
            // many objects
            let n = long(s, 1025);
            d.objects.retain(|o| o.vertex_count().unwrap_or(0) < 100);
            for o in d.objects.iter_mut() {
                o.bone_influences.truncate(2);
                for b in o.bone_influences.iter_mut() {
                    b.vertex_weights.truncate(3);
                }
            }
            let blank = small_object(s);
            let salt = s.below(7) as usize + 1;
            repeat(&mut d.objects, n, blank, |i, o| {
                if i % 3 == 0 {
                    o.name = format!("object{}", i * salt % 1031);
                }
                o.subindex = i as u64;
            });
        }
        2 => {
            // many indices, two big objects
            let n = long(s, 70001);
            big(s, &mut d.objects[at], n);
            let m = 3 * long(s, 131073);
            repeat(&mut d.objects[at].vertex_indices, m, 0, |i, x| *x = (*x + i as u32) % n as u32);
            let mut o = d.objects[at].clone();
            o.subindex = o.subindex.wrapping_add(1000);
            o.vertex_indices.truncate(30);
            let p = s.usize(d.objects.len() + 1);
            d.objects.insert(p, o);
        }
        3 => {
            let n = long(s, 1025);
            let o = &mut d.objects[at];
            let blank = BoneInfluence { bone_name: "b".into(), vertex_weights: vec![VertexWeight { vertex_index: 0, vertex_weight: 0.5 }] };
            let own: Vec<BoneInfluence> = o.bone_influences.clone();
            repeat(&mut o.bone_influences, n, blank, |i, b| {
                b.vertex_weights.truncate(3);
                if i >= own.len() {
                    b.bone_name = format!("bone{i}");
                }
            });
        }
        4 => {
            let n = long(s, 70001);
            let o = &mut d.objects[at];
            let top = if v10 { 65535 } else { u32::MAX };
            let mut weights = Vec::new();
            let x = k.f32(s);
            repeat(&mut weights, n, VertexWeight { vertex_index: 0, vertex_weight: 0.5 }, |i, w| {
                w.vertex_index = (i as u32).wrapping_mul(if i % 2 == 0 { 1 } else { 65599 }) & top;
                w.vertex_weight = if i % 5 == 0 { x } else { i as f32 / 256.0 };
            });
            let b = BoneInfluence { bone_name: "many".into(), vertex_weights: weights };
            let p = s.usize(o.bone_influences.len() + 1);
            o.bone_influences.insert(p, b);
        }
        _ => {
            // many attributes
            let n = long(s, 300);
            let o = &mut d.objects[at];
            if o.vertex_count().unwrap_or(0) > 40 {
                big(s, o, 3);
            }
            let count = match o.vertex_count() {
                Ok(c) => c,
                Err(_) => return,
            };
            let data = vectors(s, k, 1, count, 1);
            let blank = AttributeData { name: "uv".into(), data };
            repeat(&mut o.texture_coordinates, n, blank, |i, a| a.name = format!("uv{i}"));
        }
    }
    if k.valid {
        let mut seen = std::collections::HashSet::new();
        for o in d.objects.iter_mut() {
            while !seen.insert((o.name.clone(), o.subindex)) {
                o.subindex = o.subindex.wrapping_add(1);
            }
        }
    }
}

fn small_object(s: &mut Src) -> MeshObjectData {
    let x = f32_geo(s);
    MeshObjectData {
        name: "blank".into(),
        positions: vec![AttributeData {
            name: "Position0".into(),
            data: VectorData::Vector3(vec![[0.0, x, 1.0], [x, 2.0, -1.0], [0.5, 0.5, x]]),
        }],
        vertex_indices: vec![0, 1, 2],
        ..Default::default()
    }
}

fn large_anim(s: &mut Src, k: &DK, d: &mut AnimData) {
    let blank_track = |s: &mut Src| TrackData {
        name: "Transform".into(),
        compensate_scale: false,
        transform_flags: TransformFlags::default(),
        values: {
            let n = s.range(1, 4) as usize;
            let kind = s.usize(6);
            track_values(s, k, n, kind)
        },
    };
    let t = blank_track(s);
    let node = NodeData { name: "Hip".into(), tracks: vec![t.clone()] };
    let group = GroupData { group_type: variant(s, "GroupType"), nodes: vec![node.clone()] };
    if d.groups.is_empty() {
        d.groups.push(group.clone());
    }
    let g = s.usize(d.groups.len());
    match s.below(4) {
        0 => {
            // many frames
            if d.groups[g].nodes.is_empty() {
                d.groups[g].nodes.push(node);
            }
            let nodes = &mut d.groups[g].nodes;
            let x = s.usize(nodes.len());
            if nodes[x].tracks.is_empty() {
                nodes[x].tracks.push(t);
            }
            let y = s.usize(nodes[x].tracks.len());
            let values = &mut nodes[x].tracks[y].values;
            let n = long(s, 70001);
            if values.is_empty() || s.chance(1, 2) {
                let kind = s.usize(6);
                *values = track_values(s, k, 40, kind);
            }
            let c = s.below(3) == 0;
            let j = |i: usize, v: &mut f32| {
                if !c && i % 3 == 0 {
                    *v = (i % 5000) as f32 * 0.25
                }
            };
            match values {
                TrackValues::Transform(v) => {
                    let b = v[0];
                    repeat(v, n, b, |i, t| j(i, &mut t.translation.y))
                }
                TrackValues::UvTransform(v) => {
                    let b = v[0];
                    repeat(v, n, b, |i, t| j(i, &mut t.translate_u))
                }
                TrackValues::Float(v) => repeat(v, n, 0.0, j),
                TrackValues::PatternIndex(v) => repeat(v, n, 0, |i, t| {
                    if !c {
                        *t = t.wrapping_add(i as u32)
                    }
                }),
                TrackValues::Boolean(v) => repeat(v, n, true, |i, t| {
                    if !c {
                        *t ^= pattern(i) % 2 == 1
                    }
                }),
                TrackValues::Vector4(v) => {
                    let b = v[0];
                    repeat(v, n, b, |i, t| j(i, &mut t.z))
                }
            }
            d.final_frame_index = d.final_frame_index.max(n as f32 - 1.0);
        }
        1 => {
            let n = long(s, 2049);
            repeat(&mut d.groups, n, group, |i, g| {
                g.nodes.truncate(2);
                for n in g.nodes.iter_mut() {
                    n.tracks.truncate(1);
                    n.name = format!("n{}", i % 7);
                }
            })
        }
        2 => {
            let n = long(s, 4097);
            for n in d.groups[g].nodes.iter_mut() {
                n.tracks.truncate(2);
            }
            repeat(&mut d.groups[g].nodes, n, node, |i, n| {
                if i % 3 == 0 {
                    n.name = format!("node{i}");
                }
            })
        }
        _ => {
            let n = long(s, 4097);
            if d.groups[g].nodes.is_empty() {
                d.groups[g].nodes.push(node);
            }
            let nodes = &mut d.groups[g].nodes;
            let x = s.usize(nodes.len());
            repeat(&mut nodes[x].tracks, n, t, |i, t| {
                if i % 3 == 0 {
                    t.name = format!("track{i}");
                }
            })
        }
    }
    let longest = d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0);
    if k.valid {
        d.final_frame_index = d.final_frame_index.max(longest.saturating_sub(1) as f32);
    }
}
