//! T01: materials keep every parameter, texture, sampler and state.
use crate::nd::*;
use ssbh_data::matl_data::*;
use ssbh_lib::formats::matl::{BlendStateV15, BlendStateV16, FilteringType, RasterizerStateV15, RasterizerStateV16, Sampler};
use ssbh_lib::Color4f;

const WRAPS: [WrapMode; 4] = [WrapMode::Repeat, WrapMode::ClampToEdge, WrapMode::MirroredRepeat, WrapMode::ClampToBorder];
const MINS: [MinFilter; 3] = [MinFilter::Nearest, MinFilter::LinearMipmapLinear, MinFilter::LinearMipmapLinear2];
const MAGS: [MagFilter; 3] = [MagFilter::Nearest, MagFilter::Linear, MagFilter::Linear2];
const ANISOTROPIES: [MaxAnisotropy; 5] = [MaxAnisotropy::One, MaxAnisotropy::Two, MaxAnisotropy::Four, MaxAnisotropy::Eight, MaxAnisotropy::Sixteen];
const FILTERS: [FilteringType; 3] = [FilteringType::Default, FilteringType::Default2, FilteringType::AnisotropicFiltering];
const FACTORS: [BlendFactor; 11] = [
    BlendFactor::Zero,
    BlendFactor::One,
    BlendFactor::SourceAlpha,
    BlendFactor::DestinationAlpha,
    BlendFactor::SourceColor,
    BlendFactor::DestinationColor,
    BlendFactor::OneMinusSourceAlpha,
    BlendFactor::OneMinusDestinationAlpha,
    BlendFactor::OneMinusSourceColor,
    BlendFactor::OneMinusDestinationColor,
    BlendFactor::SourceAlphaSaturate,
];
const OPERATIONS: [BlendOperation; 5] =
    [BlendOperation::Add, BlendOperation::Subtract, BlendOperation::ReverseSubtract, BlendOperation::Minimum, BlendOperation::Maximum];
const FILLS: [FillMode; 2] = [FillMode::Line, FillMode::Solid];
const CULLS: [CullMode; 3] = [CullMode::Back, CullMode::Front, CullMode::Disabled];

fn of<T: Copy, const N: usize>(t: [T; N]) -> T {
    t[below(N as u64) as usize]
}
fn float() -> f32 {
    f32::from_bits(any())
}
fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}
fn color() -> Color4f {
    Color4f { r: float(), g: float(), b: float(), a: float() }
}
fn same_color(a: &Color4f, b: &Color4f) -> bool {
    same(a.r, b.r) && same(a.g, b.g) && same(a.b, b.b) && same(a.a, b.a)
}
fn sampler() -> SamplerData {
    SamplerData {
        wraps: of(WRAPS),
        wrapt: of(WRAPS),
        wrapr: of(WRAPS),
        min_filter: of(MINS),
        mag_filter: of(MAGS),
        border_color: color(),
        lod_bias: float(),
        max_anisotropy: of(ANISOTROPIES),
    }
}
fn raw_sampler() -> Sampler {
    Sampler {
        wraps: of(WRAPS),
        wrapt: of(WRAPS),
        wrapr: of(WRAPS),
        min_filter: of(MINS),
        mag_filter: of(MAGS),
        texture_filtering_type: of(FILTERS),
        border_color: color(),
        unk11: any(),
        unk12: any(),
        lod_bias: float(),
        max_anisotropy: of(ANISOTROPIES),
    }
}
fn same_sampler(a: &SamplerData, b: &SamplerData) -> bool {
    a.wraps == b.wraps
        && a.wrapt == b.wrapt
        && a.wrapr == b.wrapr
        && a.min_filter == b.min_filter
        && a.mag_filter == b.mag_filter
        && same_color(&a.border_color, &b.border_color)
        && same(a.lod_bias, b.lod_bias)
        && a.max_anisotropy == b.max_anisotropy
}
/// What a stored sampler means.
fn meaning(r: &Sampler) -> SamplerData {
    SamplerData {
        wraps: r.wraps,
        wrapt: r.wrapt,
        wrapr: r.wrapr,
        min_filter: r.min_filter,
        mag_filter: r.mag_filter,
        border_color: r.border_color,
        lod_bias: r.lod_bias,
        max_anisotropy: if r.texture_filtering_type == FilteringType::AnisotropicFiltering { r.max_anisotropy } else { MaxAnisotropy::One },
    }
}
fn blend() -> BlendStateData {
    BlendStateData {
        source_color: of(FACTORS),
        color_operation: of(OPERATIONS),
        destination_color: of(FACTORS),
        source_alpha: of(FACTORS),
        alpha_operation: of(OPERATIONS),
        destination_alpha: of(FACTORS),
        alpha_sample_to_coverage: any(),
    }
}
fn raw_blend() -> BlendStateV16 {
    BlendStateV16 {
        source_color: of(FACTORS),
        color_operation: of(OPERATIONS),
        destination_color: of(FACTORS),
        source_alpha: of(FACTORS),
        alpha_operation: of(OPERATIONS),
        destination_alpha: of(FACTORS),
        alpha_sample_to_coverage: any(),
        unk8: any(),
        unk9: any(),
        unk10: any(),
    }
}
fn raw_blend_v15() -> BlendStateV15 {
    BlendStateV15 {
        source_color: of(FACTORS),
        color_operation: of(OPERATIONS),
        destination_color: of(FACTORS),
        source_alpha: of(FACTORS),
        alpha_operation: of(OPERATIONS),
        destination_alpha: of(FACTORS),
        unk6: any(),
        unk7: any(),
        unk8: any(),
        unk9: any(),
    }
}
macro_rules! blend_is {
    ($d:expr, $r:expr, $coverage:expr) => {
        $d.source_color == $r.source_color
            && $d.color_operation == $r.color_operation
            && $d.destination_color == $r.destination_color
            && $d.source_alpha == $r.source_alpha
            && $d.alpha_operation == $r.alpha_operation
            && $d.destination_alpha == $r.destination_alpha
            && $d.alpha_sample_to_coverage == $coverage
    };
}
fn raster() -> RasterizerStateData {
    RasterizerStateData { fill_mode: of(FILLS), cull_mode: of(CULLS), depth_bias: float() }
}
fn same_raster(a: &RasterizerStateData, b: &RasterizerStateData) -> bool {
    a.fill_mode == b.fill_mode && a.cull_mode == b.cull_mode && same(a.depth_bias, b.depth_bias)
}
fn raw_raster() -> RasterizerStateV16 {
    RasterizerStateV16 { fill_mode: of(FILLS), cull_mode: of(CULLS), depth_bias: float(), unk4: float(), unk5: float(), unk6: any() }
}

#[cfg(not(kani))]
pub mod entries {
    pub use super::*;
    pub use ssbh_lib::formats::matl::*;
    pub use ssbh_lib::prelude::Matl;
    pub use ssbh_lib::{RelPtr64, SsbhEnum64, SsbhString, Vector4};
    use std::io::Cursor;

    pub fn id() -> ParamId {
        use binrw::BinRead;
        loop {
            let x = below(366);
            if let Ok(p) = ParamId::read_le(&mut Cursor::new(x.to_le_bytes())) {
                return p;
            }
        }
    }
    pub fn vector() -> Vector4 {
        Vector4 { x: float(), y: float(), z: float(), w: float() }
    }
    pub fn uv() -> UvTransform {
        UvTransform { scale_u: float(), scale_v: float(), rotation: float(), translate_u: float(), translate_v: float() }
    }
    pub use crate::nd::text;
    pub fn list<T>(f: impl Fn() -> T) -> Vec<ParamData<T>> {
        (0..below(4)).map(|_| ParamData::new(id(), f())).collect()
    }
    pub fn entry() -> MatlEntryData {
        MatlEntryData {
            material_label: text(),
            shader_label: text(),
            blend_states: list(blend),
            floats: list(float),
            booleans: list(any),
            vectors: list(vector),
            rasterizer_states: list(raster),
            samplers: list(sampler),
            textures: list(text),
            uv_transforms: list(uv),
        }
    }
    pub fn kept<T, U>(what: &str, a: &[ParamData<T>], b: &[ParamData<U>], eq: impl Fn(&T, &U) -> bool) {
        assert!(a.len() == b.len(), "{} {what} become {}", a.len(), b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            assert!(x.param_id == y.param_id && eq(&x.data, &y.data), "{what} {i} ({:?}, {:?}) changed", x.param_id, y.param_id);
        }
    }
    pub fn same_vector(a: &Vector4, b: &Vector4) -> bool {
        same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.w, b.w)
    }
    pub fn same_uv(a: &UvTransform, b: &UvTransform) -> bool {
        same(a.scale_u, b.scale_u)
            && same(a.scale_v, b.scale_v)
            && same(a.rotation, b.rotation)
            && same(a.translate_u, b.translate_u)
            && same(a.translate_v, b.translate_v)
    }
    pub fn same_entry(a: &MatlEntryData, b: &MatlEntryData) {
        assert!(a.material_label == b.material_label && a.shader_label == b.shader_label, "labels changed: {a:?} becomes {b:?}");
        kept("blend states", &a.blend_states, &b.blend_states, |x, y| x == y);
        kept("floats", &a.floats, &b.floats, |x, y| same(*x, *y));
        kept("booleans", &a.booleans, &b.booleans, |x, y| x == y);
        kept("vectors", &a.vectors, &b.vectors, same_vector);
        kept("rasterizer states", &a.rasterizer_states, &b.rasterizer_states, same_raster);
        kept("samplers", &a.samplers, &b.samplers, same_sampler);
        kept("textures", &a.textures, &b.textures, |x, y| x == y);
        kept("UV transforms", &a.uv_transforms, &b.uv_transforms, same_uv);
    }
    pub fn through(m: &Matl) -> Matl {
        let mut w = Cursor::new(Vec::new());
        m.write(&mut w).unwrap();
        Matl::read(&mut Cursor::new(w.into_inner())).unwrap_or_else(|e| panic!("{m:?}: {e}"))
    }
    /// An entry of either version with parameters of all kinds in any order, and what it means.
    macro_rules! raw_entry {
        ($name:ident, $entry:ident, $attribute:ident, $param:ident, $blend:expr, $coverage:expr, $raster:expr, $meaning:expr) => {
            pub fn $name() -> ($entry, MatlEntryData) {
                let (m, s) = (text(), text());
                let mut d = MatlEntryData {
                    material_label: m.clone(),
                    shader_label: s.clone(),
                    blend_states: vec![],
                    floats: vec![],
                    booleans: vec![],
                    vectors: vec![],
                    rasterizer_states: vec![],
                    samplers: vec![],
                    textures: vec![],
                    uv_transforms: vec![],
                };
                let mut v = Vec::new();
                for _ in 0..below(9) {
                    let id = id();
                    let p = match below(9) {
                        0 => {
                            let x = float();
                            d.floats.push(ParamData::new(id, x));
                            $param::Float(x)
                        }
                        1 => {
                            let x: u32 = any();
                            d.booleans.push(ParamData::new(id, x != 0));
                            $param::Boolean(x)
                        }
                        2 => {
                            let x = vector();
                            d.vectors.push(ParamData::new(id, x));
                            $param::Vector4(x)
                        }
                        3 => $param::Unk7(color()),
                        4 => {
                            let x = text();
                            d.textures.push(ParamData::new(id, x.clone()));
                            $param::String(SsbhString::from(x.as_str()))
                        }
                        5 => {
                            let x = raw_sampler();
                            d.samplers.push(ParamData::new(id, meaning(&x)));
                            $param::Sampler(x)
                        }
                        6 => {
                            let x = uv();
                            d.uv_transforms.push(ParamData::new(id, x.clone()));
                            $param::UvTransform(x)
                        }
                        7 => {
                            let x = $blend;
                            d.blend_states.push(ParamData::new(
                                id,
                                BlendStateData {
                                    source_color: x.source_color,
                                    color_operation: x.color_operation,
                                    destination_color: x.destination_color,
                                    source_alpha: x.source_alpha,
                                    alpha_operation: x.alpha_operation,
                                    destination_alpha: x.destination_alpha,
                                    alpha_sample_to_coverage: $coverage(&x),
                                },
                            ));
                            $param::BlendState(x)
                        }
                        _ => {
                            let x = $raster;
                            d.rasterizer_states.push(ParamData::new(id, $meaning(&x)));
                            $param::RasterizerState(x)
                        }
                    };
                    v.push($attribute { param_id: id, param: SsbhEnum64 { data: RelPtr64::new(p) } });
                }
                ($entry { material_label: m.as_str().into(), attributes: v.into(), shader_label: s.as_str().into() }, d)
            }
        };
    }
    raw_entry!(entry_v16, MatlEntryV16, AttributeV16, ParamV16, raw_blend(), |x: &BlendStateV16| x.alpha_sample_to_coverage != 0, raw_raster(), |x: &RasterizerStateV16| {
        RasterizerStateData { fill_mode: x.fill_mode, cull_mode: x.cull_mode, depth_bias: x.depth_bias }
    });
    raw_entry!(entry_v15, MatlEntryV15, AttributeV15, ParamV15, raw_blend_v15(), |_: &BlendStateV15| false, RasterizerStateV15 { cull_mode: of(CULLS) }, |x: &RasterizerStateV15| {
        RasterizerStateData { fill_mode: FillMode::Solid, cull_mode: x.cull_mode, depth_bias: 0.0 }
    });
}

contracts! { kani {
    /// Every sampler comes back from its stored form, bit for bit.
    fn p_sampler() {
        let s = sampler();
        let r = Sampler::from(&s);
        assert!(same_sampler(&SamplerData::from(&r), &s));
        assert!(same_sampler(&SamplerData::from(Sampler::from(s)), &meaning(&r)));
        reach!(r.texture_filtering_type == FilteringType::AnisotropicFiltering, "anisotropic");
    }
    /// Every stored sampler means its fields; anisotropy counts only with anisotropic filtering, and storing it again does not change the meaning.
    fn p_sampler_read() {
        let r = raw_sampler();
        let s = SamplerData::from(&r);
        assert!(same_sampler(&s, &meaning(&r)));
        let again = Sampler::from(&s);
        assert!(same_sampler(&SamplerData::from(&again), &s));
        assert!((again.texture_filtering_type == FilteringType::AnisotropicFiltering) == (s.max_anisotropy != MaxAnisotropy::One));
    }
    /// Every blend state comes back from its version 1.6 form, and that form holds its fields.
    fn p_blend() {
        let b = blend();
        let r = BlendStateV16::from(&b);
        assert!(blend_is!(b, r, (r.alpha_sample_to_coverage != 0)));
        assert!(BlendStateData::from(r) == b);
    }
    /// Every stored blend state of either version means its fields.
    fn p_blend_read() {
        let r = raw_blend();
        assert!(blend_is!(BlendStateData::from(&r), r, (r.alpha_sample_to_coverage != 0)));
        let r = raw_blend_v15();
        assert!(blend_is!(BlendStateData::from(&r), r, false));
    }
    /// Every rasterizer state comes back from its version 1.6 form, and that form holds its fields.
    fn p_rasterizer() {
        let s = raster();
        let r = RasterizerStateV16::from(&s);
        assert!(r.fill_mode == s.fill_mode && r.cull_mode == s.cull_mode && same(r.depth_bias, s.depth_bias));
        assert!(same_raster(&RasterizerStateData::from(r), &s));
    }
    /// Every stored rasterizer state of either version means its fields.
    fn p_rasterizer_read() {
        let r = raw_raster();
        let s = RasterizerStateData::from(&r);
        assert!(r.fill_mode == s.fill_mode && r.cull_mode == s.cull_mode && same(r.depth_bias, s.depth_bias));
        let c = of(CULLS);
        let s = RasterizerStateData::from(&RasterizerStateV15 { cull_mode: c });
        assert!(s.cull_mode == c && s.fill_mode == FillMode::Solid && s.depth_bias == 0.0);
        assert!(RasterizerStateV15::from(&s).cull_mode == c);
    }
} native {
    /// [bounded: up to 4 materials with up to 3 parameters of each kind] every entry, parameter, identifier and value comes back from the file.
    fn n_roundtrip() {
        use entries::*;
        let d = MatlData { major_version: 1, minor_version: 6, entries: (0..below(5)).map(|_| entry()).collect() };
        let m = Matl::try_from(&d).unwrap();
        if let Matl::V16 { entries } = &m {
            for (e, x) in entries.elements.iter().zip(&d.entries) {
                let n = x.blend_states.len() + x.floats.len() + x.booleans.len() + x.vectors.len() + x.rasterizer_states.len() + x.samplers.len() + x.textures.len() + x.uv_transforms.len();
                assert!(e.attributes.elements.len() == n, "{n} parameters become {} attributes", e.attributes.elements.len());
            }
        }
        let b = MatlData::try_from(&through(&m)).unwrap();
        assert!(b.major_version == 1 && b.minor_version == 6, "version 1.6 becomes {}.{}", b.major_version, b.minor_version);
        assert!(b.entries.len() == d.entries.len(), "{} entries become {}", d.entries.len(), b.entries.len());
        for (x, y) in d.entries.iter().zip(&b.entries) {
            same_entry(x, y);
        }
    }
    /// [bounded: up to 3 stored materials of up to 8 parameters of any kinds in any order] reading either version gives each kind's parameters with their meaning in their order.
    fn n_read() {
        use entries::*;
        let n = below(4);
        let old: bool = any();
        let (m, want): (Matl, Vec<MatlEntryData>) = if old {
            let (e, d): (Vec<_>, Vec<_>) = (0..n).map(|_| entry_v15()).unzip();
            (Matl::V15 { entries: e.into() }, d)
        } else {
            let (e, d): (Vec<_>, Vec<_>) = (0..n).map(|_| entry_v16()).unzip();
            (Matl::V16 { entries: e.into() }, d)
        };
        let b = MatlData::try_from(&through(&m)).unwrap();
        assert!((b.major_version, b.minor_version) == (1, if old { 5 } else { 6 }), "wrong version {}.{}", b.major_version, b.minor_version);
        assert!(b.entries.len() == want.len(), "{} entries become {}", want.len(), b.entries.len());
        for (x, y) in want.iter().zip(&b.entries) {
            same_entry(x, y);
        }
    }
    /// [bounded: generated version numbers] exactly version 1.6 can be written; no other version is silently changed to it.
    fn n_version() {
        use entries::*;
        let d = MatlData { major_version: if any() { 1 } else { any() }, minor_version: if any() { 4 + below(5) as u16 } else { any() }, entries: (0..below(2)).map(|_| entry()).collect() };
        let v = (d.major_version, d.minor_version);
        match Matl::try_from(&d) {
            Ok(m) => {
                let b = MatlData::try_from(&through(&m)).unwrap();
                assert!((b.major_version, b.minor_version) == v, "version {v:?} becomes {:?}", (b.major_version, b.minor_version));
                assert!(v == (1, 5) || v == (1, 6), "version {v:?} is written");
            }
            Err(_) => assert!(v != (1, 6), "version 1.6 is rejected"),
        }
    }
    /// [bounded: around 256 or around 65536 materials, or parameters of one kind] nothing is lost or moved in large files.
    /// @cases=60 @ms=8000
    fn n_long() {
        use entries::*;
        let wide: bool = any();
        let n = if wide { 65530 + below(12) as usize } else { 250 + below(400) as usize };
        let empty = || MatlEntryData {
            material_label: text(), shader_label: text(), blend_states: Vec::new(), floats: Vec::new(), booleans: Vec::new(), vectors: Vec::new(),
            rasterizer_states: Vec::new(), samplers: Vec::new(), textures: Vec::new(), uv_transforms: Vec::new(),
        };
        let mut e = empty();
        let entries = match below(9) {
            0 => (0..n).map(|i| MatlEntryData { material_label: i.to_string(), shader_label: String::new(), ..empty() }).collect(),
            k => {
                let id = id();
                match k {
                    1 => e.blend_states = (0..n).map(|i| ParamData::new(id, BlendStateData { alpha_sample_to_coverage: i % 3 == 0, ..Default::default() })).collect(),
                    2 => e.floats = (0..n).map(|i| ParamData::new(id, i as f32)).collect(),
                    3 => e.booleans = (0..n).map(|i| ParamData::new(id, i % 3 == 0)).collect(),
                    4 => e.vectors = (0..n).map(|i| ParamData::new(id, Vector4 { x: i as f32, y: 0.0, z: 1.0, w: 2.0 })).collect(),
                    5 => e.rasterizer_states = (0..n).map(|i| ParamData::new(id, RasterizerStateData { depth_bias: i as f32, ..Default::default() })).collect(),
                    6 => e.samplers = (0..n).map(|i| ParamData::new(id, SamplerData { lod_bias: i as f32, ..Default::default() })).collect(),
                    7 => e.textures = (0..n).map(|i| ParamData::new(id, i.to_string())).collect(),
                    _ => e.uv_transforms = (0..n).map(|i| ParamData::new(id, UvTransform { scale_u: i as f32, scale_v: 1.0, rotation: 0.0, translate_u: 0.0, translate_v: 0.0 })).collect(),
                }
                vec![e, entry()]
            }
        };
        let d = MatlData { major_version: 1, minor_version: 6, entries };
        let b = MatlData::try_from(&through(&Matl::try_from(&d).unwrap())).unwrap();
        assert!(b.entries.len() == d.entries.len(), "{} entries become {}", d.entries.len(), b.entries.len());
        for (x, y) in d.entries.iter().zip(&b.entries) {
            same_entry(x, y);
        }
    }
} }
