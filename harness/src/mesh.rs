//! Mesh observers for the bounded (native) contracts of M01 to M05.
use crate::nd::*;
use ssbh_data::mesh_data::*;
use ssbh_lib::formats::mesh::*;
use ssbh_lib::prelude::Mesh;
use std::io::Cursor;

pub const VERSIONS: [(u16, u16); 3] = [(1, 8), (1, 9), (1, 10)];

/// A finite component of ordinary size.
pub fn value() -> f32 {
    match below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => 0.5,
        4 => -0.0,
        5 => below(1 << 17) as f32 - 65536.0,
        6 | 7 => (below(1 << 20) as f32 - (1 << 19) as f32) / 1024.0,
        _ => (below(1 << 24) as f32 - (1 << 23) as f32) / (1 << 23) as f32,
    }
}
/// Any finite component.
pub fn finite() -> f32 {
    if below(4) > 0 {
        return value();
    }
    let f = f32::from_bits(any());
    if f.is_finite() {
        f
    } else {
        1.0
    }
}

pub use crate::nd::text as name;

pub fn vectors(dims: u64, n: usize, f: &dyn Fn() -> f32) -> VectorData {
    match dims {
        2 => VectorData::Vector2((0..n).map(|_| [f(), f()]).collect()),
        3 => VectorData::Vector3((0..n).map(|_| [f(), f(), f()]).collect()),
        _ => VectorData::Vector4((0..n).map(|_| [f(), f(), f(), f()]).collect()),
    }
}

pub fn attributes(max: u64, n: usize) -> Vec<AttributeData> {
    (0..below(max + 1)).map(|_| AttributeData { name: name(), data: vectors(2 + below(3), n, &finite) }).collect()
}

/// An object that can be stored. `n` vertices.
pub fn object(name: String, subindex: u64, n: usize) -> MeshObjectData {
    let mut o = MeshObjectData {
        name,
        subindex,
        parent_bone_name: self::name(),
        sort_bias: any(),
        disable_depth_write: any(),
        disable_depth_test: any(),
        vertex_indices: Vec::new(),
        positions: attributes(2, n),
        normals: attributes(2, n),
        binormals: attributes(2, n),
        tangents: attributes(2, n),
        texture_coordinates: attributes(3, n),
        color_sets: attributes(3, n),
        bone_influences: Vec::new(),
    };
    if o.vertex_count().unwrap() > 0 {
        o.vertex_indices = (0..3 * below(8)).map(|_| below(n as u64) as u32).collect();
    }
    o
}

pub fn objects(max: u64, n: u64) -> Vec<MeshObjectData> {
    let names = ["a", "b", "a_b", "B", ""];
    let mut v: Vec<MeshObjectData> = Vec::new();
    for i in 0..below(max + 1) {
        let nm = names[below(5) as usize].to_string();
        let mut s = [0, 1, 5, u64::MAX - 7, 1 << 32][below(5) as usize];
        while v.iter().any(|o| o.name == nm && o.subindex == s) {
            s = 100 + i;
        }
        v.push(object(nm, s, below(n + 1) as usize));
    }
    v
}

pub fn influences(o: &mut MeshObjectData) {
    let n = o.vertex_count().unwrap() as u64 + 3;
    let bones = ["Hip", "Arm", "Leg", "", "Hip"];
    o.bone_influences = (0..below(6))
        .map(|_| BoneInfluence {
            bone_name: bones[below(5) as usize].into(),
            vertex_weights: (0..below(7)).map(|_| VertexWeight { vertex_index: below(n) as u32, vertex_weight: f32::from_bits(any()) }).collect(),
        })
        .collect();
}

pub fn data(minor: u16, objects: Vec<MeshObjectData>) -> MeshData {
    MeshData { major_version: 1, minor_version: minor, objects }
}

/// The mesh as a file in memory, and what is read from it.
pub fn through(d: &MeshData) -> (Mesh, MeshData) {
    let m: Mesh = d.try_into().unwrap_or_else(|e: error::Error| panic!("{d:?}: {e}"));
    let mut w = Cursor::new(Vec::new());
    m.write(&mut w).unwrap();
    let f = w.into_inner();
    let m2 = Mesh::read(&mut Cursor::new(&f)).unwrap_or_else(|e| panic!("{d:?}: {e}"));
    let b = MeshData::try_from(&m2).unwrap_or_else(|e| panic!("{d:?}: {e}"));
    (m, b)
}

/// Whether `got` is the nearest value of the format to `want`.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Format {
    Float,
    Half,
    Byte,
}

/// The exact value of a half precision number; infinities are placed where the next binade starts.
pub fn half_value(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let (e, m) = ((h >> 10) & 31, (h & 1023) as f64);
    s * if e == 0 {
        m * 2f64.powi(-24)
    } else if e == 31 {
        65536.0
    } else {
        (1024.0 + m) * 2f64.powi(e as i32 - 25)
    }
}

pub fn is_nearest(want: f32, got: f32, f: Format) -> bool {
    match f {
        Format::Float => want.to_bits() == got.to_bits() || want.is_nan() && got.is_nan(),
        Format::Byte => {
            let c = if want.is_nan() { return true } else { want.clamp(0.0, 1.0) as f64 * 255.0 };
            (0..256).any(|b| got == b as f32 / 255.0 && (b as f64 - c).abs() <= 0.5 + 1e-4)
        }
        Format::Half => {
            if want.is_nan() {
                return got.is_nan();
            }
            if got.is_nan() {
                return false;
            }
            // `got` must be one of the 65536 values, and neither neighbour may be nearer.
            let (mut lo, mut hi) = (0u16, 0x7c00u16);
            while lo < hi {
                let mid = (lo + hi) / 2;
                if half_value(mid) < (got as f64).abs() {
                    lo = mid + 1;
                } else {
                    hi = mid;
                }
            }
            let code = lo;
            if (code == 0x7c00) != got.is_infinite() || code != 0x7c00 && half_value(code) != (got as f64).abs() {
                return false;
            }
            let w = (want as f64).abs().min(70000.0);
            let d = (half_value(code) - w).abs();
            let zero = code == 0 && want.abs() < 1e-7;
            (zero || want.is_sign_negative() == got.is_sign_negative())
                && (code == 0 || d <= (half_value(code - 1) - w).abs())
                && (code == 0x7c00 || d <= (half_value(code + 1) - w).abs())
        }
    }
}

/// The documented storage format of an attribute.
pub fn format_of(minor: u16, kind: usize, dims: usize) -> Format {
    match (kind, dims, minor) {
        (0, _, _) => Format::Float,
        (_, 3, _) => Format::Float,
        (_, 2, 10) => Format::Half,
        (_, 2, _) => Format::Float,
        (5, _, _) => Format::Byte,
        _ => Format::Half,
    }
}

pub fn flat(d: &VectorData) -> (usize, Vec<f32>) {
    match d {
        VectorData::Vector2(v) => (2, v.iter().flatten().copied().collect()),
        VectorData::Vector3(v) => (3, v.iter().flatten().copied().collect()),
        VectorData::Vector4(v) => (4, v.iter().flatten().copied().collect()),
    }
}

pub fn same_vectors(a: &VectorData, b: &VectorData, f: Format) -> Result<(), String> {
    let ((d, x), (e, y)) = (flat(a), flat(b));
    if d != e || x.len() != y.len() {
        return Err(format!("{} vectors of {d} components become {} of {e}", a.len(), b.len()));
    }
    for i in 0..x.len() {
        if !is_nearest(x[i], y[i], f) {
            return Err(format!("component {} of vector {}: {:?} becomes {:?} in {f:?} format", i % d, i / d, x[i], y[i]));
        }
    }
    Ok(())
}

pub fn kinds(o: &MeshObjectData) -> [&Vec<AttributeData>; 6] {
    [&o.positions, &o.normals, &o.binormals, &o.tangents, &o.texture_coordinates, &o.color_sets]
}

/// What the conversion must keep of one object. Version 1.8 stores neither names nor binormals.
pub fn same_object(minor: u16, a: &MeshObjectData, b: &MeshObjectData) -> Result<(), String> {
    let flags = |o: &MeshObjectData| (o.name.clone(), o.subindex, o.parent_bone_name.clone(), o.sort_bias, o.disable_depth_write, o.disable_depth_test);
    if flags(a) != flags(b) {
        return Err(format!("{:?} becomes {:?}", flags(a), flags(b)));
    }
    let v8 = ["Position", "Normal", "", "Tangent", "TextureCoordinate", "colorSet"];
    for (k, (x, y)) in kinds(a).iter().zip(kinds(b)).enumerate() {
        if minor == 8 && k == 2 {
            if !y.is_empty() {
                return Err("binormals".into());
            }
            continue;
        }
        if x.len() != y.len() {
            return Err(format!("{} attributes of kind {k} become {}", x.len(), y.len()));
        }
        for (i, (x, y)) in x.iter().zip(y.iter()).enumerate() {
            let want = if minor == 8 { format!("{}{i}", v8[k]) } else { x.name.clone() };
            if want != y.name {
                return Err(format!("attribute {want:?} is called {:?}", y.name));
            }
            same_vectors(&x.data, &y.data, format_of(minor, k, flat(&x.data).0)).map_err(|e| format!("{want:?} (kind {k}): {e}"))?;
        }
    }
    Ok(())
}

pub fn size_v10(t: AttributeDataTypeV10) -> usize {
    match t {
        AttributeDataTypeV10::Float2 => 8,
        AttributeDataTypeV10::Float3 => 12,
        AttributeDataTypeV10::Float4 => 16,
        AttributeDataTypeV10::HalfFloat2 => 4,
        AttributeDataTypeV10::HalfFloat4 => 8,
        AttributeDataTypeV10::Byte4 => 4,
    }
}
pub fn size_v8(t: AttributeDataTypeV8) -> usize {
    match t {
        AttributeDataTypeV8::Float2 => 8,
        AttributeDataTypeV8::Float3 => 12,
        AttributeDataTypeV8::Float4 => 16,
        AttributeDataTypeV8::HalfFloat4 => 8,
        AttributeDataTypeV8::Byte4 => 4,
    }
}

/// What is stored of one object.
pub struct Stored {
    pub count: usize,
    pub offsets: [usize; 4],
    pub strides: [usize; 4],
    /// buffer, offset in the stride, size
    pub attributes: Vec<(usize, usize, usize)>,
    pub index_count: usize,
    pub index_offset: usize,
    pub index_size: usize,
    pub bounds: BoundingInfo,
    pub skinned: u32,
}
pub struct StoredMesh {
    pub objects: Vec<Stored>,
    pub buffers: Vec<usize>,
    pub sizes: Vec<u32>,
    pub index_buffer: usize,
    pub index_size: u64,
    pub bounds: BoundingInfo,
    /// object name, subindex, largest influence count
    pub groups: Vec<(String, u64, u8)>,
}

pub fn stored(m: &Mesh) -> StoredMesh {
    macro_rules! of {
        ($m:expr, $size:expr) => {
            StoredMesh {
                objects: $m
                    .objects
                    .elements
                    .iter()
                    .map(|o| Stored {
                        count: o.vertex_count as usize,
                        offsets: [o.vertex_buffer0_offset, o.vertex_buffer1_offset, o.vertex_buffer2_offset, o.vertex_buffer3_offset].map(|x| x as usize),
                        strides: [o.stride0, o.stride1, o.stride2, o.stride3].map(|x| x as usize),
                        attributes: o.attributes.elements.iter().map(|a| (a.buffer_index as usize, a.buffer_offset as usize, $size(a.data_type))).collect(),
                        index_count: o.vertex_index_count as usize,
                        index_offset: o.index_buffer_offset as usize,
                        index_size: if o.draw_element_type == DrawElementType::UnsignedInt { 4 } else { 2 },
                        bounds: o.bounding_info,
                        skinned: o.use_vertex_skinning,
                    })
                    .collect(),
                buffers: $m.vertex_buffers.elements.iter().map(|b| b.elements.len()).collect(),
                sizes: $m.buffer_sizes.elements.clone(),
                index_buffer: $m.index_buffer.elements.len(),
                index_size: $m.polygon_index_size,
                bounds: $m.bounding_info,
                groups: $m.rigging_buffers.elements.iter().map(|g| (g.mesh_object_name.to_string_lossy(), g.mesh_object_subindex, g.flags.max_influences)).collect(),
            }
        };
    }
    match m {
        Mesh::V8(m) => of!(m, size_v8),
        Mesh::V9(m) => of!(m, size_v8),
        Mesh::V10(m) => of!(m, size_v10),
    }
}

pub fn disjoint(mut r: Vec<(usize, usize)>, len: usize, what: &str) {
    r.retain(|(a, b)| a < b);
    r.sort();
    for w in r.windows(2) {
        assert!(w[0].1 <= w[1].0, "{what}: {:?} and {:?} overlap", w[0], w[1]);
    }
    if let Some((_, b)) = r.last() {
        assert!(*b <= len, "{what}: {b} lies outside of {len} bytes");
    }
}

/// Every object has its own part of every buffer, every attribute its own part of the stride.
pub fn layout(m: &Mesh) {
    let s = stored(m);
    assert!(s.sizes.len() >= 4 && s.sizes.len() == s.buffers.len().max(4), "buffer sizes");
    for (i, n) in s.buffers.iter().enumerate() {
        assert!(s.sizes[i] as usize == *n, "buffer {i} of {n} bytes is declared with {}", s.sizes[i]);
        let r = s.objects.iter().map(|o| (o.offsets[i], o.offsets[i] + o.strides[i] * o.count)).collect();
        disjoint(r, *n, "vertex buffer");
    }
    for o in &s.objects {
        for b in 0..4 {
            let r = o.attributes.iter().filter(|a| a.0 == b).map(|a| (a.1, a.1 + a.2)).collect();
            disjoint(r, o.strides[b], "vertex");
        }
        assert!(o.attributes.iter().all(|a| a.0 < s.buffers.len()));
    }
    let r = s.objects.iter().map(|o| (o.index_offset, o.index_offset + o.index_size * o.index_count)).collect();
    disjoint(r, s.index_buffer, "index buffer");
    assert!(s.index_size as usize == s.index_buffer, "index buffer size");
}
