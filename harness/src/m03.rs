//! M03: vertex indices are kept exactly and inconsistent meshes are rejected.
use crate::nd::*;
#[cfg(feature = "hooks")]
use ssbh_data::mesh_data::verif_hooks::*;
#[cfg(feature = "hooks")]
use ssbh_lib::formats::mesh::*;
#[cfg(feature = "hooks")]
use std::io::Cursor;

#[cfg(feature = "hooks")]
#[path = "m03_object.rs"]
mod o;
#[cfg(feature = "hooks")]
use o::object;

#[cfg(all(kani, feature = "hooks"))]
mod ghost {
    use super::*;
    use ssbh_data::mesh_data::{AttributeData, MeshObjectData, VectorData, error::Error};
    use ssbh_lib::{Vector3, Matrix3x3, SsbhArray};
    pub fn points(_: &VectorData) -> Vec<glam::Vec3A> { Vec::new() }
    pub fn bounds(_: &[glam::Vec3A]) -> BoundingInfo {
        object().bounding_info
    }
    /// A list of any length whose elements are not looked at.
    pub fn vec<T>(n: usize) -> Vec<T> {
        unsafe { Vec::from_raw_parts(std::ptr::NonNull::<T>::dangling().as_ptr(), n, n) }
    }
    pub struct Buffers { pub at: [u64; 4], pub index: u64, pub strides: [u32; 4], pub bias: i32, pub write: bool, pub test: bool, pub subindex: u64 }
    pub struct Run { pub object: Result<MeshObject<AttributeV10>, Error>, pub index: Cursor<Vec<u8>>, pub offset2: u64 }
    pub fn buffers(index: u64) -> Buffers {
        let at: [u32; 4] = any();
        Buffers { at: [at[0] as u64, at[1] as u64, at[2] as u64, at[3] as u64], index, strides: any(), bias: any(), write: any(), test: any(), subindex: any() }
    }
    pub fn run(ix: Vec<u32>, n: usize, b: &Buffers) -> Run {
        let mut d = MeshObjectData::default();
        d.vertex_indices = ix;
        d.subindex = b.subindex;
        d.sort_bias = b.bias;
        d.disable_depth_write = b.write;
        d.disable_depth_test = b.test;
        d.positions = vec![AttributeData { name: String::new(), data: VectorData::Vector2(vec(n)) }];
        let mut c = [Cursor::new(Vec::new()), Cursor::new(Vec::new()), Cursor::new(Vec::new()), Cursor::new(Vec::new())];
        for i in 0..4 { c[i].set_position(b.at[i]); }
        let [c0, c1, c2, c3] = &mut c;
        let mut index = Cursor::new(Vec::with_capacity(20));
        index.set_position(b.index);
        let mut offset2 = b.at[2];
        let none = || VersionedVectorData::V10(Vec::new());
        let attributes = MeshAttributes {
            buffer_info: [(b.strides[0], none()), (b.strides[1], none()), (b.strides[2], none()), (b.strides[3], none())],
            attributes: SsbhArray::new(),
            use_buffer2: false,
        };
        let object = object_v10(&d, &mut [c0, c1, c2, c3], &mut offset2, &mut index, attributes);
        leak(d);
        leak(c);
        Run { object, index, offset2 }
    }
    pub fn counted() -> (MeshObjectData, [u32; 6]) {
        let n: [u32; 6] = any();
        let mut d = MeshObjectData::default();
        let a = |d| vec![AttributeData { name: String::new(), data: d }];
        d.positions = a(VectorData::Vector3(vec(n[0] as usize)));
        d.normals = a(VectorData::Vector4(vec(n[1] as usize)));
        d.binormals = a(VectorData::Vector3(vec(n[2] as usize)));
        d.tangents = a(VectorData::Vector4(vec(n[3] as usize)));
        d.texture_coordinates = a(VectorData::Vector2(vec(n[4] as usize)));
        d.color_sets = a(VectorData::Vector4(vec(n[5] as usize)));
        (d, n)
    }
    pub fn check(o: &MeshObject<AttributeV10>, b: &Buffers, n: u32, indices: u32) {
        assert!(o.vertex_count == n && o.vertex_index_count == indices && o.subindex == b.subindex);
        let at = [o.vertex_buffer0_offset, o.vertex_buffer1_offset, o.vertex_buffer2_offset, o.vertex_buffer3_offset];
        let i = below(4) as usize;
        assert!(at[i] as u64 == b.at[i]);
        let s = [o.stride0, o.stride1, 0, o.stride3];
        assert!(i == 2 || s[i] == b.strides[i]);
        assert!(o.index_buffer_offset as u64 == b.index);
        assert!(o.sort_bias == b.bias && (o.depth_flags.disable_depth_write != 0) == b.write && (o.depth_flags.disable_depth_test != 0) == b.test);
        assert!(o.use_vertex_skinning == 0);
    }
}

contracts! { kani {
    /// [bounded: 3 indices] whatever their values, indices are stored in 16 bits exactly if all of them fit, after what the buffer holds, and read back as they were.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(8))]
    fn p_written() {
        let ix: [u32; 3] = any();
        let mut c = Cursor::new(Vec::with_capacity(20));
        c.get_mut().extend_from_slice(&[0xee; 4]);
        c.set_position(4);
        let t = write_indices(&ix, &mut c).unwrap();
        let wide = ix[0] > 0xffff || ix[1] > 0xffff || ix[2] > 0xffff;
        assert!((t == DrawElementType::UnsignedInt) == wide);
        assert!(c.position() == if wide { 16 } else { 10 });
        let b = c.into_inner();
        assert!(b.len() == if wide { 16 } else { 10 });
        assert!(b[0] == 0xee && b[1] == 0xee && b[2] == 0xee && b[3] == 0xee);
        let (i, k) = (below(3) as usize, below(4) as usize);
        if wide {
            assert!(b[4 + 4 * i + k] == (ix[i] >> (8 * k)) as u8);
        } else if k < 2 {
            assert!(b[4 + 2 * i + k] == (ix[i] >> (8 * k)) as u8);
        }
        reach!(wide, "wide");
        reach!(!wide, "narrow");
        leak(b);
    }
    /// [bounded: 3 indices in a buffer of 16 bytes] whatever the buffer, an object's indices are those of its type at its own offset, or an error if the buffer ends before them.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(8))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_read() {
        let b: [u8; 16] = any();
        let mut o = object();
        o.vertex_index_count = 3;
        o.index_buffer_offset = any();
        let wide: bool = any();
        o.draw_element_type = if wide { DrawElementType::UnsignedInt } else { DrawElementType::UnsignedShort };
        let at = o.index_buffer_offset as u64;
        let fits = at + if wide { 12 } else { 6 } <= 16;
        let r = read_indices(&b, &o);
        leak(o);
        match r {
            Ok(v) => {
                assert!(fits && v.len() == 3);
                let i = below(3) as usize;
                let at = at as usize;
                let x = if wide {
                    b[at + 4 * i] as u32 | (b[at + 4 * i + 1] as u32) << 8 | (b[at + 4 * i + 2] as u32) << 16 | (b[at + 4 * i + 3] as u32) << 24
                } else {
                    b[at + 2 * i] as u32 | (b[at + 2 * i + 1] as u32) << 8
                };
                assert!(v[i] == x);
                reach!(wide, "wide");
                leak(v);
            }
            Err(e) => {
                assert!(!fits);
                leak(e);
            }
        }
    }
    /// [bounded: one attribute of each kind] however many vertices the attributes of an object have, their number is that of each attribute, or an error if they differ.
    #[cfg(all(kani, feature = "hooks"))]
    #[cfg_attr(kani, kani::unwind(8))]
    fn p_count() {
        let (o, n) = ghost::counted();
        let r = o.vertex_count();
        leak(o);
        match r {
            Ok(c) => assert!(n.iter().all(|x| *x == c as u32)),
            Err(e) => {
                assert!(!n.iter().all(|x| *x == n[0]));
                leak(e);
            }
        }
    }
    /// An object without indices gets its counts, strides and flags, and the places the buffers have come to, whatever they are.
    #[cfg(all(kani, feature = "hooks"))]
    #[cfg_attr(kani, kani::unwind(5))]
    #[cfg_attr(kani, kani::stub(ssbh_data::mesh_data::calculate_bounding_info, ghost::bounds))]
    #[cfg_attr(kani, kani::stub(ssbh_data::mesh_data::VectorData::to_glam_vec3a, ghost::points))]
    fn p_object_place() {
        let n: u32 = any();
        let b = ghost::buffers(any::<u32>() as u64);
        let r = ghost::run(Vec::new(), n as usize, &b);
        let o = r.object.unwrap();
        ghost::check(&o, &b, n, 0);
        assert!(r.offset2 == b.at[2] + n as u64 * b.strides[2] as u64);
        leak(o);
        leak(r.index);
    }
    /// [bounded: 3 indices] whatever the indices and the number of vertices, an object is rejected exactly if an index refers to none of them; otherwise the indices are stored at the object's place in the index buffer.
    #[cfg(all(kani, feature = "hooks"))]
    #[cfg_attr(kani, kani::unwind(5))]
    #[cfg_attr(kani, kani::stub(ssbh_data::mesh_data::calculate_bounding_info, ghost::bounds))]
    #[cfg_attr(kani, kani::stub(ssbh_data::mesh_data::VectorData::to_glam_vec3a, ghost::points))]
    fn p_object() {
        let ix: [u32; 3] = any();
        let n: u32 = any();
        let b = ghost::buffers(0);
        let r = ghost::run(ix.to_vec(), n as usize, &b);
        let inside = ix[0] < n && ix[1] < n && ix[2] < n;
        assert!(r.object.is_ok() == inside);
        reach!(inside, "inside");
        reach!(!inside, "outside");
        leak(r);
    }
} native {
    /// [bounded: up to 5 objects of up to 12 vertices] every object gets back exactly its indices, from its own part of the index buffer.
    fn n_indices() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let d = data(minor, objects(5, 12));
        let (m, b) = through(&d);
        layout(&m);
        for ((x, y), s) in d.objects.iter().zip(&b.objects).zip(stored(&m).objects) {
            assert!(x.vertex_indices == y.vertex_indices, "{:?} become {:?}", x.vertex_indices, y.vertex_indices);
            assert!(s.index_count == x.vertex_indices.len());
        }
    }
    /// [bounded: up to 3 objects of around 65536 vertices] indices of either width, on both sides of the largest 16-bit value.
    /// @cases=300 @ms=8000
    fn n_wide() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::*;
        let minor = VERSIONS[below(3) as usize].1;
        let os = (0..below(3) + 1)
            .map(|i| {
                let n = [2usize, 255, 256, 65535, 65536, 65537, 65540][below(7) as usize];
                let mut ix: Vec<u32> = (0..3 * below(4)).map(|_| below(n as u64) as u32).collect();
                if ix.len() > 0 && any() {
                    let k = below(ix.len() as u64) as usize;
                    ix[k] = n as u32 - 1;
                }
                MeshObjectData {
                    name: "w".into(),
                    subindex: i,
                    vertex_indices: ix,
                    texture_coordinates: vec![AttributeData { name: "map1".into(), data: VectorData::Vector2(vec![[0.5, 0.25]; n]) }],
                    ..Default::default()
                }
            })
            .collect();
        let d = data(minor, os);
        let (m, b) = through(&d);
        layout(&m);
        for (x, y) in d.objects.iter().zip(&b.objects) {
            assert!(x.vertex_indices == y.vertex_indices, "{:?} become {:?}", x.vertex_indices, y.vertex_indices);
        }
    }
    /// [bounded: generated meshes with at most one inconsistency] a mesh is written exactly if its index counts are multiples of three, its attribute lengths agree, its indices refer to vertices, its names are unique and its version is supported.
    fn n_rejected() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::*;
        use ssbh_lib::prelude::Mesh;
        let minor = VERSIONS[below(3) as usize].1;
        let mut d = data(minor, objects(4, 6));
        let n = d.objects.len() as u64;
        let mut bad = None;
        match below(7) {
            0 => {
                d.major_version = any();
                d.minor_version = if any() { any() } else { below(14) as u16 };
                if !VERSIONS.contains(&(d.major_version, d.minor_version)) {
                    bad = Some("version");
                }
            }
            1 if n > 0 => {
                let o = &mut d.objects[below(n) as usize];
                let k = below(3);
                if o.vertex_count().unwrap() > 0 {
                    for _ in 0..k {
                        o.vertex_indices.push(0);
                    }
                    if k > 0 {
                        bad = Some("index count");
                    }
                }
            }
            2 if n > 0 => {
                let o = &mut d.objects[below(n) as usize];
                let c = o.vertex_count().unwrap() as u32;
                let x = match below(4) { 0 => c, 1 => c + 1, 2 => u32::MAX, _ => c.wrapping_sub(1) };
                let mut t = vec![0u32; 3];
                t[below(3) as usize] = x;
                if c == 0 {
                    t = vec![x; 3];
                }
                let k = below(o.vertex_indices.len() as u64 / 3 + 1) as usize * 3;
                for (i, v) in t.iter().enumerate() {
                    o.vertex_indices.insert(k + i, *v);
                }
                if x >= c {
                    bad = Some("index");
                }
            }
            3 | 4 if n > 0 => {
                let o = &mut d.objects[below(n) as usize];
                let total: usize = kinds(o).iter().map(|k| k.len()).sum();
                if total > 1 {
                    let i = below(total as u64) as usize;
                    let all = [&mut o.positions, &mut o.normals, &mut o.binormals, &mut o.tangents, &mut o.texture_coordinates, &mut o.color_sets];
                    let a = all.into_iter().flat_map(|k| k.iter_mut()).nth(i).unwrap();
                    let more: bool = any();
                    macro_rules! change { ($v:expr) => { if more { $v.push(Default::default()); true } else { $v.pop().is_some() } } }
                    let changed = match &mut a.data {
                        VectorData::Vector2(v) => change!(v),
                        VectorData::Vector3(v) => change!(v),
                        VectorData::Vector4(v) => change!(v),
                    };
                    if changed {
                        bad = Some("lengths");
                    }
                }
            }
            5 if n > 0 => {
                let o = d.objects[below(n) as usize].clone();
                d.objects.insert(below(n + 1) as usize, o);
                bad = Some("name and subindex");
            }
            _ => {}
        }
        match (Mesh::try_from(&d), bad) {
            (Ok(_), Some(b)) => panic!("accepted in spite of the wrong {b}: {d:?}"),
            (Err(e), None) => panic!("rejected: {e}: {d:?}"),
            _ => {}
        }
    }
} }
