//! M04: skin weights stay with their vertex and bone.
use crate::nd::*;
#[cfg(feature = "hooks")]
use ssbh_data::mesh_data::{verif_hooks::*, VertexWeight};
#[cfg(feature = "hooks")]
use ssbh_lib::SsbhByteBuffer;

#[cfg(not(kani))]
fn most(o: &ssbh_data::mesh_data::MeshObjectData) -> usize {
    use std::collections::*;
    let mut n: HashMap<u32, usize> = HashMap::new();
    for b in &o.bone_influences {
        for v in b.vertex_weights.iter().map(|w| w.vertex_index).collect::<HashSet<_>>() {
            *n.entry(v).or_default() += 1;
        }
    }
    n.values().copied().max().unwrap_or(0)
}
#[cfg(not(kani))]
fn same(x: &ssbh_data::mesh_data::MeshObjectData, y: &ssbh_data::mesh_data::MeshObjectData) {
    assert!(x.bone_influences.len() == y.bone_influences.len(), "{:?} become {:?}", x.bone_influences, y.bone_influences);
    for (a, b) in x.bone_influences.iter().zip(&y.bone_influences) {
        let w = |i: &ssbh_data::mesh_data::BoneInfluence| i.vertex_weights.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect::<Vec<_>>();
        assert!(a.bone_name == b.bone_name && w(a) == w(b), "{:?} become {:?}", x.bone_influences, y.bone_influences);
    }
}

/// The largest influence count is any number here.
#[cfg(all(kani, feature = "hooks"))]
mod ghost {
    use ssbh_data::mesh_data::*;
    pub static mut COUNTS: [usize; 2] = [0; 2];
    static mut CALLS: usize = 0;
    pub fn count(_: &[BoneInfluence], _: usize) -> usize {
        unsafe { CALLS += 1; COUNTS[CALLS - 1] }
    }
    pub fn lossy(_: &[u8]) -> std::borrow::Cow<'_, str> { std::borrow::Cow::Borrowed("") }
    pub fn object(subindex: u64) -> MeshObjectData {
        MeshObjectData { subindex, ..Default::default() }
    }
}

contracts! { kani {
    /// [bounded: 2 weights] whatever their values, the weights of a bone are stored in version 1.10 exactly if their vertex indices fit in 16 bits, at their own place and bit for bit.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(8))]
    fn p_written() {
        let v: [u32; 2] = any();
        let f: [u32; 2] = any();
        let w = [VertexWeight { vertex_index: v[0], vertex_weight: f32::from_bits(f[0]) }, VertexWeight { vertex_index: v[1], vertex_weight: f32::from_bits(f[1]) }];
        let fits = v[0] < 65536 && v[1] < 65536;
        match write_weights_v10(&w) {
            Ok(b) => {
                assert!(fits);
                let b = b.elements;
                assert!(b.len() == 12);
                let (i, k) = (below(2) as usize, below(6) as usize);
                let x = if k < 2 { v[i] >> (8 * k) } else { f[i] >> (8 * (k - 2)) };
                assert!(b[6 * i + k] == x as u8);
                leak(b);
            }
            Err(e) => {
                assert!(!fits);
                leak(e);
            }
        }
    }
    /// [bounded: 1 weight] whatever the stored bytes, the weights of a version 1.10 mesh are the pairs stored, in order and bit for bit; an incomplete one is ignored.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(4))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_read() {
        let a: [u8; 9] = any();
        let b = SsbhByteBuffer { elements: a.to_vec() };
        let w = read_weights_v10(&b);
        leak(b);
        assert!(w.len() == 1);
        assert!(w[0].vertex_index == (a[0] as u32 | (a[1] as u32) << 8));
        let f = a[2] as u32 | (a[3] as u32) << 8 | (a[4] as u32) << 16 | (a[5] as u32) << 24;
        assert!(w[0].vertex_weight.to_bits() == f);
        leak(w);
    }
    /// [bounded: 2 objects without weights] whatever their subindices and influence counts, every object gets its own group with its own count, in ascending order; a count that does not fit is an error.
    #[cfg(all(kani, feature = "hooks"))]
    #[cfg_attr(kani, kani::unwind(5))]
    #[cfg_attr(kani, kani::stub(ssbh_data::mesh_data::calculate_max_influences, ghost::count))]
    #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, ghost::lossy))]
    fn p_groups() {
        let (a, b): (u64, u64) = (any(), any());
        let n: [u8; 2] = any();
        unsafe { ghost::COUNTS = [n[0] as usize, n[1] as usize]; }
        let d = [ghost::object(a), ghost::object(b)];
        let g = rigging_v10(&d).unwrap();
        leak(d);
        assert!(g.len() == 2);
        let (i, j) = if a <= b { (0, 1) } else { (1, 0) };
        assert!(g[i].mesh_object_subindex == a && g[i].flags.max_influences == n[0]);
        assert!(g[j].mesh_object_subindex == b && g[j].flags.max_influences == n[1]);
        leak(g);
    }
    /// [bounded: 1 object without weights] an influence count is stored as it is, or an error if it does not fit.
    #[cfg(all(kani, feature = "hooks"))]
    #[cfg_attr(kani, kani::unwind(5))]
    #[cfg_attr(kani, kani::stub(ssbh_data::mesh_data::calculate_max_influences, ghost::count))]
    #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, ghost::lossy))]
    fn p_group_limit() {
        let a: u64 = any();
        let n: usize = any();
        unsafe { ghost::COUNTS = [n, 0]; }
        let d = [ghost::object(a)];
        let r = rigging_v10(&d);
        leak(d);
        match r {
            Ok(g) => {
                assert!(n < 256 && g.len() == 1 && g[0].flags.max_influences as usize == n && g[0].mesh_object_subindex == a);
                leak(g);
            }
            Err(e) => {
                assert!(n >= 256);
                leak(e);
            }
        }
    }
} native {
    /// [bounded: up to 5 objects with up to 5 bones of up to 6 weights] every object gets back its own bones and weights, bit for bit and in order.
    fn n_weights() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let mut os = objects(5, 5);
        for o in &mut os {
            influences(o);
        }
        let d = data(minor, os);
        let (m, b) = through(&d);
        assert!(b.objects.len() == d.objects.len());
        let s = stored(&m);
        for ((x, y), so) in d.objects.iter().zip(&b.objects).zip(&s.objects) {
            same(x, y);
            assert!((so.skinned != 0) == !x.bone_influences.is_empty(), "skinning flag");
            // A vertex with several weights of one bone counts once: the count is one of bones.
            let g: Vec<_> = s.groups.iter().filter(|g| g.0 == x.name && g.1 == x.subindex).collect();
            assert!(g.len() == 1, "{} groups for {}", g.len(), x.name);
            assert!(g[0].2 as usize == most(x), "{} influences are stored as {}: {:?}", most(x), g[0].2, x.bone_influences);
        }
        // The groups are in ascending order.
        let k: Vec<_> = s.groups.iter().map(|g| (g.0.clone(), g.1)).collect();
        let mut o = k.clone();
        o.sort();
        assert!(k == o, "order of the groups {k:?}");
    }
    /// [bounded: one object, vertex indices around the 16-bit limit] a weight that version 1.10 cannot represent is rejected, every other one kept exactly.
    fn n_limit() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::*;
        use ssbh_lib::prelude::Mesh;
        let minor = VERSIONS[below(3) as usize].1;
        let mut o = object("o".into(), 0, 2);
        let ix = |far: u64| match below(8) { 0 => far as u32, 1 => 65535, 2 => 256, _ => below(65536) as u32 };
        let far = [65535, 65536, 65537, 1 << 24, u32::MAX as u64][below(5) as usize];
        o.bone_influences = (0..below(3) + 1)
            .map(|i| BoneInfluence {
                bone_name: format!("b{i}"),
                vertex_weights: (0..below(5)).map(|_| ssbh_data::mesh_data::VertexWeight { vertex_index: ix(far), vertex_weight: value() }).collect(),
            })
            .collect();
        let too_far = o.bone_influences.iter().flat_map(|b| &b.vertex_weights).any(|w| w.vertex_index > 65535);
        let d = data(minor, vec![o]);
        match Mesh::try_from(&d) {
            Err(e) => assert!(minor == 10 && too_far, "{e}: {d:?}"),
            Ok(m) => {
                assert!(minor != 10 || !too_far, "a vertex index above 65535 is accepted: {d:?}");
                assert!(stored(&m).groups[0].2 as usize == most(&d.objects[0]), "{} influences are stored as {}: {d:?}", most(&d.objects[0]), stored(&m).groups[0].2);
                same(&d.objects[0], &through(&d).1.objects[0]);
            }
        }
    }
    /// [bounded: up to 600 bones] the largest influence count is stored as it is, or the mesh rejected when it does not fit.
    /// @cases=400 @ms=6000
    fn n_many() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::*;
        use ssbh_lib::prelude::Mesh;
        let minor = VERSIONS[below(3) as usize].1;
        let n = match below(4) { 0 => 255, 1 => 256, 2 => below(600), _ => below(20) };
        let mut o = object("o".into(), 0, 2);
        o.bone_influences = (0..n)
            .map(|i| BoneInfluence { bone_name: format!("b{i}"), vertex_weights: vec![VertexWeight { vertex_index: 1, vertex_weight: i as f32 }] })
            .collect();
        let d = data(minor, vec![o]);
        match Mesh::try_from(&d) {
            Err(e) => assert!(n > 255, "{e}"),
            Ok(m) => {
                assert!(stored(&m).groups[0].2 as u64 == n, "{n} influences of one vertex are stored as {}", stored(&m).groups[0].2);
                same(&d.objects[0], &through(&d).1.objects[0]);
            }
        }
    }
    /// [bounded: generated meshes of which one object repeats in several groups] weights found in the file are attributed to the object of that name and subindex only.
    fn n_groups() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::*;
        use ssbh_lib::prelude::Mesh;
        let minor = VERSIONS[below(3) as usize].1;
        let mut os = objects(4, 4);
        for o in &mut os {
            influences(o);
        }
        let d = data(minor, os);
        let mut m: Mesh = (&d).try_into().unwrap();
        macro_rules! shuffle {
            ($m:expr) => {{
                let g = &mut $m.rigging_buffers.elements;
                for _ in 0..3 {
                    if g.len() > 1 {
                        let (i, j) = (below(g.len() as u64) as usize, below(g.len() as u64) as usize);
                        g.swap(i, j);
                    }
                }
                // a group without an object
                if let Some(mut x) = g.first().cloned() {
                    x.mesh_object_name = "nobody".into();
                    g.insert(0, x);
                }
                let i = below(g.len() as u64 + 1) as usize;
                if any() && i < g.len() {
                    Some(g.remove(i)).map(|g| (g.mesh_object_name.to_string_lossy(), g.mesh_object_subindex))
                } else {
                    None
                }
            }};
        }
        let gone = match &mut m {
            Mesh::V8(m) => shuffle!(m),
            Mesh::V9(m) => shuffle!(m),
            Mesh::V10(m) => shuffle!(m),
        };
        let b = MeshData::try_from(&m).unwrap();
        for (x, y) in d.objects.iter().zip(&b.objects) {
            if gone == Some((x.name.clone(), x.subindex)) {
                assert!(y.bone_influences.is_empty(), "{:?}", y.bone_influences);
            } else {
                same(x, y);
            }
        }
    }
    /// [bounded: up to 300 objects of up to 2 bones, or one bone of around 256 or around 65536 weights] nothing is lost or moved in large meshes.
    /// @cases=300 @ms=6000
    fn n_long() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let bone = |n: usize, verts: u64| ssbh_data::mesh_data::BoneInfluence {
            bone_name: name(),
            vertex_weights: (0..n).map(|_| ssbh_data::mesh_data::VertexWeight { vertex_index: below(verts) as u32, vertex_weight: f32::from_bits(any()) }).collect(),
        };
        let mut os: Vec<_> = (0..if any() { 3 } else { 250 + below(50) }).map(|i| object(format!("o{}", i / 2), i % 2, 3)).collect();
        if os.len() > 3 {
            for o in &mut os {
                o.bone_influences = (0..below(3)).map(|_| bone(below(3) as usize, 3)).collect();
            }
        } else {
            let n = if below(3) == 0 { 65530 + below(12) as usize } else { 250 + below(12) as usize };
            os[below(3) as usize].bone_influences = vec![bone(2, 3), bone(n, 65536), bone(3, 3)];
        }
        let d = data(minor, os);
        let (m, b) = through(&d);
        assert!(b.objects.len() == d.objects.len());
        let s = stored(&m);
        for (x, y) in d.objects.iter().zip(&b.objects) {
            same(x, y);
            let g: Vec<_> = s.groups.iter().filter(|g| g.0 == x.name && g.1 == x.subindex).collect();
            assert!(g.len() == 1 && g[0].2 as usize == most(x), "{} groups for {}", g.len(), x.name);
        }
    }
} }
