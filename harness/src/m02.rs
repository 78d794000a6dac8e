//! M02: mesh vertex attributes keep their values, order and place in every version.
use crate::nd::*;
#[cfg(feature = "hooks")]
use ssbh_data::mesh_data::verif_hooks::*;

#[cfg(feature = "hooks")]
#[path = "m03_object.rs"]
mod o;

contracts! { kani {
    /// An attribute of any object lies at its own offset behind the object's place in the buffer it names, with the object's stride for that buffer; there are four buffers.
    #[cfg(feature = "hooks")]
    fn p_place() {
        let m = o::object();
        let (i, at): (u64, u32) = (any(), any());
        let r = offset_stride(i, at as u64, &m);
        let offsets = [m.vertex_buffer0_offset, m.vertex_buffer1_offset, m.vertex_buffer2_offset, m.vertex_buffer3_offset];
        let strides = [m.stride0, m.stride1, m.stride2, m.stride3];
        leak(m);
        match r {
            Some((p, s)) => {
                assert!(i < 4);
                assert!(p == at as u64 + offsets[i as usize] as u64 && s == strides[i as usize] as u64);
            }
            None => assert!(i >= 4),
        }
        reach!(r.is_some(), "place");
        reach!(r.is_none(), "no place");
    }
} native {
    /// [bounded: up to 5 generated objects of up to 9 vertices and 16 attributes] names, flags, and every attribute with its kind, order, name and values survive in every version (1.8 stores no attribute names and no binormals).
    fn n_roundtrip() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let mut d = data(minor, objects(5, 9));
        for o in &mut d.objects {
            if minor == 8 && any() {
                // not stored: an object with nothing else would have no vertices left
                o.binormals.clear();
                if o.vertex_count().unwrap() == 0 {
                    o.vertex_indices.clear();
                }
            }
        }
        let (_, b) = through(&d);
        assert!((b.major_version, b.minor_version) == (1, minor) && b.objects.len() == d.objects.len());
        for (x, y) in d.objects.iter().zip(&b.objects) {
            same_object(minor, x, y).unwrap_or_else(|e| panic!("1.{minor}: {e}: {d:?}"));
        }
        // Converting again loses nothing more.
        if minor == 8 && d.objects.iter().any(|o| !o.binormals.is_empty()) {
            return;
        }
        let (_, c) = through(&b);
        for (x, y) in b.objects.iter().zip(&c.objects) {
            same_object(minor, x, y).unwrap_or_else(|e| panic!("1.{minor}, again: {e}: {d:?}"));
        }
    }
    /// [bounded: as above] every stride and offset delimits exactly one object's data in the vertex buffers, and one attribute's data in the stride.
    fn n_layout() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let d = data(minor, objects(5, 9));
        let (m, _) = through(&d);
        layout(&m);
        for (o, s) in d.objects.iter().zip(stored(&m).objects) {
            assert!(s.count == o.vertex_count().unwrap());
        }
    }
    /// [bounded: 1 object of up to 70 vertices, many attributes] large strides.
    fn n_wide() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let n = below(70) as usize;
        let mut o = object("wide".into(), 3, n);
        o.texture_coordinates = attributes(20, n);
        o.color_sets = attributes(20, n);
        o.normals = attributes(20, n);
        let d = data(minor, vec![object("x".into(), 0, below(4) as usize), o, object("y".into(), 0, 2)]);
        let (m, b) = through(&d);
        layout(&m);
        for (x, y) in d.objects.iter().zip(&b.objects) {
            same_object(minor, x, y).unwrap_or_else(|e| panic!("1.{minor}: {e}: {d:?}"));
        }
    }
    /// [bounded: one object of around 256 or 65536 vertices and up to 400 or 70000 indices, with 1 attribute of each kind or 300 of one kind; or up to 400 objects] nothing is lost or moved in large meshes.
    /// @cases=300 @ms=9000
    fn n_long() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let (n, indices) = if below(4) == 0 { (65530 + below(12) as usize, 65520 + 3 * below(10)) } else { (250 + below(12) as usize, 3 * below(130)) };
        let f = || (below(1 << 12) as f32 - 2048.0) / 256.0;
        let attribute = |i: u64, n: usize| ssbh_data::mesh_data::AttributeData { name: format!("a{i}"), data: vectors(2 + below(3), n, &f) };
        let d = match below(3) {
            0 => data(minor, (0..250 + below(150)).map(|i| object(i.to_string(), i % 3, 1)).collect()),
            k => {
                let mut o = ssbh_data::mesh_data::MeshObjectData { name: "long".into(), ..Default::default() };
                if k == 1 {
                    o.positions = vec![attribute(0, n)];
                    o.normals = vec![attribute(1, n)];
                    o.texture_coordinates = vec![attribute(2, n)];
                    o.color_sets = vec![attribute(3, n)];
                } else {
                    let many = (0..250 + below(50)).map(|i| attribute(i, 3)).collect();
                    [&mut o.positions, &mut o.normals, &mut o.texture_coordinates, &mut o.color_sets][below(4) as usize].clone_from(&many);
                }
                o.vertex_indices = (0..indices).map(|_| below(o.vertex_count().unwrap() as u64) as u32).collect();
                data(minor, vec![object("x".into(), 0, 2), o, object("y".into(), 0, 3)])
            }
        };
        let (m, b) = through(&d);
        layout(&m);
        assert!(b.objects.len() == d.objects.len(), "{} objects become {}", d.objects.len(), b.objects.len());
        for (x, y) in d.objects.iter().zip(&b.objects) {
            same_object(minor, x, y).unwrap_or_else(|e| panic!("1.{minor}: {}: {e}", x.name));
            assert!(x.vertex_indices == y.vertex_indices, "1.{minor}: indices of {}", x.name);
        }
    }
} }
