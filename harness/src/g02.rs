//! G02: triangle adjacency lists exactly the triangles that share the vertex.
use crate::nd::*;
use ssbh_data::adj_data::AdjEntryData;

/// The 18 entries of vertex `i`: for every vertex at the same position and every corner of a
/// triangle at that vertex, the next two corners; cut or filled up with -1.
fn expected<T: PartialEq, const P: usize>(i: usize, positions: &[T], ix: &[u32]) -> [i16; P] {
    let mut o = [-1; P];
    let mut n = 0;
    for j in 0..positions.len() {
        if positions[j] == positions[i] {
            for f in 0..ix.len() / 3 {
                for c in 0..3 {
                    if ix[3 * f + c] as usize == j {
                        for k in 1..3 {
                            if n < P {
                                o[n] = ix[3 * f + (c + k) % 3] as i16;
                            }
                            n += 1;
                        }
                    }
                }
            }
        }
    }
    o
}

contracts! { kani {
} native {
    /// [bounded: all lists of up to 3 triangles over 3 vertices with every pattern of equal positions, enumerated completely] as below.
    /// @cases=1
    fn n_all() {
        use ssbh_data::mesh_data::*;
        for (t, same) in (0..4u32).flat_map(|t| [[0, 1, 2], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, 0]].map(|s| (t, s))) {
            let p = same.map(|x: usize| [x as f32, 1.0]);
            let positions = VectorData::Vector2(p.to_vec());
            for mut code in 0..3u32.pow(3 * t) {
                let ix: Vec<u32> = (0..3 * t).map(|_| { let x = code % 3; code /= 3; x }).collect();
                let e = AdjEntryData::from_vector_data(0, &positions, &ix);
                assert!(e.vertex_adjacency.len() == 54);
                for i in 0..3 {
                    let want: [i16; 18] = expected(i, &p, &ix);
                    let got = &e.vertex_adjacency[18 * i..18 * i + 18];
                    assert!(got == want, "vertex {i} of {positions:?} with {ix:?}: {got:?} instead of {want:?}");
                }
            }
        }
    }
    /// [bounded: up to 24 triangles and 2 loose indices over up to 14 vertices on few positions] every vertex lists exactly the other corners of its triangles and of those at the same position, in order, cut to 18 and filled up with -1.
    fn n_adjacency() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::*;
        let n = 1 + below(14);
        let kinds = 1 + below(if any() { 4 } else { 40 });
        let dims = 2 + below(3);
        let palette = [0.0, -0.0, 1.0, 0.5, -1.0, 1.0e-38, f32::NAN];
        let point = |k: u64| if k == 5 { [palette[5]; 4] } else { [palette[(k % 7) as usize], palette[(k / 7) as usize % 7], k as f32, 1.0 + k as f32] };
        let p: Vec<[f32; 4]> = (0..n).map(|_| point(below(kinds))).collect();
        let positions = match dims {
            2 => VectorData::Vector2(p.iter().map(|v| [v[0], v[1]]).collect()),
            3 => VectorData::Vector3(p.iter().map(|v| [v[0], v[1], v[2]]).collect()),
            _ => VectorData::Vector4(p.clone()),
        };
        let ix: Vec<u32> = (0..3 * below(25) + below(3)).map(|_| below(n) as u32).collect();
        let index = any::<u32>() as usize;
        let e = AdjEntryData::from_vector_data(index, &positions, &ix);
        assert!(e.mesh_object_index == index && e.vertex_adjacency.len() == 18 * n as usize, "{} entries for {n} vertices", e.vertex_adjacency.len());
        for i in 0..n as usize {
            let want: [i16; 18] = match &positions {
                VectorData::Vector2(v) => expected(i, v, &ix),
                VectorData::Vector3(v) => expected(i, v, &ix),
                VectorData::Vector4(v) => expected(i, v, &ix),
            };
            let got = &e.vertex_adjacency[18 * i..18 * i + 18];
            assert!(got == want, "vertex {i} of {positions:?} with {ix:?}: {got:?} instead of {want:?}");
            assert!(got.iter().all(|x| *x >= -1 && (*x as i64) < n as i64));
        }
        let mut o = MeshObjectData { positions: vec![AttributeData { name: name(), data: positions }], vertex_indices: ix, ..Default::default() };
        if any() {
            o.positions.push(AttributeData { name: name(), data: vectors(3, n as usize, &value) });
        }
        assert!(AdjEntryData::from_mesh_object(index, &o) == e, "the mesh object {o:?} gives another result than its positions");
        o.positions.clear();
        let none = AdjEntryData::from_mesh_object(index, &o);
        assert!(none.mesh_object_index == index && none.vertex_adjacency.is_empty(), "a mesh object without positions has adjacent vertices");
    }
    /// [bounded: fans and strips of up to 3000 vertices] the same for long lists, up to indices of any size the format holds.
    /// @cases=200 @ms=8000
    fn n_long() {
        let n = 3 + below(3000) as usize;
        let shift = below(64) as usize;
        let positions: Vec<u32> = (0..n).map(|i| if shift > 1 { (i % (n / 2 + shift)) as u32 } else { i as u32 }).collect();
        let fan: bool = any();
        let mut ix = Vec::new();
        for i in 0..n - 2 {
            ix.extend(if fan { [0, i as u32 + 1, i as u32 + 2] } else { [i as u32, i as u32 + 1, i as u32 + 2] });
        }
        let e = AdjEntryData::from_triangle_faces(0, &positions, &ix);
        assert!(e.vertex_adjacency.len() == 18 * n);
        for i in (0..20).map(|_| below(n as u64) as usize).chain([0, n - 1]) {
            let (got, want): (_, [i16; 18]) = (&e.vertex_adjacency[18 * i..18 * i + 18], expected(i, &positions, &ix));
            assert!(got == want, "vertex {i} of {n}: {got:?} instead of {want:?}");
        }
    }
    /// [bounded: 32766 to 32768 vertices at different positions, one triangle] the largest indices.
    /// @cases=2 @ms=8000
    fn n_largest() {
        let n = 32766 + below(3) as usize;
        let positions: Vec<u32> = (0..n as u32).collect();
        let ix = [n as u32 - 1, 0, n as u32 - 2];
        let e = AdjEntryData::from_triangle_faces(0, &positions, &ix);
        for i in [0, 1, n - 2, n - 1] {
            let (got, want): (_, [i16; 18]) = (&e.vertex_adjacency[18 * i..18 * i + 18], expected(i, &positions, &ix));
            assert!(got == want, "vertex {i} of {n}: {got:?} instead of {want:?}");
        }
    }
} }
