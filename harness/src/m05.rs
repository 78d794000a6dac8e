//! M05: bounding volumes enclose every vertex they are computed from.
use crate::nd::*;
use ssbh_data::mesh_data::{transform_points, transform_vectors, VectorData};

#[cfg(not(kani))]
type P = [f64; 3];
#[cfg(not(kani))]
fn points(d: &ssbh_data::mesh_data::VectorData) -> Vec<P> {
    let (n, v) = crate::mesh::flat(d);
    v.chunks(n).map(|c| [c[0] as f64, c[1] as f64, if n > 2 { c[2] as f64 } else { 0.0 }]).collect()
}
#[cfg(not(kani))]
fn encloses(b: &ssbh_lib::formats::mesh::BoundingInfo, p: &[P], what: &str) {
    let v = |x: ssbh_lib::Vector3| [x.x as f64, x.y as f64, x.z as f64];
    let (min, max, c, r) = (v(b.bounding_volume.min), v(b.bounding_volume.max), v(b.bounding_sphere.center), b.bounding_sphere.radius as f64);
    let size = p.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    for q in p {
        for i in 0..3 {
            assert!(min[i] <= q[i] && q[i] <= max[i], "{what}: {q:?} outside of {min:?} to {max:?}");
        }
        let d = ((q[0] - c[0]).powi(2) + (q[1] - c[1]).powi(2) + (q[2] - c[2]).powi(2)).sqrt();
        assert!(d <= r * 1.00001 + size * 1e-6 + 1e-18, "{what}: {q:?} is {d} from the centre {c:?} of a sphere of radius {r}");
    }
    let (oc, os) = (v(b.oriented_bounding_box.center), v(b.oriented_bounding_box.size));
    for i in 0..3 {
        if p.is_empty() {
            assert!(min[i] == 0.0 && max[i] == 0.0 && c[i] == 0.0 && r == 0.0, "{what}: no points");
        } else {
            assert!(p.iter().any(|q| q[i] == min[i]) && p.iter().any(|q| q[i] == max[i]), "{what}: {min:?} to {max:?} is not the tightest box");
        }
        assert!((oc[i] - (min[i] + max[i]) / 2.0).abs() <= size * 1e-6, "{what}: oriented centre {oc:?} of {min:?} to {max:?}");
        assert!((os[i] - (max[i] - min[i]) / 2.0).abs() <= size * 1e-6, "{what}: oriented extents {os:?} of {min:?} to {max:?}");
    }
    let t = b.oriented_bounding_box.transform;
    let rows = [t.col1, t.col2, t.col3].map(v);
    assert!(rows == [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "{what}: orientation {rows:?}");
    // The sphere is no larger than what reaches the farthest corner from the centre of the points.
    let diag = (0..3).map(|i| (max[i] - min[i]).powi(2)).sum::<f64>().sqrt();
    assert!(r <= diag * 1.0001 + size * 1e-6, "{what}: radius {r} for a box of diagonal {diag}");
}
#[cfg(not(kani))]
fn coordinate() -> f32 {
    match below(6) {
        0 => 0.0,
        1 => (below(2000) as f32 - 1000.0) / 8.0,
        2 => (below(2000) as f32) * 1e6,
        3 => (below(2000) as f32) * -1e-6 - 3.0,
        _ => (below(1 << 24) as f32 - (1 << 23) as f32) / 65536.0,
    }
}
#[cfg(not(kani))]
fn shape(n: usize) -> ssbh_data::mesh_data::VectorData {
    // Points on one side of the origin, on a plane, or anywhere.
    let far = [0.0, 100.0, -5000.0][below(3) as usize];
    crate::mesh::vectors(2 + below(3), n, &|| far + coordinate())
}

/// glam's product is trusted to be the product; here it is any function of what it is applied to.
#[cfg(kani)]
mod ghost {
    use super::*;
    use glam::{Mat4, Vec4};
    pub static mut MATRIX: [[u32; 4]; 4] = [[0; 4]; 4];
    pub static mut VECTORS: [[u32; 4]; 2] = [[0; 4]; 2];
    pub static mut RESULTS: [[u32; 4]; 2] = [[0; 4]; 2];
    pub static mut CALLS: usize = 0;
    pub fn mul_vec4(m: &Mat4, v: Vec4) -> Vec4 {
        let m = m.to_cols_array_2d();
        let v = v.to_array();
        unsafe {
            let k = CALLS;
            assert!(k < 2, "multiplied once per vector");
            for i in 0..4 {
                for j in 0..4 {
                    assert!(m[i][j].to_bits() == MATRIX[i][j], "the columns of the matrix");
                }
                assert!(v[i].to_bits() == VECTORS[k][i], "the vector with its fourth component");
            }
            CALLS = k + 1;
            let r = RESULTS[k];
            Vec4::from_array([f32::from_bits(r[0]), f32::from_bits(r[1]), f32::from_bits(r[2]), f32::from_bits(r[3])])
        }
    }
}

/// Transforms two vectors of `N` components and compares with the product.
fn transformed<const N: usize>(make: fn(Vec<[f32; N]>) -> VectorData, get: fn(&VectorData) -> Option<&Vec<[f32; N]>>) {
    let m: [[u32; 4]; 4] = any();
    let v: [[u32; N]; 2] = any();
    let r: [[u32; 4]; 2] = any();
    let point: bool = any();
    let f = |c: u32| f32::from_bits(c);
    #[cfg(kani)]
    unsafe {
        ghost::MATRIX = m;
        ghost::RESULTS = r;
        ghost::CALLS = 0;
        for i in 0..2 {
            for j in 0..3 {
                ghost::VECTORS[i][j] = if j < N { v[i][j] } else { 0 };
            }
            ghost::VECTORS[i][3] = if point { 1f32.to_bits() } else { 0 };
        }
    }
    let mut a = [[0.0; N]; 2];
    for i in 0..2 {
        for j in 0..N {
            a[i][j] = f(v[i][j]);
        }
    }
    let mut t = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            t[i][j] = f(m[i][j]);
        }
    }
    let d = make(a.to_vec());
    let o = if point { transform_points(&d, &t) } else { transform_vectors(&d, &t) };
    let b = get(&o);
    assert!(b.is_some(), "the number of components");
    let b = b.unwrap();
    assert!(b.len() == 2);
    for i in 0..2 {
        for j in 0..N {
            if j == 3 {
                assert!(b[i][j].to_bits() == v[i][j], "the fourth component");
            } else if cfg!(kani) {
                assert!(b[i][j].to_bits() == r[i][j], "the component of the product");
            } else {
                let x = |k: usize| if k == 3 { if point { 1.0 } else { 0.0 } } else if k < N { a[i][k] as f64 } else { 0.0 };
                let want: f64 = (0..4).map(|k| t[k][j] as f64 * x(k)).sum();
                let size: f64 = (0..4).map(|k| (t[k][j] as f64 * x(k)).abs()).sum();
                assert!(!(size < 1e30) || (b[i][j] as f64 - want).abs() <= size * 1e-6 + 1e-30, "component {j} of {t:?} times {:?} is {} instead of {want}", a[i], b[i][j]);
            }
        }
    }
    #[cfg(kani)]
    unsafe {
        assert!(ghost::CALLS == 2);
    }
    reach!(point, "points");
    reach!(!point, "vectors");
    leak((d, o));
}

/// geometry_tools is trusted to compute a sphere and a box around the points; here they are any.
#[cfg(kani)]
mod bounds {
    use glam::{Vec3A, Vec4};
    pub static mut POINTS: [[u32; 3]; 2] = [[0; 3]; 2];
    pub static mut SPHERE: [u32; 4] = [0; 4];
    pub static mut BOX: [[u32; 3]; 2] = [[0; 3]; 2];
    fn check<P: Into<Vec3A> + Copy>(p: &[P]) {
        assert!(p.len() == 2, "all points");
        for i in 0..2 {
            let v: Vec3A = p[i].into();
            let v = v.to_array();
            for j in 0..3 {
                assert!(v[j].to_bits() == unsafe { POINTS[i][j] }, "the points");
            }
        }
    }
    fn v(b: [u32; 3]) -> Vec3A {
        Vec3A::new(f32::from_bits(b[0]), f32::from_bits(b[1]), f32::from_bits(b[2]))
    }
    use std::arch::x86_64::__m128;
    pub static mut SUM: [u32; 3] = [0; 3];
    pub static mut DIFFERENCE: [u32; 3] = [0; 3];
    fn is(a: __m128, i: usize) -> bool {
        let a: [u32; 4] = unsafe { std::mem::transmute(a) };
        let b = unsafe { BOX[i] };
        a[0] == b[0] && a[1] == b[1] && a[2] == b[2]
    }
    /// Sum and difference are any function of the corners.
    pub fn add(a: __m128, b: __m128) -> __m128 {
        assert!(is(a, 0) && is(b, 1) || is(a, 1) && is(b, 0), "the sum of the corners");
        let s = unsafe { SUM };
        unsafe { std::mem::transmute([s[0], s[1], s[2], 0]) }
    }
    pub fn sub(a: __m128, b: __m128) -> __m128 {
        assert!(is(a, 1) && is(b, 0), "the difference of the corners");
        let s = unsafe { DIFFERENCE };
        unsafe { std::mem::transmute([s[0], s[1], s[2], 0]) }
    }
    /// Halving takes one off the exponent of a number that is not tiny.
    pub fn div(a: __m128, b: __m128) -> __m128 {
        let b: [f32; 4] = unsafe { std::mem::transmute(b) };
        assert!(b[0] == 2.0 && b[1] == 2.0 && b[2] == 2.0);
        let a: [u32; 4] = unsafe { std::mem::transmute(a) };
        unsafe { std::mem::transmute([a[0] - (1 << 23), a[1] - (1 << 23), a[2] - (1 << 23), 0]) }
    }
    pub fn sphere<P: Into<Vec3A> + Copy>(p: &[P]) -> Vec4 {
        check(p);
        let s = unsafe { SPHERE };
        Vec4::new(f32::from_bits(s[0]), f32::from_bits(s[1]), f32::from_bits(s[2]), f32::from_bits(s[3]))
    }
    pub fn aabb<P: Into<Vec3A> + Copy>(p: &[P]) -> (Vec3A, Vec3A) {
        check(p);
        unsafe { (v(BOX[0]), v(BOX[1])) }
    }
}

contracts! { kani {
    /// [bounded: two points] the stored sphere and box are those computed from all points; the oriented box has half the sum of the corners as its centre, half their difference as its extents, and no rotation.
    #[cfg(all(kani, feature = "hooks"))]
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(geometry_tools::bounding::calculate_bounding_sphere_from_points, bounds::sphere))]
    #[cfg_attr(kani, kani::stub(geometry_tools::bounding::calculate_aabb_from_points, bounds::aabb))]
    #[cfg_attr(kani, kani::stub(std::arch::x86_64::_mm_add_ps, bounds::add))]
    #[cfg_attr(kani, kani::stub(std::arch::x86_64::_mm_sub_ps, bounds::sub))]
    #[cfg_attr(kani, kani::stub(std::arch::x86_64::_mm_div_ps, bounds::div))]
    fn p_bounds() {
        let v: [[u32; 3]; 2] = any();
        let s: [u32; 4] = any();
        let b: [[u32; 3]; 2] = any();
        let (sum, diff): ([u32; 3], [u32; 3]) = (any(), any());
        let not_tiny = |x: u32| { let e = x >> 23 & 255; e > 1 && e < 255 };
        for j in 0..3 {
            assume(not_tiny(sum[j]) && not_tiny(diff[j]));
        }
        unsafe {
            bounds::BOX = b;
            bounds::SUM = sum;
            bounds::DIFFERENCE = diff;
        }
        unsafe {
            bounds::POINTS = v;
            bounds::SPHERE = s;
        }
        let f = |x: [u32; 3]| [f32::from_bits(x[0]), f32::from_bits(x[1]), f32::from_bits(x[2])];
        let d = VectorData::Vector3(vec![f(v[0]), f(v[1])]);
        let r = ssbh_data::mesh_data::verif_hooks::bounding_info(&d);
        leak(d);
        let a = |v: ssbh_lib::Vector3| [v.x, v.y, v.z];
        let (bs, bv, ob) = (&r.bounding_sphere, &r.bounding_volume, &r.oriented_bounding_box);
        assert!(bs.radius.to_bits() == s[3]);
        let k = below(3) as usize;
        assert!(a(bs.center)[k].to_bits() == s[k]);
        assert!(a(bv.min)[k].to_bits() == b[0][k] && a(bv.max)[k].to_bits() == b[1][k]);
        assert!(a(ob.center)[k].to_bits() == sum[k] - (1 << 23));
        assert!(a(ob.size)[k].to_bits() == diff[k] - (1 << 23));
        for (i, m) in [ob.transform.col1, ob.transform.col2, ob.transform.col3].into_iter().enumerate() {
            for j in 0..3 {
                assert!(a(m)[j] == if i == j { 1.0 } else { 0.0 });
            }
        }
    }
    /// [bounded: two vectors] vectors of two components are multiplied as (x, y, 0, w), whatever their components and the matrix.
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(glam::Mat4::mul_vec4, ghost::mul_vec4))]
    fn p_transform2() {
        transformed::<2>(VectorData::Vector2, |d| if let VectorData::Vector2(v) = d { Some(v) } else { None })
    }
    /// [bounded: two vectors] vectors of three components are multiplied as (x, y, z, w).
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(glam::Mat4::mul_vec4, ghost::mul_vec4))]
    fn p_transform3() {
        transformed::<3>(VectorData::Vector3, |d| if let VectorData::Vector3(v) = d { Some(v) } else { None })
    }
    /// [bounded: two vectors] vectors of four components are multiplied as (x, y, z, w) and keep their own fourth component.
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(glam::Mat4::mul_vec4, ghost::mul_vec4))]
    fn p_transform4() {
        transformed::<4>(VectorData::Vector4, |d| if let VectorData::Vector4(v) = d { Some(v) } else { None })
    }
} native {
    /// [bounded: up to 4 objects of up to 20 vertices, moderate coordinates] the sphere and boxes stored for each object, and for the whole mesh, enclose the vertices of their first position attribute.
    fn n_bounds() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::AttributeData;
        let minor = VERSIONS[below(3) as usize].1;
        let os = (0..below(5))
            .map(|i| {
                let n = below(20) as usize;
                let mut o = object("o".into(), i, n);
                o.positions.clear();
                if below(8) > 0 {
                    o.positions.push(AttributeData { name: "Position0".into(), data: shape(n) });
                    if any() {
                        o.positions.push(AttributeData { name: "Position1".into(), data: shape(n) });
                    }
                }
                if o.vertex_count().unwrap() == 0 {
                    o.vertex_indices.clear();
                }
                o
            })
            .collect();
        let d = data(minor, os);
        let (m, _) = through(&d);
        let s = stored(&m);
        let mut all = Vec::new();
        for (o, s) in d.objects.iter().zip(&s.objects) {
            let p = o.positions.first().map_or(Vec::new(), |a| points(&a.data));
            encloses(&s.bounds, &p, "object");
            all.extend(p);
        }
        encloses(&s.bounds, &all, "mesh");
    }
    /// [bounded: up to 10 vectors] transforming multiplies by the matrix (column major), adding the translation to points only, and keeps the number of components and a fourth one.
    fn n_transform() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::*;
        let n = below(10) as usize;
        let d = vectors(2 + below(3), n, &value);
        let m: [[f32; 4]; 4] = match below(4) {
            // one entry only: any misplaced entry shows
            0 => {
                let mut m = [[0.0; 4]; 4];
                m[below(4) as usize][below(4) as usize] = 2.0;
                m
            }
            _ => std::array::from_fn(|_| std::array::from_fn(|_| value())),
        };
        for w in [0.0, 1.0] {
            let r = if w == 1.0 { transform_points(&d, &m) } else { transform_vectors(&d, &m) };
            let ((n1, a), (n2, b)) = (flat(&d), flat(&r));
            assert!(n1 == n2 && a.len() == b.len());
            for (v, r) in a.chunks(n1).zip(b.chunks(n1)) {
                let p = [v[0] as f64, v[1] as f64, if n1 > 2 { v[2] as f64 } else { 0.0 }, w];
                for i in 0..n1 {
                    if i == 3 {
                        assert!(r[3].to_bits() == v[3].to_bits(), "the fourth component {} becomes {}", v[3], r[3]);
                        continue;
                    }
                    let want: f64 = (0..4).map(|k| m[k][i] as f64 * p[k]).sum();
                    let size: f64 = (0..4).map(|k| (m[k][i] as f64 * p[k]).abs()).sum();
                    assert!((r[i] as f64 - want).abs() <= size * 1e-6 + 1e-30, "component {i} of {m:?} times {p:?} is {} instead of {want}", r[i]);
                }
            }
        }
    }
    /// [bounded: up to 5 groups of up to 4 objects] the spheres of an extended mesh file built from objects enclose every vertex of them.
    fn n_meshex() {
        use ssbh_data::mesh_data::*;
        use ssbh_data::meshex_data::*;
        let n = below(5) as usize;
        let mut all: Vec<MeshObjectData> = Vec::new();
        for i in 0..n {
            let k = below(12) as usize;
            all.push(MeshObjectData {
                name: ["a", "b"][below(2) as usize].into(),
                subindex: i as u64,
                positions: vec![AttributeData { name: "Position0".into(), data: shape(k) }],
                ..Default::default()
            });
        }
        let x = MeshExData::from_mesh_objects(&all);
        let inside = |s: &ssbh_lib::formats::mesh::BoundingSphere, p: &[P], what: &str| {
            let size = all.iter().flat_map(|o| points(&o.positions[0].data)).flatten().fold(0.0f64, |a, x| a.max(x.abs()));
            for q in p {
                let d = ((q[0] - s.center.x as f64).powi(2) + (q[1] - s.center.y as f64).powi(2) + (q[2] - s.center.z as f64).powi(2)).sqrt();
                assert!(d <= s.radius as f64 * 1.00001 + size * 2e-6 + 1e-18, "{what}: {q:?} outside of {s:?}: {all:?}");
            }
        };
        let mut first = 0;
        for g in &x.mesh_object_groups {
            let members: Vec<_> = all.iter().skip(first).take(g.entry_flags.len()).collect();
            first += g.entry_flags.len();
            assert!(!members.is_empty() && members.iter().all(|o| o.name == g.mesh_object_full_name), "{x:?}");
            let p: Vec<P> = members.iter().flat_map(|o| points(&o.positions[0].data)).collect();
            inside(&g.bounding_sphere, &p, "group");
        }
        assert!(first == all.len(), "{x:?}");
        let f = ssbh_lib::prelude::MeshEx::from(&x);
        let p: Vec<P> = all.iter().flat_map(|o| points(&o.positions[0].data)).collect();
        inside(&f.all_data.as_ref().unwrap().bounding_sphere, &p, "all groups");
    }
} }
