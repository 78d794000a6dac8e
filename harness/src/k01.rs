//! K01: skeletons keep their hierarchy and their world transforms.
use crate::nd::*;
use ssbh_data::skel_data::*;
use ssbh_lib::Matrix4x4;

type M = [[f32; 4]; 4];
fn bits() -> M {
    let mut m = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            m[i][j] = f32::from_bits(any());
        }
    }
    m
}
fn same(a: &M, b: &M) -> bool {
    let mut ok = true;
    for i in 0..4 {
        for j in 0..4 {
            ok &= a[i][j].to_bits() == b[i][j].to_bits();
        }
    }
    ok
}

#[cfg(not(kani))]
pub mod spec {
    pub use super::*;
    pub use ssbh_lib::formats::skel::Skel;
    use std::io::Cursor;
    pub type D = [[f64; 4]; 4];

    pub const BILLBOARDS: [BillboardType; 7] = [
        BillboardType::Disabled,
        BillboardType::XAxisViewPointAligned,
        BillboardType::YAxisViewPointAligned,
        BillboardType::Unk3,
        BillboardType::XYAxisViewPointAligned,
        BillboardType::YAxisViewPlaneAligned,
        BillboardType::XYAxisViewPlaneAligned,
    ];
    pub use crate::nd::text as name;
    pub fn unit() -> f64 {
        below(1 << 20) as f64 / (1 << 19) as f64 - 1.0
    }
    /// A rotation, a scale and a translation; the columns of the matrix.
    pub fn affine() -> M {
        // Often with only some of its parts.
        let some = |p: f64| if below(3) == 0 { 0.0 } else { p };
        let (a, b, c) = match below(4) {
            0 => (0.0, 0.0, 0.0),
            _ => (some(unit() * 3.2), some(unit() * 3.2), some(unit() * 3.2)),
        };
        let s = match below(4) {
            0 => [1.0 + some(0.5 * unit()), 1.0 + some(0.5 * unit()), 1.0 + some(0.5 * unit())],
            1 => [-1.0, 1.0, 1.0],
            _ => [1.0; 3],
        };
        let rx = [[1.0, 0.0, 0.0], [0.0, a.cos(), a.sin()], [0.0, -a.sin(), a.cos()]];
        let ry = [[b.cos(), 0.0, -b.sin()], [0.0, 1.0, 0.0], [b.sin(), 0.0, b.cos()]];
        let rz = [[c.cos(), c.sin(), 0.0], [-c.sin(), c.cos(), 0.0], [0.0, 0.0, 1.0]];
        let mul = |x: [[f64; 3]; 3], y: [[f64; 3]; 3]| {
            let mut o = [[0.0; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    for k in 0..3 {
                        o[i][j] += x[k][j] * y[i][k];
                    }
                }
            }
            o
        };
        let r = mul(mul(rx, ry), rz);
        let mut m = [[0.0; 4]; 4];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = (r[i][j] * s[i]) as f32;
            }
            m[3][i] = some(4.0 * unit()) as f32;
        }
        m[3][3] = 1.0;
        m
    }
    pub fn wide(m: &M) -> D {
        m.map(|c| c.map(|x| x as f64))
    }
    /// a * b, column by column
    pub fn mul(a: &D, b: &D) -> D {
        let mut o = [[0.0; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                for k in 0..4 {
                    o[i][j] += a[k][j] * b[i][k];
                }
            }
        }
        o
    }
    pub fn norm(a: &D) -> f64 {
        a.iter().flatten().fold(0.0, |m, x| if x.abs() > m { x.abs() } else { m })
    }
    pub fn close(a: &D, b: &D, tolerance: f64) -> bool {
        (0..4).all(|i| (0..4).all(|j| (a[i][j] - b[i][j]).abs() <= tolerance))
    }
    /// The chain from the root down to bone `i`, or None if it never ends.
    pub fn chain(d: &SkelData, i: usize) -> Option<Vec<usize>> {
        let mut v = vec![i];
        let mut k = i;
        while let Some(p) = d.bones[k].parent_index {
            if p >= d.bones.len() {
                break;
            }
            v.insert(0, p);
            if v.len() > d.bones.len() + 1 {
                return None;
            }
            k = p;
        }
        Some(v)
    }
    pub fn skeleton(n: u64, transform: &dyn Fn() -> M, parents: u64) -> SkelData {
        let style = below(4);
        SkelData {
            major_version: 1,
            minor_version: 0,
            bones: (0..n)
                .map(|i| BoneData {
                    name: name(),
                    transform: transform(),
                    parent_index: match style {
                        // a tree in order
                        0 | 1 => {
                            if i == 0 || below(6) == 0 {
                                None
                            } else {
                                Some(below(i) as usize)
                            }
                        }
                        // a tree in reverse order
                        2 => {
                            if i + 1 == n || below(6) == 0 {
                                None
                            } else {
                                Some((i + 1 + below(n - i - 1)) as usize)
                            }
                        }
                        _ => {
                            if below(3) == 0 {
                                None
                            } else {
                                Some(below(n + parents) as usize)
                            }
                        }
                    },
                    billboard_type: BILLBOARDS[below(7) as usize],
                })
                .collect(),
        }
    }
    pub fn through(s: &Skel) -> Skel {
        let mut w = Cursor::new(Vec::new());
        s.write(&mut w).unwrap();
        Skel::read(&mut Cursor::new(w.into_inner())).unwrap_or_else(|e| panic!("{s:?}: {e}"))
    }
    pub fn cyclic(d: &SkelData) -> bool {
        (0..d.bones.len()).any(|i| chain(d, i).is_none())
    }
}

/// Matrices stand for words over the bones (products are trusted to be associative products); a set of indices is any set.
#[cfg(kani)]
mod ghost {
    use glam::Mat4;
    pub static mut SEEN: [bool; 8] = [false; 8];
    /// A word and the power of 8 of its length.
    pub fn word(w: u32, p: u32) -> [[f32; 4]; 4] {
        let mut m = [[0.0; 4]; 4];
        m[0][0] = f32::from_bits(w);
        m[0][1] = f32::from_bits(p);
        m
    }
    pub fn mul_mat4(a: &Mat4, b: &Mat4) -> Mat4 {
        let (a, b) = (a.to_cols_array_2d(), b.to_cols_array_2d());
        let (w, p) = (a[0][0].to_bits(), a[0][1].to_bits());
        let (v, q) = (b[0][0].to_bits(), b[0][1].to_bits());
        Mat4::from_cols_array_2d(&word(w * q + v, p * q))
    }
    /// The contract proved by p_world, of which only the relation to the bone matters.
    pub fn world(_d: &super::SkelData, b: &super::BoneData) -> Result<[[f32; 4]; 4], super::BoneTransformError> {
        let mut m = b.transform;
        m[0][1] = f32::from_bits(64);
        Ok(m)
    }
    pub fn inverse(a: &Mat4) -> Mat4 {
        let mut m = a.to_cols_array_2d();
        m[0][2] += 1.0;
        Mat4::from_cols_array_2d(&m)
    }
    pub fn state() -> std::hash::RandomState {
        unsafe { std::mem::transmute::<[u64; 2], _>([1, 2]) }
    }
    pub fn insert<T: Eq + std::hash::Hash, S: std::hash::BuildHasher, A: std::alloc::Allocator>(_s: &mut std::collections::HashSet<T, S, A>, t: T) -> bool {
        assert!(size_of::<T>() == size_of::<usize>());
        let i: usize = unsafe { std::mem::transmute_copy(&t) };
        unsafe {
            assert!(i < 8);
            let new = !SEEN[i];
            SEEN[i] = true;
            new
        }
    }
}
#[cfg(kani)]
fn bone(k: u32, parent: Option<usize>) -> BoneData {
    BoneData { name: String::new(), transform: ghost::word(k, 8), parent_index: parent, billboard_type: BillboardType::Disabled }
}

contracts! { kani {
    /// [bounded: 4 bones] whatever the parents, the world transform of a bone is the product of the transforms from the root down to it, in this order, each once; exactly a bone whose ancestors form a cycle is an error.
    #[cfg(kani)]
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(glam::Mat4::mul_mat4, ghost::mul_mat4))]
    #[cfg_attr(kani, kani::stub(std::collections::HashSet::insert, ghost::insert))]
    #[cfg_attr(kani, kani::stub(std::hash::RandomState::new, ghost::state))]
    fn p_world() {
        let mut p = [None; 4];
        for i in 0..4 {
            p[i] = if any() { Some(below(5) as usize) } else { None };
        }
        let d = SkelData { major_version: 1, minor_version: 0, bones: vec![bone(1, p[0]), bone(2, p[1]), bone(3, p[2]), bone(4, p[3])] };
        let i = below(4) as usize;
        // specification: the word from the root down
        let (mut w, mut at, mut len, mut cycle) = (i as u32 + 1, i, 8, false);
        for k in 0..5 {
            if let Some(q) = p[at] {
                if q < 4 {
                    w += (q as u32 + 1) * len;
                    len *= 8;
                    at = q;
                    cycle = k == 4;
                } else {
                    break;
                }
            } else {
                break;
            }
        }
        let r = d.calculate_world_transform(&d.bones[i]);
        leak(d);
        match r {
            Ok(m) => {
                assert!(!cycle);
                assert!(m[0][0].to_bits() == w && m[0][1].to_bits() == len);
                reach!(len == 4096, "four");
            }
            Err(e) => {
                leak(e);
                assert!(cycle);
                reach!(true, "cycle");
            }
        }
    }
    /// A stored matrix holds the columns of the transform in order and gives them back bit for bit.
    fn p_matrix() {
        let m = bits();
        let s = Matrix4x4::from_cols_array(&m);
        assert!(same(&s.to_cols_array(), &m));
        let rows = [s.col1, s.col2, s.col3, s.col4];
        for i in 0..4 {
            let r = [rows[i].x, rows[i].y, rows[i].z, rows[i].w];
            for j in 0..4 {
                assert!(r[j].to_bits() == m[i][j].to_bits());
            }
        }
    }
    /// [bounded: 1 bone, no cycle] the file has the bone's parent, billboard type, transform and world transform and the inverses of these two; exactly a parent beyond 32767 is an error.
    #[cfg(kani)]
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(glam::Mat4::mul_mat4, ghost::mul_mat4))]
    #[cfg_attr(kani, kani::stub(glam::Mat4::inverse, ghost::inverse))]
    #[cfg_attr(kani, kani::stub(SkelData::calculate_world_transform, ghost::world))]
    fn p_stored() {
        let p = if any() { Some(any::<usize>()) } else { None };
        let mut b = bone(1, p);
        b.billboard_type = BillboardType::Unk3;
        let d = SkelData { major_version: 1, minor_version: 0, bones: vec![b] };
        let storable = if let Some(i) = p { i < 32768 } else { true };
        let r = ssbh_lib::formats::skel::Skel::try_from(&d);
        leak(d);
        match r {
            Ok(s) => {
                assert!(storable);
                let ssbh_lib::formats::skel::Skel::V10 { bone_entries, world_transforms, inv_world_transforms, transforms, inv_transforms } = &s;
                let (e, w, iw, t, it) = (&bone_entries.elements, &world_transforms.elements, &inv_world_transforms.elements, &transforms.elements, &inv_transforms.elements);
                assert!(e.len() == 1 && w.len() == 1 && iw.len() == 1 && t.len() == 1 && it.len() == 1);
                assert!(e[0].index == 0);
                assert!(e[0].parent_index == match p { Some(q) => q as i16, None => -1 });
                assert!(e[0].flags.billboard_type == BillboardType::Unk3);
                let is = |m: &Matrix4x4, p: u32, inverse: f32| m.col1.x.to_bits() == 1 && m.col1.y.to_bits() == p && m.col1.z == inverse;
                assert!(is(&t[0], 8, 0.0), "transform");
                assert!(is(&it[0], 8, 1.0), "inverse of the transform");
                assert!(is(&w[0], 64, 0.0), "world transform");
                assert!(is(&iw[0], 64, 1.0), "inverse of the world transform");
                leak(s);
            }
            Err(e) => {
                assert!(!storable);
                leak(e);
            }
        }
        reach!(storable, "storable");
    }
    /// Whatever its version, a skeleton without bones is stored exactly if it is 1.0.
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_version() {
        let (major, minor): (u16, u16) = (any(), any());
        let d = SkelData { major_version: major, minor_version: minor, bones: Vec::new() };
        match ssbh_lib::formats::skel::Skel::try_from(&d) {
            Ok(s) => {
                assert!(major == 1 && minor == 0);
                leak(s);
            }
            Err(e) => {
                assert!(major != 1 || minor != 0);
                leak(e);
            }
        }
    }
} native {
    /// [bounded: up to 9 bones] names, transforms, parents and billboard types come back in order; a skeleton is rejected exactly if its hierarchy has a cycle.
    fn n_roundtrip() {
        use spec::*;
        let n = below(10);
        let d = skeleton(n, &bits, if any() { 3 } else { 0 });
        let s = match Skel::try_from(&d) {
            Ok(s) => s,
            Err(e) => {
                assert!(cyclic(&d), "rejected: {e}: {d:?}");
                return;
            }
        };
        assert!(!cyclic(&d), "a cycle is accepted: {d:?}");
        let Skel::V10 { bone_entries, world_transforms, inv_world_transforms, transforms, inv_transforms } = &s;
        for l in [bone_entries.elements.len(), world_transforms.elements.len(), inv_world_transforms.elements.len(), transforms.elements.len(), inv_transforms.elements.len()] {
            assert!(l == d.bones.len(), "{l} entries for {} bones", d.bones.len());
        }
        for (i, e) in bone_entries.elements.iter().enumerate() {
            assert!(e.index as usize == i, "bone {i} has index {}", e.index);
        }
        let b = SkelData::from(&through(&s));
        assert!((b.major_version, b.minor_version) == (1, 0));
        assert!(b.bones.len() == d.bones.len(), "{} bones become {}", d.bones.len(), b.bones.len());
        for (i, (x, y)) in d.bones.iter().zip(&b.bones).enumerate() {
            assert!(x.name == y.name && x.parent_index == y.parent_index && x.billboard_type == y.billboard_type && same(&x.transform, &y.transform), "bone {i} changed: {x:?} becomes {y:?}");
        }
    }
    /// [bounded: up to 7 bones] world transforms are the product from the root down, and the four stored matrix lists agree with each other.
    fn n_world() {
        use spec::*;
        let n = below(8);
        let d = skeleton(n, &affine, if any() { 2 } else { 0 });
        let mut worlds = Vec::new();
        for i in 0..d.bones.len() {
            let r = d.calculate_world_transform(&d.bones[i]);
            match chain(&d, i) {
                None => assert!(matches!(r, Err(BoneTransformError::CycleDetected { .. })), "the cycle above bone {i} is not detected: {d:?}"),
                Some(c) => {
                    let r = r.unwrap_or_else(|e| panic!("bone {i}: {e}: {d:?}"));
                    let mut w = wide(&d.bones[c[0]].transform);
                    let mut size = norm(&w) + 1.0;
                    for k in &c[1..] {
                        let t = wide(&d.bones[*k].transform);
                        size *= norm(&t) + 1.0;
                        w = mul(&w, &t);
                    }
                    assert!(close(&wide(&r), &w, 1e-5 * size.min(50.0 * (norm(&w) + 1.0))), "bone {i}: {r:?} instead of {w:?}");
                    worlds.push(r);
                }
            }
        }
        if cyclic(&d) {
            return;
        }
        let Skel::V10 { world_transforms, inv_world_transforms, transforms, inv_transforms, .. } = through(&Skel::try_from(&d).unwrap());
        let one = wide(&[[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]);
        for i in 0..d.bones.len() {
            assert!(same(&world_transforms.elements[i].to_cols_array(), &worlds[i]), "bone {i}: the stored world transform differs from the calculated one");
            assert!(same(&transforms.elements[i].to_cols_array(), &d.bones[i].transform), "bone {i}: the stored transform differs");
            for (m, inv, what) in [(&world_transforms, &inv_world_transforms, "world"), (&transforms, &inv_transforms, "local")] {
                let m = wide(&m.elements[i].to_cols_array());
                let inv = wide(&inv.elements[i].to_cols_array());
                let t = 2e-5 * (norm(&m) + 1.0) * (norm(&inv) + 1.0);
                assert!(close(&mul(&m, &inv), &one, t) && close(&mul(&inv, &m), &one, t), "bone {i}: the {what} inverse is wrong: {m:?} {inv:?}");
            }
        }
    }
    /// [bounded: 40 to 300 bones in one chain, a loop, or a chain into a loop] deep hierarchies end, with the right answer.
    /// @cases=400 @ms=6000
    fn n_deep() {
        use spec::*;
        let n = 40 + below(261) as usize;
        let entry = below(n as u64) as usize;
        let looped: bool = any();
        let up: bool = any();
        let place = |k: usize| if up { k } else { n - 1 - k };
        let mut parents = vec![None; n];
        for k in 0..n {
            parents[place(k)] = if k + 1 < n { Some(place(k + 1)) } else if looped { Some(place(entry)) } else { None };
        }
        let mut t = [[0.0f32; 4]; 4];
        for i in 0..4 {
            t[i][i] = 1.0;
        }
        t[3][0] = 1.0;
        let d = SkelData {
            major_version: 1,
            minor_version: 0,
            bones: parents.iter().map(|p| BoneData { name: String::new(), transform: t, parent_index: *p, billboard_type: BillboardType::Disabled }).collect(),
        };
        for k in 0..n {
            match d.calculate_world_transform(&d.bones[place(k)]) {
                Ok(w) => assert!(!looped && w[3][0] == (n - k) as f32, "{} bones above give {}", n - k, w[3][0]),
                Err(_) => assert!(looped, "a chain of {n} bones is called cyclic"),
            }
        }
        assert!(Skel::try_from(&d).is_err() == looped);
    }
    /// [bounded: translations and axis-aligned scales] a relative transform composed with its parent's gives the world transform back when the two commute, and the world transform itself without a parent.
    fn n_relative() {
        use spec::*;
        let w = affine();
        assert!(same(&calculate_relative_transform(&w, None), &w));
        let mut a = [[0.0f32; 4]; 4];
        let mut b = [[0.0f32; 4]; 4];
        for i in 0..4 {
            a[i][i] = 1.0;
            b[i][i] = 1.0;
        }
        if any() {
            for j in 0..3 {
                a[3][j] = unit() as f32;
                b[3][j] = unit() as f32;
            }
        } else {
            for j in 0..3 {
                a[j][j] = 1.0 + unit() as f32 / 2.0;
                b[j][j] = 1.0 + unit() as f32 / 2.0;
            }
        }
        let r = calculate_relative_transform(&a, Some(&b));
        assert!(close(&mul(&wide(&b), &wide(&r)), &wide(&a), 1e-5), "{a:?} relative to {b:?} is {r:?}");
    }
    /// [bounded: one pair of world transforms] the transform of a bone calculated from its world transform and its parent's gives that world transform back when accumulated.
    /// @cases=1
    fn n_relative_order() {
        use spec::*;
        let mut w = [[0.0f32; 4]; 4];
        let mut p = [[0.0f32; 4]; 4];
        for i in 0..4 {
            w[i][i] = [2.0, 4.0, 8.0, 1.0][i];
            p[i][i] = 1.0;
            p[3][i] = [1.0, 2.0, 3.0, 1.0][i];
        }
        let bone = |transform, parent_index| BoneData { name: String::new(), transform, parent_index, billboard_type: BillboardType::Disabled };
        let d = SkelData { major_version: 1, minor_version: 0, bones: vec![bone(p, None), bone(calculate_relative_transform(&w, Some(&p)), Some(0))] };
        let r = d.calculate_world_transform(&d.bones[1]).unwrap();
        assert!(close(&wide(&r), &wide(&w), 1e-5), "the world transform {w:?} under {p:?} comes back as {r:?}");
    }
    /// [bounded: generated version numbers, and parents on both sides of the largest one that can be stored] what a file cannot hold is rejected, and everything else is kept.
    /// @cases=3000 @ms=5000
    fn n_rejected() {
        use spec::*;
        let mut d = skeleton(1 + below(3), &affine, 0);
        let mut fits = !cyclic(&d);
        if any() {
            d.major_version = if any() { 1 } else { any() };
            d.minor_version = if any() { 0 } else { any() };
            fits &= (d.major_version, d.minor_version) == (1, 0);
        } else {
            let p = [32766, 32767, 32768, 65535, 65536, 65537, usize::MAX][below(7) as usize];
            let k = below(d.bones.len() as u64) as usize;
            d.bones[k].parent_index = Some(p);
            fits = !cyclic(&d) && p <= 32767;
        }
        match Skel::try_from(&d) {
            Err(_) => assert!(!fits, "rejected: {d:?}"),
            Ok(s) => {
                let b = SkelData::from(&through(&s));
                assert!(b == d, "{d:?} becomes {b:?}");
            }
        }
    }
    /// [bounded: around 256 or 33000 bones] nothing is lost or moved in large skeletons.
    /// @cases=60 @ms=8000
    fn n_long() {
        use spec::*;
        let n = if below(4) == 0 { 32760 + below(300) } else { 250 + below(400) };
        // Every bone is near the root.
        let mut d = skeleton(n, &bits, 0);
        for (i, b) in d.bones.iter_mut().enumerate() {
            b.parent_index = if i < 20 { None } else { Some(if any() { i / 20 } else { (i - 1).min(32767).min(i / 2) }) };
        }
        let s = Skel::try_from(&d).unwrap();
        let Skel::V10 { bone_entries, .. } = &s;
        for (i, e) in bone_entries.elements.iter().enumerate() {
            assert!(e.index as usize == i, "bone {i} has index {}", e.index);
        }
        let b = SkelData::from(&through(&s));
        assert!(b.bones.len() == d.bones.len(), "{} bones become {}", d.bones.len(), b.bones.len());
        for (i, (x, y)) in d.bones.iter().zip(&b.bones).enumerate() {
            assert!(x.name == y.name && x.parent_index == y.parent_index && x.billboard_type == y.billboard_type && same(&x.transform, &y.transform), "bone {i} changed: {x:?} becomes {y:?}");
        }
    }
} }
