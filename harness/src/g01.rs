//! G01: model, helper bone, extended mesh and adjacency data convert without loss.
use crate::nd::*;
use ssbh_data::adj_data::{AdjData, AdjEntryData};
use ssbh_lib::formats::adj::{Adj, AdjEntry};
use ssbh_lib::formats::meshex::EntryFlag;

#[cfg(not(kani))]
pub mod gen {
    use super::*;
    pub use ssbh_data::{hlpb_data::*, meshex_data::*, modl_data::*};
    pub use ssbh_lib::formats::{adj::Adj, hlpb::*, meshex::MeshEx, mesh::BoundingSphere, modl::Modl};
    pub use ssbh_lib::{Ptr64, Vector3, Vector4};
    pub use std::io::Cursor;

    pub use crate::nd::text;
    pub fn float() -> f32 {
        f32::from_bits(any())
    }
    pub fn v3() -> Vector3 {
        Vector3 { x: float(), y: float(), z: float() }
    }
    pub fn v4() -> Vector4 {
        Vector4 { x: float(), y: float(), z: float(), w: float() }
    }
    pub fn b3(v: &Vector3) -> [u32; 3] {
        [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()]
    }
    pub fn b4(v: &Vector4) -> [u32; 4] {
        [v.x.to_bits(), v.y.to_bits(), v.z.to_bits(), v.w.to_bits()]
    }
    pub fn same_aim(x: &AimConstraintData, y: &AimConstraintData) -> bool {
        x.name == y.name
            && x.aim_bone_name1 == y.aim_bone_name1
            && x.aim_bone_name2 == y.aim_bone_name2
            && x.aim_type1 == y.aim_type1
            && x.aim_type2 == y.aim_type2
            && x.target_bone_name1 == y.target_bone_name1
            && x.target_bone_name2 == y.target_bone_name2
            && x.unk1 == y.unk1
            && x.unk2 == y.unk2
            && b3(&x.aim) == b3(&y.aim)
            && b3(&x.up) == b3(&y.up)
            && b4(&x.quat1) == b4(&y.quat1)
            && b4(&x.quat2) == b4(&y.quat2)
    }
    pub fn same_orient(x: &OrientConstraintData, y: &OrientConstraintData) -> bool {
        x.name == y.name
            && x.parent_bone_name1 == y.parent_bone_name1
            && x.parent_bone_name2 == y.parent_bone_name2
            && x.source_bone_name == y.source_bone_name
            && x.target_bone_name == y.target_bone_name
            && x.unk_type == y.unk_type
            && b3(&x.constraint_axes) == b3(&y.constraint_axes)
            && b4(&x.quat1) == b4(&y.quat1)
            && b4(&x.quat2) == b4(&y.quat2)
            && b3(&x.range_min) == b3(&y.range_min)
            && b3(&x.range_max) == b3(&y.range_max)
    }
    pub fn group(flags: u64) -> MeshObjectGroupData {
        MeshObjectGroupData {
            bounding_sphere: BoundingSphere { center: Vector3::new(crate::mesh::value(), crate::mesh::value(), crate::mesh::value()), radius: crate::mesh::value().abs() },
            mesh_object_full_name: text(),
            mesh_object_name: text(),
            entry_flags: (0..below(flags)).map(|_| EntryFlags { draw_model: any(), cast_shadow: any() }).collect(),
        }
    }
    /// The part of a mesh object name in front of its tags.
    pub fn stripped(n: &str) -> String {
        let cut = (0..n.len()).find(|i| n.is_char_boundary(*i) && (n[*i..].starts_with("_VIS") || n[*i..].starts_with("_O_")));
        match cut {
            Some(i) => n[..i].to_string(),
            None => n.strip_suffix("Shape").unwrap_or(n).to_string(),
        }
    }
    pub fn object_name() -> String {
        let parts = ["face", "_VIS", "_O_", "OBJShape", "Shape", "_V_", "_", "_vis", "é", "0", "_VISShape", "_o_", "Shap", "e", "_O", "_VI"];
        (0..below(5)).map(|_| parts[below(16) as usize]).collect()
    }
}

contracts! { kani {
    /// The two flags are bits 0 and 1 of the stored word and independent of each other, whatever the other bits are.
    fn p_flag() {
        let raw: u16 = any();
        let (d, c): (bool, bool) = (any(), any());
        let f = EntryFlag::from_bytes(raw.to_le_bytes());
        assert!(f.draw_model() == (raw & 1 == 1) && f.cast_shadow() == (raw & 2 == 2));
        let g = EntryFlag::new().with_draw_model(d).with_cast_shadow(c);
        assert!(g.into_bytes() == [d as u8 + 2 * c as u8, 0]);
        assert!(g.draw_model() == d && g.cast_shadow() == c);
    }
    /// [bounded: two entries, four indices] whatever the offsets, reading an adjacency file gives each entry the indices from its own offset to the next one's, or an error if there are none there.
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_adj_read() {
        let ix: [i16; 4] = any();
        let (a, b): (u32, u32) = (any(), any());
        let (m, n): (u32, u32) = (any(), any());
        let f = Adj { entries: vec![AdjEntry { mesh_object_index: m, index_buffer_offset: a }, AdjEntry { mesh_object_index: n, index_buffer_offset: b }], index_buffer: ix.to_vec() };
        let fits = a / 2 <= b / 2 && b / 2 <= 4;
        match AdjData::try_from(&f) {
            Err(e) => {
                assert!(!fits);
                leak(e);
            }
            Ok(d) => {
                assert!(fits);
                assert!(d.entries.len() == 2);
                assert!(d.entries[0].mesh_object_index == m as usize && d.entries[1].mesh_object_index == n as usize);
                let (s, t) = ((a / 2) as usize, (b / 2) as usize);
                assert!(d.entries[0].vertex_adjacency.len() == t - s && d.entries[1].vertex_adjacency.len() == 4 - t);
                let k = below(4) as usize;
                if k >= s && k < t {
                    assert!(d.entries[0].vertex_adjacency[k - s] == ix[k]);
                }
                if k >= t {
                    assert!(d.entries[1].vertex_adjacency[k - t] == ix[k]);
                }
                reach!(s == 1 && t == 3, "both");
                leak(d);
            }
        }
        leak(f);
    }
} native {
    /// [bounded: up to 5 files names and 6 entries] a model file keeps every name and entry.
    fn n_modl() {
        use gen::*;
        let d = ModlData {
            major_version: 1,
            minor_version: 7,
            model_name: text(),
            skeleton_file_name: text(),
            material_file_names: (0..below(6)).map(|_| text()).collect(),
            animation_file_name: if any() { Some(text()) } else { None },
            mesh_file_name: text(),
            entries: (0..below(7)).map(|_| ModlEntryData { mesh_object_name: text(), mesh_object_subindex: any(), material_label: text() }).collect(),
        };
        let mut w = Cursor::new(Vec::new());
        Modl::from(&d).write(&mut w).unwrap();
        let b = ModlData::from(&Modl::read(&mut Cursor::new(w.into_inner())).unwrap());
        assert!(b == d, "{d:?} becomes {b:?}");
    }
    /// [bounded: up to 4 constraints of each kind] a helper bone file keeps every constraint, and its index lists name each of them once.
    fn n_hlpb() {
        use gen::*;
        let d = HlpbData {
            major_version: 1,
            minor_version: 1,
            aim_constraints: (0..below(5))
                .map(|_| AimConstraintData {
                    name: text(),
                    aim_bone_name1: text(),
                    aim_bone_name2: text(),
                    aim_type1: text(),
                    aim_type2: text(),
                    target_bone_name1: text(),
                    target_bone_name2: text(),
                    unk1: any(),
                    unk2: any(),
                    aim: v3(),
                    up: v3(),
                    quat1: v4(),
                    quat2: v4(),
                })
                .collect(),
            orient_constraints: (0..below(5))
                .map(|_| OrientConstraintData {
                    name: text(),
                    parent_bone_name1: text(),
                    parent_bone_name2: text(),
                    source_bone_name: text(),
                    target_bone_name: text(),
                    unk_type: any(),
                    constraint_axes: v3(),
                    quat1: v4(),
                    quat2: v4(),
                    range_min: v3(),
                    range_max: v3(),
                })
                .collect(),
        };
        let mut w = Cursor::new(Vec::new());
        Hlpb::from(&d).write(&mut w).unwrap();
        let h = Hlpb::read(&mut Cursor::new(w.into_inner())).unwrap();
        let b = HlpbData::from(&h);
        assert!((b.major_version, b.minor_version) == (1, 1));
        assert!(b.aim_constraints.len() == d.aim_constraints.len() && b.orient_constraints.len() == d.orient_constraints.len(), "wrong number of constraints");
        for (x, y) in d.aim_constraints.iter().zip(&b.aim_constraints) {
            assert!(same_aim(x, y), "{x:?} becomes {y:?}");
        }
        for (x, y) in d.orient_constraints.iter().zip(&b.orient_constraints) {
            assert!(same_orient(x, y), "{x:?} becomes {y:?}");
        }
        let Hlpb::V11 { constraint_indices, constraint_types, .. } = &h;
        let (i, t) = (&constraint_indices.elements, &constraint_types.elements);
        let want = (0..d.aim_constraints.len()).map(|k| (k, ConstraintType::Aim)).chain((0..d.orient_constraints.len()).map(|k| (k, ConstraintType::Orient)));
        assert!(i.len() == t.len() && i.iter().zip(t).map(|(i, t)| (*i as usize, *t)).eq(want), "the constraint lists are {i:?} {t:?}");
    }
    /// [bounded: up to 6 groups of up to 4 entries] an extended mesh file keeps every group with its names, sphere and flags.
    fn n_meshex() {
        use gen::*;
        let d = MeshExData { mesh_object_groups: (0..below(7)).map(|_| group(5)).collect() };
        let mut w = Cursor::new(Vec::new());
        MeshEx::from(&d).write(&mut w).unwrap();
        let m = MeshEx::read(&mut Cursor::new(w.into_inner())).unwrap_or_else(|e| panic!("{d:?}: {e}"));
        let total: usize = d.mesh_object_groups.iter().map(|g| g.entry_flags.len()).sum();
        let count = m.entries.as_ref().map_or(0, |e| e.len());
        assert!(count == total && m.entry_flags.as_ref().map_or(0, |e| e.0.len()) == total, "{total} entries become {count}");
        let b = MeshExData::from(&m);
        assert!(b == d, "{d:?} becomes {b:?}");
    }
    /// [bounded: up to 4 groups, up to 8 entries in any order] reading gives every group the flags of the entries that name it, in order.
    fn n_meshex_read() {
        use gen::*;
        use ssbh_lib::formats::meshex::MeshEntry;
        let mut d = MeshExData { mesh_object_groups: (0..below(5)).map(|_| group(1)).collect() };
        let mut m = MeshEx::from(&d);
        let n = d.mesh_object_groups.len() as u64;
        let (mut es, mut fs) = (Vec::new(), Vec::new());
        for _ in 0..below(9) {
            let g = below(n + 2) as u32;
            let raw: u16 = any();
            es.push(MeshEntry { mesh_object_group_index: g, unk1: v3() });
            fs.push(EntryFlag::from_bytes(raw.to_le_bytes()));
            if (g as u64) < n {
                d.mesh_object_groups[g as usize].entry_flags.push(EntryFlags { draw_model: raw & 1 == 1, cast_shadow: raw & 2 == 2 });
            }
        }
        m.entries = Ptr64::new(es);
        m.entry_flags = Ptr64::new(ssbh_lib::formats::meshex::EntryFlags(fs));
        let mut w = Cursor::new(Vec::new());
        m.write(&mut w).unwrap();
        let b = MeshExData::from(&MeshEx::read(&mut Cursor::new(w.into_inner())).unwrap());
        assert!(b == d, "{d:?} is read as {b:?}");
    }
    /// [bounded: up to 8 objects] consecutive objects of the same name form one group with an entry each, the group's names are the full name and the part in front of the tags, and the groups follow the order of the objects.
    fn n_meshex_groups() {
        use gen::*;
        use ssbh_data::mesh_data::*;
        let names: Vec<String> = (0..3).map(|_| object_name()).collect();
        let objects: Vec<MeshObjectData> = (0..below(9))
            .map(|i| MeshObjectData {
                name: names[below(3) as usize].clone(),
                subindex: i,
                positions: if below(4) == 0 { vec![] } else { vec![AttributeData { name: String::new(), data: crate::mesh::vectors(2 + below(3), below(4) as usize, &crate::mesh::value) }] },
                ..Default::default()
            })
            .collect();
        let mut want: Vec<(String, usize)> = Vec::new();
        for o in &objects {
            match want.last_mut() {
                Some((n, k)) if *n == o.name => *k += 1,
                _ => want.push((o.name.clone(), 1)),
            }
        }
        let d = MeshExData::from_mesh_objects(&objects);
        assert!(d.mesh_object_groups.len() == want.len(), "{} groups instead of {}", d.mesh_object_groups.len(), want.len());
        for (g, (n, k)) in d.mesh_object_groups.iter().zip(&want) {
            assert!(g.mesh_object_full_name == *n && g.entry_flags.len() == *k, "{n} with {k} objects becomes {} with {}", g.mesh_object_full_name, g.entry_flags.len());
            assert!(g.mesh_object_name == stripped(n), "{n} is shortened to {} instead of {}", g.mesh_object_name, stripped(n));
            assert!(g.entry_flags.iter().all(|f| f.draw_model && f.cast_shadow));
        }
    }
    /// [bounded: up to 6 entries of up to 40 indices] an adjacency file keeps every entry's mesh and indices.
    fn n_adj() {
        use gen::*;
        let d = AdjData { entries: (0..below(7)).map(|_| AdjEntryData { mesh_object_index: any::<u32>() as usize, vertex_adjacency: (0..below(41)).map(|_| any()).collect() }).collect() };
        let f = Adj::try_from(&d).unwrap();
        let mut w = Cursor::new(Vec::new());
        f.write(&mut w).unwrap();
        let mut at = 0;
        for (e, x) in f.entries.iter().zip(&d.entries) {
            assert!(e.index_buffer_offset == at, "an entry starts at {} instead of {at}", e.index_buffer_offset);
            at += 2 * x.vertex_adjacency.len() as u32;
        }
        let b = AdjData::try_from(&Adj::read(&mut Cursor::new(w.into_inner())).unwrap()).unwrap();
        assert!(b == d, "{d:?} becomes {b:?}");
    }
    /// [bounded: 65537 to 65548 groups, two of them with objects] many groups keep their own objects and flags.
    /// @cases=3
    fn n_groups_wide() {
        use gen::*;
        let n = 65537 + below(12) as usize;
        let k = below(n as u64) as usize;
        let flags = |n: usize| (0..n).map(|i| EntryFlags { draw_model: i % 2 == 0, cast_shadow: i % 2 == 1 }).collect::<Vec<_>>();
        let d = MeshExData { mesh_object_groups: (0..n).map(|i| MeshObjectGroupData { mesh_object_name: i.to_string(), mesh_object_full_name: String::new(), entry_flags: flags(if i == k || i + 1 == n { 2 } else { 0 }), ..group(1) }).collect() };
        let mut w = Cursor::new(Vec::new());
        MeshEx::from(&d).write(&mut w).unwrap();
        let b = MeshExData::from(&MeshEx::read(&mut Cursor::new(w.into_inner())).unwrap());
        assert!(b == d, "groups change: {:?}", d.mesh_object_groups.iter().zip(&b.mesh_object_groups).position(|(x, y)| x != y));
    }
    /// [bounded: lists of around 256 and around 65536 entries] long lists keep every entry.
    /// @cases=120 @ms=9000
    fn n_long() {
        use gen::*;
        let wide: bool = any();
        let n = if wide { 65530 + below(12) as usize } else { 250 + below(400) as usize };
        match below(4) {
            0 => {
                // Long lists of groups take quadratic time to read.
                let flags = |n: usize| (0..n).map(|i| EntryFlags { draw_model: i % 3 == 0, cast_shadow: i % 5 == 1 }).collect::<Vec<_>>();
                let mut d = MeshExData { mesh_object_groups: (0..if wide { 3 } else { n }).map(|_| MeshObjectGroupData { mesh_object_name: text(), mesh_object_full_name: text(), ..group(3) }).collect() };
                if wide {
                    let k = below(3) as usize;
                    d.mesh_object_groups[k].entry_flags = flags(n);
                }
                let mut w = Cursor::new(Vec::new());
                MeshEx::from(&d).write(&mut w).unwrap();
                let b = MeshExData::from(&MeshEx::read(&mut Cursor::new(w.into_inner())).unwrap());
                assert!(b == d, "groups change: {:?}", d.mesh_object_groups.iter().zip(&b.mesh_object_groups).position(|(x, y)| x != y));
            }
            1 => {
                let mut d = AdjData { entries: (0..if wide { 4 } else { n }).map(|i| AdjEntryData { mesh_object_index: i, vertex_adjacency: (0..below(6)).map(|_| any()).collect() }).collect() };
                if wide {
                    let k = below(4) as usize;
                    d.entries[k].vertex_adjacency = (0..n).map(|i| i as i16).collect();
                }
                let mut w = Cursor::new(Vec::new());
                Adj::try_from(&d).unwrap().write(&mut w).unwrap();
                let b = AdjData::try_from(&Adj::read(&mut Cursor::new(w.into_inner())).unwrap()).unwrap();
                assert!(b == d, "entries change: {:?}", d.entries.iter().zip(&b.entries).position(|(x, y)| x != y));
            }
            2 => {
                let t = text();
                let d = ModlData {
                    major_version: 1,
                    minor_version: 7,
                    model_name: text(),
                    skeleton_file_name: text(),
                    material_file_names: (0..below(400)).map(|i| i.to_string()).collect(),
                    animation_file_name: None,
                    mesh_file_name: text(),
                    entries: (0..n).map(|i| ModlEntryData { mesh_object_name: t.clone(), mesh_object_subindex: i as u64, material_label: i.to_string() }).collect(),
                };
                let mut w = Cursor::new(Vec::new());
                Modl::from(&d).write(&mut w).unwrap();
                let b = ModlData::from(&Modl::read(&mut Cursor::new(w.into_inner())).unwrap());
                assert!(b == d, "entries change: {:?}", d.entries.iter().zip(&b.entries).position(|(x, y)| x != y));
            }
            _ => {
                let (a, o) = if wide { (n / 2, n / 2) } else { (n, n) };
                let t = text();
                let d = HlpbData {
                    major_version: 1,
                    minor_version: 1,
                    aim_constraints: (0..a).map(|i| AimConstraintData {
                        name: i.to_string(), aim_bone_name1: t.clone(), aim_bone_name2: t.clone(), aim_type1: t.clone(), aim_type2: t.clone(), target_bone_name1: t.clone(), target_bone_name2: t.clone(),
                        unk1: i as u32, unk2: 1, aim: v3(), up: v3(), quat1: v4(), quat2: v4(),
                    }).collect(),
                    orient_constraints: (0..o).map(|i| OrientConstraintData {
                        name: i.to_string(), parent_bone_name1: t.clone(), parent_bone_name2: t.clone(), source_bone_name: t.clone(), target_bone_name: t.clone(), unk_type: 2,
                        constraint_axes: v3(), quat1: v4(), quat2: v4(), range_min: v3(), range_max: v3(),
                    }).collect(),
                };
                let mut w = Cursor::new(Vec::new());
                Hlpb::from(&d).write(&mut w).unwrap();
                let h = Hlpb::read(&mut Cursor::new(w.into_inner())).unwrap();
                let b = HlpbData::from(&h);
                assert!(b.aim_constraints.len() == a && b.orient_constraints.len() == o, "wrong number of constraints");
                assert!(d.aim_constraints.iter().zip(&b.aim_constraints).all(|(x, y)| same_aim(x, y)), "aim constraints change");
                assert!(d.orient_constraints.iter().zip(&b.orient_constraints).all(|(x, y)| same_orient(x, y)), "orient constraints change");
                let Hlpb::V11 { constraint_indices, .. } = &h;
                assert!(constraint_indices.elements.iter().map(|i| *i as usize).eq((0..a).chain(0..o)), "the constraint lists change");
            }
        }
    }
    /// [bounded: up to 6 stored entries] adjacency offsets outside of the index buffer or out of order are errors, never indices of another entry.
    fn n_adj_read() {
        use gen::*;
        let ix: Vec<i16> = (0..below(20)).map(|_| any()).collect();
        let mut at = 0u32;
        let mut es = Vec::new();
        for _ in 0..below(7) {
            at = if below(8) == 0 { any() } else { at.saturating_add(2 * below(6) as u32).min(2 * ix.len() as u32 + 2) };
            es.push(AdjEntry { mesh_object_index: any(), index_buffer_offset: at });
        }
        let f = Adj { entries: es, index_buffer: ix };
        let ends: Vec<usize> = f.entries.iter().skip(1).map(|e| e.index_buffer_offset as usize / 2).chain([f.index_buffer.len()]).collect();
        let want: Option<Vec<_>> = f
            .entries
            .iter()
            .zip(&ends)
            .map(|(e, t)| f.index_buffer.get(e.index_buffer_offset as usize / 2..*t).map(|v| AdjEntryData { mesh_object_index: e.mesh_object_index as usize, vertex_adjacency: v.to_vec() }))
            .collect();
        let r = AdjData::try_from(&f);
        match (r, want) {
            (Ok(r), Some(w)) => assert!(r.entries == w, "{f:?} is read as {r:?}"),
            (Err(_), None) => {}
            (r, _) => panic!("{f:?} is read as {r:?}"),
        }
    }
} }
