//! A06: animation files keep every group, node and track in place.
use crate::nd::*;
use ssbh_data::anim_data::*;
use ssbh_lib::prelude::Anim;

contracts! { kani {
    /// Exactly the versions 2.0 and 2.1 can be written, each as itself, and only with a final frame index that is not negative (and not NaN), which is kept. For every version and index.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_versions() {
        let a = AnimData { major_version: any(), minor_version: any(), final_frame_index: any(), groups: Vec::new() };
        let ok = a.major_version == 2 && a.minor_version <= 1 && a.final_frame_index >= 0.0;
        match Anim::try_from(&a) {
            Ok(f) => {
                assert!(ok);
                match &f {
                    Anim::V20 { final_frame_index, groups, buffer, .. } => assert!(a.minor_version == 0 && *final_frame_index == a.final_frame_index && groups.elements.is_empty() && buffer.elements.is_empty()),
                    Anim::V21 { final_frame_index, groups, buffer, .. } => assert!(a.minor_version == 1 && *final_frame_index == a.final_frame_index && groups.elements.is_empty() && buffer.elements.is_empty()),
                    _ => assert!(false),
                }
                reach!(a.minor_version == 1, "2.1");
                leak(f);
            }
            Err(e) => {
                assert!(!ok);
                reach!(a.major_version == 2, "rejected");
                leak(e);
            }
        }
        leak(a);
    }
    /// Each of the four override flags of a track keeps its meaning in the file and back.
    fn p_flags() {
        let f = TransformFlags { override_translation: any(), override_rotation: any(), override_scale: any(), override_compensate_scale: any() };
        let s = ssbh_lib::formats::anim::TransformFlags::from(f);
        assert!(s.override_translation() == f.override_translation && s.override_rotation() == f.override_rotation);
        assert!(s.override_scale() == f.override_scale && s.override_compensate_scale() == f.override_compensate_scale);
        assert!(TransformFlags::from(s) == f);
        reach!(f.override_scale, "set");
    }
} native {
    /// [bounded: generated animations of up to 4 groups, 4 nodes and 4 tracks of any length and type] everything comes back in place: version, final frame index, types, names, flags and each track's own values.
    fn n_anim() {
        use crate::anim;
        let name = text;
        let types = [GroupType::Transform, GroupType::Visibility, GroupType::Material, GroupType::Camera];
        let mut longest = 0;
        let mut groups = Vec::new();
        for _ in 0..below(4) {
            let mut nodes = Vec::new();
            for _ in 0..below(4) {
                let mut tracks = Vec::new();
                for _ in 0..below(4) {
                    let n = [0, 1, 2, 3, 14, 40][below(6) as usize];
                    longest = longest.max(n);
                    let kind = below(6);
                    let v = anim::values(kind, n);
                    tracks.push(TrackData {
                        name: name(), values: v, compensate_scale: kind == 0 && n > 0 && any(),
                        transform_flags: TransformFlags { override_translation: any(), override_rotation: any(), override_scale: any(), override_compensate_scale: any() },
                    });
                }
                nodes.push(NodeData { name: name(), tracks });
            }
            groups.push(GroupData { group_type: types[below(types.len() as u64) as usize], nodes });
        }
        let least = (longest as f32 - 1.0).max(0.0);
        let fin = match below(4) { 0 => least, 1 => least + below(50) as f32, 2 => least + 0.5, _ => longest as f32 };
        let mut a = AnimData { major_version: 2, minor_version: below(2) as u16, final_frame_index: fin, groups };
        let f: Anim = (&a).try_into().unwrap();
        // Offsets and sizes partition the buffer in order; the rest of the header is what was given.
        let (version, fi, gs, buffer) = match &f {
            Anim::V20 { final_frame_index, groups, buffer, .. } => (0, *final_frame_index, groups, buffer),
            Anim::V21 { final_frame_index, groups, buffer, .. } => (1, *final_frame_index, groups, buffer),
            _ => panic!("version 1.2"),
        };
        assert!(version == a.minor_version && fi == fin);
        let mut at = 0;
        for (g, h) in gs.elements.iter().zip(&a.groups) {
            assert!(g.group_type == h.group_type && g.nodes.elements.len() == h.nodes.len());
            for (n, m) in g.nodes.elements.iter().zip(&h.nodes) {
                assert!(n.name.to_str() == Some(&m.name[..]) && n.tracks.elements.len() == m.tracks.len());
                for (t, u) in n.tracks.elements.iter().zip(&m.tracks) {
                    assert!(t.name.to_str() == Some(&u.name[..]) && t.frame_count as usize == u.values.len());
                    assert!(t.data_offset as u64 == at, "track at {} instead of {at}", t.data_offset);
                    at += t.data_size;
                }
            }
        }
        assert!(gs.elements.len() == a.groups.len() && at == buffer.elements.len() as u64);
        // In memory and through the bytes of a file.
        let b = AnimData::try_from(&f).unwrap();
        let mut w = std::io::Cursor::new(Vec::new());
        a.write(&mut w).unwrap();
        let c = AnimData::read(&mut std::io::Cursor::new(w.into_inner())).unwrap();
        for b in [b, c] {
            assert!((b.major_version, b.minor_version) == (2, a.minor_version) && b.final_frame_index == fin && b.groups.len() == a.groups.len());
            for (g, h) in b.groups.iter().zip(&a.groups) {
                assert!(g.group_type == h.group_type && g.nodes.len() == h.nodes.len());
                for (n, m) in g.nodes.iter().zip(&h.nodes) {
                    assert!(n.name == m.name && n.tracks.len() == m.tracks.len());
                    for (t, u) in n.tracks.iter().zip(&m.tracks) {
                        assert!(t.name == u.name && t.transform_flags == u.transform_flags && t.compensate_scale == u.compensate_scale, "track {} becomes {}", u.name, t.name);
                        if let Err(e) = anim::close(&u.values, &t.values) {
                            panic!("track {}: {e}", u.name);
                        }
                    }
                }
            }
        }
        // Anything before the last frame of the longest track is rejected.
        if longest > 1 {
            a.final_frame_index = match below(3) { 0 => least - 1.0, 1 => least - 0.5, _ => -1.0 };
            assert!(Anim::try_from(&a).is_err(), "final frame index {} for {longest} frames", a.final_frame_index);
        }
        a.final_frame_index = [-1.0, -0.5, f32::MIN_POSITIVE * -1.0, f32::NAN, f32::NEG_INFINITY][below(5) as usize];
        assert!(Anim::try_from(&a).is_err(), "final frame index {} for {longest} frames", a.final_frame_index);
        a.final_frame_index = longest as f32;
        (a.major_version, a.minor_version) = [(1, 2), (2, 2), (1, 0), (3, 0), (0, 0), (2, 256)][below(6) as usize];
        assert!(Anim::try_from(&a).is_err(), "version {}.{}", a.major_version, a.minor_version);
    }
    /// [bounded: around 256 or around 65536 groups, nodes, tracks or frames] nothing is lost or moved in large animations.
    /// @cases=60 @ms=12000
    fn n_long() {
        let wide: bool = any();
        let n = if wide { 65530 + below(12) as usize } else { 250 + below(400) as usize };
        let track = |i: usize| TrackData { name: i.to_string(), values: TrackValues::PatternIndex(vec![i as u32]), compensate_scale: false, transform_flags: TransformFlags::default() };
        let node = |i: usize, tracks| NodeData { name: format!("n{i}"), tracks };
        let group = |nodes| GroupData { group_type: GroupType::Material, nodes };
        let groups = match below(4) {
            0 => (0..n).map(|i| group(vec![node(i, vec![track(i)])])).collect(),
            1 => vec![group((0..n).map(|i| node(i, vec![track(i)])).collect()), group(vec![node(n, vec![track(n)])])],
            2 => vec![group(vec![node(0, (0..n).map(track).collect()), node(1, vec![track(n)])])],
            _ => {
                let long = match below(3) {
                    0 => TrackValues::Boolean((0..n).map(|i| i % 3 == 0).collect()),
                    1 => TrackValues::Float((0..n).map(|i| i as f32 / 64.0).collect()),
                    _ => TrackValues::PatternIndex((0..n as u32).collect()),
                };
                vec![group(vec![node(0, vec![TrackData { values: long, ..track(0) }, track(1)])])]
            }
        };
        let a = AnimData { major_version: 2, minor_version: below(2) as u16, final_frame_index: n as f32, groups };
        let mut w = std::io::Cursor::new(Vec::new());
        a.write(&mut w).unwrap();
        let b = AnimData::read(&mut std::io::Cursor::new(w.into_inner())).unwrap();
        assert!(b.groups.len() == a.groups.len(), "{} groups become {}", a.groups.len(), b.groups.len());
        for (k, (g, h)) in a.groups.iter().zip(&b.groups).enumerate() {
            assert!(g.nodes.len() == h.nodes.len(), "{} nodes of group {k} become {}", g.nodes.len(), h.nodes.len());
            for (n, m) in g.nodes.iter().zip(&h.nodes) {
                assert!(n.name == m.name && n.tracks.len() == m.tracks.len(), "node {} with {} tracks becomes {} with {}", n.name, n.tracks.len(), m.name, m.tracks.len());
                for (t, u) in n.tracks.iter().zip(&m.tracks) {
                    assert!(t.name == u.name, "track {} becomes {}", t.name, u.name);
                    if let Err(e) = crate::anim::close(&t.values, &u.values) {
                        panic!("track {} of node {}: {e}", t.name, n.name);
                    }
                }
            }
        }
    }
} }
