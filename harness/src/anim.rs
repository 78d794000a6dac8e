//! Animation observers for the bounded (native) contracts of A02 to A06.
use crate::nd::*;
use ssbh_data::anim_data::*;
use ssbh_lib::prelude::Anim;
use ssbh_lib::{Vector3, Vector4};

/// One component of every frame of a track.
pub fn component(n: usize) -> Vec<f32> {
    let small = || (below(1 << 22) as f32 - (1 << 21) as f32) / [1.0f32, 1024.0, 65536.0][below(3) as usize];
    let finite = || loop {
        let f: f32 = any();
        if f.is_finite() && f.abs() < 1e18 {
            return f;
        }
    };
    match below(6) {
        0 => vec![small(); n],
        1 => vec![[0.0, 1.0, -1.0, -0.0][below(4) as usize]; n],
        2 => {
            let (a, b) = (finite(), finite());
            (0..n).map(|_| if any() { a } else { b }).collect()
        }
        3 => {
            // constant but for one frame
            let (a, b, k) = (small(), small(), below(n as u64 + 1) as usize);
            (0..n).map(|i| if i == k { b } else { a }).collect()
        }
        4 => {
            let (a, d) = (small(), small());
            (0..n).map(|i| a + d * i as f32).collect()
        }
        _ => (0..n).map(|_| small()).collect(),
    }
}

/// A rotation for every frame: a unit quaternion, with components that may be constant.
fn rotations(n: usize) -> Vec<Vector4> {
    let unit = || {
        let q: [f64; 4] = std::array::from_fn(|_| (below(1 << 20) as f64 - (1 << 19) as f64) / (1 << 19) as f64);
        let l = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
        if l < 0.01 {
            Vector4::new(0.0, 0.0, 0.0, 1.0)
        } else {
            Vector4::new((q[0] / l) as f32, (q[1] / l) as f32, (q[2] / l) as f32, (q[3] / l) as f32)
        }
    };
    let flip = |q: Vector4| if any() { Vector4::new(q.x, q.y, q.z, -q.w) } else { q };
    match below(4) {
        0 => vec![unit(); n],
        1 => {
            // the same axis, either sign of w
            let q = unit();
            (0..n).map(|_| flip(q)).collect()
        }
        2 => (0..n)
            .map(|_| {
                // around one axis only
                let a = below(1 << 16) as f32 / 1000.0;
                Vector4::new(0.0, a.sin(), 0.0, a.cos())
            })
            .collect(),
        _ => (0..n).map(|_| unit()).collect(),
    }
}

fn vec3(n: usize) -> Vec<Vector3> {
    let (x, y, z) = (component(n), component(n), component(n));
    (0..n).map(|i| Vector3::new(x[i], y[i], z[i])).collect()
}

pub fn values(kind: u64, n: usize) -> TrackValues {
    match kind {
        0 => {
            let (mut s, r, t) = (vec3(n), rotations(n), vec3(n));
            let form = below(4);
            if form > 0 {
                for v in s.iter_mut() {
                    *v = Vector3::new(v.x, v.x, v.x);
                }
            }
            if form == 1 && n > 0 {
                // Uniform but for one frame.
                let (k, axis) = (below(n as u64) as usize, below(3));
                let odd = |f: f32| if axis == 0 { -f } else { f32::from_bits(f.to_bits() ^ 1) };
                match below(3) {
                    0 => s[k].x = odd(s[k].x),
                    1 => s[k].y = odd(s[k].y),
                    _ => s[k].z = odd(s[k].z),
                }
            }
            TrackValues::Transform((0..n).map(|i| Transform { scale: s[i], rotation: r[i], translation: t[i] }).collect())
        }
        1 => {
            let c: Vec<Vec<f32>> = (0..5).map(|_| component(n)).collect();
            let uniform: bool = any();
            let odd = if uniform && n > 0 && any() { below(n as u64) as usize } else { n };
            TrackValues::UvTransform(
                (0..n)
                    .map(|i| UvTransform { scale_u: c[0][i], scale_v: if i == odd { -c[0][i] } else if uniform { c[0][i] } else { c[1][i] }, rotation: c[2][i], translate_u: c[3][i], translate_v: c[4][i] })
                    .collect(),
            )
        }
        2 => TrackValues::Float(component(n)),
        3 => {
            let base: u32 = if any() { any() } else { below(100) as u32 };
            let span = [1u64, 5, 300, 1 << 20, 1 << 24, (1 << 24) + 1, 1 << 32][below(7) as usize];
            TrackValues::PatternIndex((0..n).map(|_| base.saturating_add(below(span) as u32)).collect())
        }
        4 => TrackValues::Boolean((0..n).map(|_| any()).collect()),
        _ => {
            let c: Vec<Vec<f32>> = (0..4).map(|_| component(n)).collect();
            TrackValues::Vector4((0..n).map(|i| Vector4::new(c[0][i], c[1][i], c[2][i], c[3][i])).collect())
        }
    }
}

/// The components of every frame (a rotation's w is not stored and left out) and the signs of w.
pub fn components(v: &TrackValues) -> (Vec<Vec<f32>>, Vec<f32>) {
    let mut w = Vec::new();
    let rows: Vec<Vec<f32>> = match v {
        TrackValues::Transform(v) => v
            .iter()
            .map(|t| {
                w.push(t.rotation.w);
                vec![t.scale.x, t.scale.y, t.scale.z, t.rotation.x, t.rotation.y, t.rotation.z, t.translation.x, t.translation.y, t.translation.z]
            })
            .collect(),
        TrackValues::UvTransform(v) => v.iter().map(|t| vec![t.scale_u, t.scale_v, t.rotation, t.translate_u, t.translate_v]).collect(),
        TrackValues::Float(v) => v.iter().map(|f| vec![*f]).collect(),
        TrackValues::Vector4(v) => v.iter().map(|f| vec![f.x, f.y, f.z, f.w]).collect(),
        _ => vec![],
    };
    (rows, w)
}

pub fn kind_of(v: &TrackValues) -> u64 {
    match v {
        TrackValues::Transform(_) => 0,
        TrackValues::UvTransform(_) => 1,
        TrackValues::Float(_) => 2,
        TrackValues::PatternIndex(_) => 3,
        TrackValues::Boolean(_) => 4,
        TrackValues::Vector4(_) => 5,
    }
}

/// Bit for bit the same values.
pub fn same(a: &TrackValues, b: &TrackValues) -> bool {
    let bits = |v: &TrackValues| {
        let (r, w) = components(v);
        (r.iter().map(|r| r.iter().map(|f| f.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>(), w.iter().map(|f| f.to_bits()).collect::<Vec<_>>())
    };
    match (a, b) {
        (TrackValues::PatternIndex(a), TrackValues::PatternIndex(b)) => a == b,
        (TrackValues::Boolean(a), TrackValues::Boolean(b)) => a == b,
        _ => kind_of(a) == kind_of(b) && bits(a) == bits(b),
    }
}

/// `b` is what quantizing every component of `a` to 24 bits of its own range allows.
pub fn close(a: &TrackValues, b: &TrackValues) -> Result<(), String> {
    if kind_of(a) != kind_of(b) {
        return Err(format!("type {} becomes {}", kind_of(a), kind_of(b)));
    }
    match (a, b) {
        (TrackValues::PatternIndex(x), TrackValues::PatternIndex(y)) => return if x == y { Ok(()) } else { Err(format!("{x:?} becomes {y:?}")) },
        (TrackValues::Boolean(x), TrackValues::Boolean(y)) => return if x == y { Ok(()) } else { Err(format!("{x:?} becomes {y:?}")) },
        _ => {}
    }
    let ((ra, wa), (rb, wb)) = (components(a), components(b));
    let n = ra.len();
    let all_equal = ra.iter().all(|r| *r == ra[0]);
    if rb.len() != n && !(rb.len() == 1 && all_equal && kind_of(a) != 0) {
        return Err(format!("{n} frames become {}", rb.len()));
    }
    if n == 0 {
        return Ok(());
    }
    for k in 0..ra[0].len() {
        let min = ra.iter().map(|r| r[k]).fold(f32::INFINITY, f32::min);
        let max = ra.iter().map(|r| r[k]).fold(f32::NEG_INFINITY, f32::max);
        let step = (max as f64 - min as f64) / ((1 << 24) - 1) as f64;
        let ulp = max.abs().max(min.abs()) as f64 / (1 << 23) as f64;
        for i in 0..rb.len() {
            let (x, y) = (ra[i][k], rb[i][k]);
            let ok = if min == max { x == y } else { (x as f64 - y as f64).abs() <= 1.01 * step + 2.0 * ulp && y >= min && y <= max && (x != min || y == min) && (x != max || y == max) };
            if !ok {
                return Err(format!("frame {i} component {k}: {x} becomes {y} (range {min}..{max})"));
            }
        }
    }
    for i in 0..wb.len() {
        let r = &rb[i];
        let w2 = 1.0 - (r[3] as f64 * r[3] as f64 + r[4] as f64 * r[4] as f64 + r[5] as f64 * r[5] as f64);
        let want = w2.max(0.0).sqrt();
        let w = wb[i] as f64;
        if wa[i].is_sign_negative() != wb[i].is_sign_negative() {
            return Err(format!("frame {i}: the sign of w {} becomes {}", wa[i], wb[i]));
        }
        // The square is computed in 32-bit floats.
        if (w * w - want * want).abs() > 1e-6 {
            return Err(format!("frame {i}: w is {w}, expected {want}"));
        }
    }
    Ok(())
}

pub fn anim_of(tracks: Vec<TrackData>) -> AnimData {
    let n = tracks.iter().map(|t| t.values.len()).max().unwrap_or(0);
    AnimData {
        major_version: 2,
        minor_version: below(2) as u16,
        final_frame_index: n as f32,
        groups: vec![GroupData { group_type: GroupType::Transform, nodes: vec![NodeData { name: "node".into(), tracks }] }],
    }
}

pub fn track(values: TrackValues, compensate_scale: bool) -> TrackData {
    TrackData { name: "track".into(), values, compensate_scale, transform_flags: TransformFlags::default() }
}

/// The single track of `a` as stored: flags, frame count and its bytes.
pub fn stored(a: &Anim) -> (ssbh_lib::formats::anim::TrackFlags, u32, Vec<u8>) {
    let (groups, buffer) = match a {
        Anim::V20 { groups, buffer, .. } | Anim::V21 { groups, buffer, .. } => (groups, buffer),
        _ => unreachable!(),
    };
    let t = &groups.elements[0].nodes.elements[0].tracks.elements[0];
    let b = &buffer.elements[t.data_offset as usize..t.data_offset as usize + t.data_size as usize];
    (t.flags, t.frame_count, b.to_vec())
}

/// One track written to a file and read back.
pub fn through(v: &TrackValues, compensate: bool) -> (Anim, TrackData) {
    let a = anim_of(vec![track(v.clone(), compensate)]);
    let f: Anim = (&a).try_into().unwrap_or_else(|e: ssbh_data::anim_data::error::Error| panic!("{v:?}: {e}"));
    let b = AnimData::try_from(&f).unwrap_or_else(|e| panic!("{v:?}: {e}"));
    assert!(b.groups.len() == 1 && b.groups[0].nodes.len() == 1 && b.groups[0].nodes[0].tracks.len() == 1);
    let t = b.groups[0].nodes[0].tracks[0].clone();
    (f, t)
}

/// A compressed track takes exactly the declared number of bits for each frame.
pub fn layout(f: &Anim, v: &TrackValues) {
    use ssbh_lib::formats::anim::CompressionType;
    let (flags, count, b) = stored(f);
    assert!(count as usize == v.len(), "{} frames are declared as {count}", v.len());
    if flags.compression_type != CompressionType::Compressed {
        return;
    }
    let w16 = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]) as usize;
    let w32 = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    let (default, bits, data, frames) = (w16(4), w16(6), w32(8), w32(12));
    assert!(w16(0) == 4 && frames == v.len(), "header {:?} for {} frames", &b[..16], v.len());
    assert!(data <= b.len() && default < data, "default at {default}, data at {data} of {}", b.len());
    assert!(b.len() - data == (bits * frames + 7) / 8, "{frames} frames of {bits} bits take {} bytes", b.len() - data);
    if let (TrackValues::Boolean(_), n) = (v, bits) {
        assert!(n == 1);
    }
}

/// A02 for whole tracks.
pub fn ranges() {
    let n = 12 + below(30) as usize;
    let v = values([1, 2, 5][below(3) as usize], n);
    let (_, t) = through(&v, false);
    if let Err(e) = close(&v, &t.values) {
        panic!("{e}: {v:?}");
    }
}
