//! A05: uncompressed and constant tracks are lossless.
use crate::nd::*;
#[cfg(feature = "hooks")]
use binrw::{BinRead, Endian};
#[cfg(feature = "hooks")]
use ssbh_data::anim_data::{verif_hooks::*, *};
#[cfg(feature = "hooks")]
use ssbh_lib::formats::anim::{CompressionType, TrackFlags, TrackTypeV2};
#[cfg(feature = "hooks")]
use ssbh_lib::{Vector3, Vector4};
#[cfg(feature = "hooks")]
use ssbh_write::SsbhWrite;
#[cfg(feature = "hooks")]
use std::io::Cursor;

/// Any bytes are one frame, which is written as exactly those bytes, at any place.
#[cfg(feature = "hooks")]
fn frame<T, const N: usize, const M: usize>()
where
    T: for<'a> BinRead<Args<'a> = ()> + SsbhWrite,
{
    let b: [u8; N] = any();
    let mut r = crate::env::Straight { b, pos: 0 };
    let v = match T::read_options(&mut r, Endian::Little, ()) {
        Ok(v) => v,
        Err(_) => unreachable!(),
    };
    assert!(r.pos == N && v.size_in_bytes() == N as u64);
    let mut out = [0xAAu8; M];
    let mut w = Cursor::new(&mut out[..]);
    w.set_position(4);
    let mut dp = 0;
    v.ssbh_write(&mut w, &mut dp).unwrap();
    assert!(w.position() == 4 + N as u64);
    let i = below(M as u64) as usize;
    assert!(out[i] == if i < 4 || i >= 4 + N { 0xAA } else { b[i - 4] });
    reach!(i >= 4 && i < 4 + N, "inside");
    leak(v);
}

/// A track without compression, any frames: exactly the frames.
#[cfg(feature = "hooks")]
fn direct(v: TrackValues, t: TrackTypeV2, c: CompressionType, compensate: bool, n: usize) -> (TrackValues, bool) {
    let mut out = [0u8; 96];
    let mut w = Cursor::new(&mut out[..]);
    write_track_values(&v, &mut w, c, compensate).unwrap();
    let len = w.position() as usize;
    leak(v);
    match read_track_values(&out[..len], TrackFlags { track_type: t, compression_type: c }, n) {
        Ok(x) => x,
        Err(e) => {
            leak(e);
            unreachable!()
        }
    }
}
#[cfg(feature = "hooks")]
fn any_kind() -> CompressionType {
    match below(3) {
        0 => CompressionType::Direct,
        1 => CompressionType::Constant,
        _ => CompressionType::ConstTransform,
    }
}
#[cfg(feature = "hooks")]
fn v3() -> Vector3 {
    Vector3::new(any(), any(), any())
}
#[cfg(feature = "hooks")]
fn v4() -> Vector4 {
    Vector4::new(any(), any(), any(), any())
}
#[cfg(feature = "hooks")]
fn eq3(a: &Vector3, b: &Vector3) -> bool {
    a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits() && a.z.to_bits() == b.z.to_bits()
}
#[cfg(feature = "hooks")]
fn eq4(a: &Vector4, b: &Vector4) -> bool {
    a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits() && a.z.to_bits() == b.z.to_bits() && a.w.to_bits() == b.w.to_bits()
}

contracts! { kani {
    /// A stored transform frame: 44 bytes, none of them lost, for every bit pattern.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_frame_transform() { frame::<UncompressedTransform, 44, 52>() }
    /// A stored texture transform frame: 20 bytes.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_frame_uv() { frame::<UvTransform, 20, 28>() }
    /// A stored vector frame: 16 bytes.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_frame_vector4() { frame::<Vector4, 16, 24>() }
    /// Stored float, index and boolean frames: 4, 4 and 1 bytes.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_frame_scalar() { frame::<f32, 4, 12>(); frame::<u32, 4, 12>(); frame::<Boolean, 1, 9>() }
    /// A transform and its stored form convert into each other without loss for every value and either scale flag.
    #[cfg(feature = "hooks")]
    fn p_convert() {
        let t = Transform { scale: v3(), rotation: v4(), translation: v3() };
        let c: bool = any();
        let u = UncompressedTransform::from_transform(&t, c);
        assert!((u.compensate_scale != 0) == c && u.compensate_scale <= 1);
        let b = Transform::from(&u);
        assert!(eq3(&b.scale, &t.scale) && eq4(&b.rotation, &t.rotation) && eq3(&b.translation, &t.translation));
        let x: bool = any();
        assert!(bool::from(&Boolean::from(&x)) == x && bool::from(Boolean::from(x)) == x);
        reach!(c, "flag");
    }
    /// [bounded: one frame, any value] a constant transform track, with either scale flag.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_transform() {
        let t = Transform { scale: v3(), rotation: v4(), translation: v3() };
        let c = any();
        let (b, d) = direct(TrackValues::Transform(vec![t]), TrackTypeV2::Transform, CompressionType::ConstTransform, c, 1);
        assert!(d == c);
        assert!(matches!(&b, TrackValues::Transform(v) if v.len() == 1 && eq3(&v[0].scale, &t.scale) && eq4(&v[0].rotation, &t.rotation) && eq3(&v[0].translation, &t.translation)));
        reach!(c, "flag");
        leak(b);
    }
    /// [bounded: two frames, any values] a float track.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_float() {
        let x: [f32; 2] = any();
        let (b, _) = direct(TrackValues::Float(vec![x[0], x[1]]), TrackTypeV2::Float, CompressionType::Direct, any(), 2);
        assert!(matches!(&b, TrackValues::Float(v) if v.len() == 2 && v[0].to_bits() == x[0].to_bits() && v[1].to_bits() == x[1].to_bits()));
        reach!(true, "read");
        leak(b);
    }
    /// [bounded: two frames, any values] a pattern index track.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_index() {
        let x: [u32; 2] = any();
        let (b, _) = direct(TrackValues::PatternIndex(vec![x[0], x[1]]), TrackTypeV2::PatternIndex, CompressionType::Constant, any(), 2);
        assert!(matches!(&b, TrackValues::PatternIndex(v) if v.len() == 2 && v[0] == x[0] && v[1] == x[1]));
        reach!(true, "read");
        leak(b);
    }
    /// [bounded: two frames, any values] a boolean track.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_bool() {
        let x: [bool; 2] = any();
        let (b, _) = direct(TrackValues::Boolean(vec![x[0], x[1]]), TrackTypeV2::Boolean, CompressionType::Direct, any(), 2);
        assert!(matches!(&b, TrackValues::Boolean(v) if v.len() == 2 && v[0] == x[0] && v[1] == x[1]));
        reach!(true, "read");
        leak(b);
    }
    /// [bounded: one frame, any value] a vector track.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_vector4() {
        let x = v4();
        let (b, _) = direct(TrackValues::Vector4(vec![x]), TrackTypeV2::Vector4, CompressionType::Constant, any(), 1);
        assert!(matches!(&b, TrackValues::Vector4(v) if v.len() == 1 && eq4(&v[0], &x)));
        reach!(true, "read");
        leak(b);
    }
    /// [bounded: one frame, any value] a texture transform track.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_uv() {
        let x = UvTransform { scale_u: any(), scale_v: any(), rotation: any(), translate_u: any(), translate_v: any() };
        let (b, _) = direct(TrackValues::UvTransform(vec![x]), TrackTypeV2::UvTransform, CompressionType::Constant, any(), 1);
        assert!(matches!(&b, TrackValues::UvTransform(v) if v.len() == 1 && v[0].scale_u.to_bits() == x.scale_u.to_bits() && v[0].scale_v.to_bits() == x.scale_v.to_bits()
            && v[0].rotation.to_bits() == x.rotation.to_bits() && v[0].translate_u.to_bits() == x.translate_u.to_bits() && v[0].translate_v.to_bits() == x.translate_v.to_bits()));
        reach!(true, "read");
        leak(b);
    }
} native {
    /// [bounded: generated tracks of up to 40 frames] writing without compression and reading back gives bit for bit the same frames of every type and the scale flag.
    #[cfg(feature = "hooks")]
    fn n_direct() {
        use crate::anim;
        let n = below(40) as usize;
        let kind = below(6);
        let mut v = anim::values(kind, n);
        raw(&mut v);
        let c = any_kind();
        let compensate: bool = any();
        let mut w = Cursor::new(Vec::new());
        write_track_values(&v, &mut w, c, compensate).unwrap();
        let f = w.into_inner();
        assert!(f.len() == n * [44, 20, 4, 4, 1, 16][kind as usize]);
        let t = [TrackTypeV2::Transform, TrackTypeV2::UvTransform, TrackTypeV2::Float, TrackTypeV2::PatternIndex, TrackTypeV2::Boolean, TrackTypeV2::Vector4][kind as usize];
        let (b, d) = read_track_values(&f, TrackFlags { track_type: t, compression_type: c }, n).unwrap();
        assert!(anim::same(&v, &b), "{v:?} becomes {b:?}");
        assert!(n == 0 || d == (compensate && kind == 0), "scale flag");
    }
    /// [bounded: generated tracks of 0 to 4 frames] short tracks through an animation file are lossless, with all flags of the track. (They are never compressed.)
    fn n_short() {
        use crate::anim;
        let n = below(4) as usize;
        let kind = below(6);
        let n = if kind == 4 { n.min(3) } else { n };
        let mut v = anim::values(kind, n);
        raw(&mut v);
        let compensate = kind == 0 && n > 0 && any();
        let mut t = anim::track(v.clone(), compensate);
        t.transform_flags = ssbh_data::anim_data::TransformFlags { override_translation: any(), override_rotation: any(), override_scale: any(), override_compensate_scale: any() };
        let a = anim::anim_of(vec![t.clone()]);
        let f: ssbh_lib::prelude::Anim = (&a).try_into().unwrap();
        let b = ssbh_data::anim_data::AnimData::try_from(&f).unwrap();
        let u = &b.groups[0].nodes[0].tracks[0];
        assert!(anim::same(&v, &u.values), "{v:?} becomes {:?}", u.values);
        assert!(u.transform_flags == t.transform_flags && u.compensate_scale == compensate);
    }
} }

/// Replaces some components by arbitrary bit patterns.
#[cfg(not(kani))]
fn raw(v: &mut ssbh_data::anim_data::TrackValues) {
    use ssbh_data::anim_data::TrackValues::*;
    match v {
        Transform(v) => for t in v.iter_mut() { t.rotation.w = f32::from_bits(any()); t.scale.y = f32::from_bits(any()); },
        UvTransform(v) => for t in v.iter_mut() { t.translate_v = f32::from_bits(any()); t.scale_u = any(); },
        Float(v) => for t in v.iter_mut() { *t = f32::from_bits(any()); },
        Vector4(v) => for t in v.iter_mut() { t.z = f32::from_bits(any()); t.x = any(); },
        PatternIndex(v) => for t in v.iter_mut() { *t = any(); },
        Boolean(_) => {}
    }
}
