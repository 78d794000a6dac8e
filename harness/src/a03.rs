//! A03: compressed tracks decode every component of every frame.
use crate::nd::*;
#[cfg(feature = "hooks")]
use bitvec::prelude::*;
#[cfg(feature = "hooks")]
use ssbh_data::anim_data::{verif_hooks::*, *};
#[cfg(feature = "hooks")]
use ssbh_lib::{Vector3, Vector4};

/// The contract of the bit stream (A01) as a list of the values in it and their widths: what was
/// written is read back in order when the widths agree. The float arithmetic (A02) is replaced by an
/// arbitrary function of its arguments.
#[cfg(kani)]
mod ghost {
    use super::*;
    pub static mut LOG: [(u32, usize); 12] = [(0, 0); 12];
    pub static mut W: usize = 0;
    pub static mut R: usize = 0;
    pub static mut BITS: usize = 0;
    pub fn mask(v: u32, n: usize) -> u32 {
        if n < 32 { v & ((1u32 << n) - 1) } else { v }
    }
    pub fn write(_: &mut BitWriter, value: u32, bit_count: usize) {
        assert!(bit_count >= 1 && bit_count <= 32);
        unsafe {
            LOG[W] = (mask(value, bit_count), bit_count);
            W += 1;
            BITS += bit_count;
        }
    }
    pub fn write_bit(w: &mut BitWriter, value: bool) {
        write(w, value as u32, 1)
    }
    fn next(n: usize) -> u32 {
        unsafe {
            assert!(R < W);
            let (v, w) = LOG[R];
            assert!(n == w);
            R += 1;
            v
        }
    }
    pub fn read_u32(_: &mut BitReader, n: usize) -> Result<u32, BitReadError> {
        Ok(next(n))
    }
    pub fn read_u8(_: &mut BitReader, n: usize) -> Result<u8, BitReadError> {
        assert!(n <= 8);
        Ok(next(n) as u8)
    }
    pub fn read_bit(_: &mut BitReader) -> Result<bool, BitReadError> {
        Ok(next(1) != 0)
    }
    /// All that was written has been read.
    pub fn done(bits: u64) {
        unsafe { assert!(R == W && BITS as u64 == bits) }
    }
    pub fn compress(value: f32, min: f32, max: f32, n: std::num::NonZeroU64) -> u32 {
        mask(value.to_bits() ^ min.to_bits().rotate_left(3) ^ max.to_bits().rotate_left(5), n.get() as usize)
    }
    pub fn decompress(value: u32, min: f32, max: f32, n: std::num::NonZeroU64) -> Option<f32> {
        Some(f32::from_bits(value ^ min.to_bits().rotate_left(7) ^ max.to_bits().rotate_left(11) ^ (n.get() as u32) << 8))
    }
    pub fn w(r: &mut BitReader, xyz: Vector3) -> f32 {
        let m = f32::from_bits((xyz.x.to_bits() ^ xyz.y.to_bits().rotate_left(3) ^ xyz.z.to_bits().rotate_left(5)) >> 1);
        match r.read_bit() {
            Ok(b) => if b { -m } else { m },
            Err(_) => unreachable!(),
        }
    }
}

/// Any component as the writer makes them: an empty range has no width (natively at most 24 bits).
#[cfg(feature = "hooks")]
fn comp() -> F32Compression {
    #[cfg(kani)]
    {
        let (min, max): (f32, f32) = (any(), any());
        F32Compression { min, max, bit_count: if min == max { 0 } else { below(33) } }
    }
    #[cfg(not(kani))]
    {
        let min = below(1 << 16) as f32 / 16.0 - 2048.0;
        let max = min + below(1 << 10) as f32 / 8.0;
        F32Compression { min, max, bit_count: if min == max { 0 } else { below(25) } }
    }
}
/// Any value of the component.
#[cfg(feature = "hooks")]
fn value(c: &F32Compression) -> f32 {
    #[cfg(kani)]
    {
        let _ = c;
        any()
    }
    #[cfg(not(kani))]
    {
        c.min + (c.max - c.min) * (below(1 << 12) as f32 / (1 << 12) as f32)
    }
}
/// What a component is read back as.
#[cfg(feature = "hooks")]
fn want(v: f32, d: f32, c: &F32Compression) -> u32 {
    if c.bit_count == 0 || c.min == c.max {
        return d.to_bits();
    }
    #[cfg(kani)]
    {
        let n = std::num::NonZeroU64::new(c.bit_count).unwrap();
        ghost::decompress(ghost::compress(v, c.min, c.max, n), c.min, c.max, n).unwrap().to_bits()
    }
    #[cfg(not(kani))]
    {
        let mut w = BitWriter::new(BitVec::<u8, Lsb0>::repeat(false, 32));
        <f32 as CompressedData>::compress(&v, &mut w, c, CompressionFlags::new());
        let mut r = BitReader::from_slice(&w.into_bytes());
        <f32 as CompressedData>::decompress(&mut r, c, &d, ()).unwrap().to_bits()
    }
}
#[cfg(feature = "hooks")]
fn comp3() -> Vector3Compression {
    Vector3Compression { x: comp(), y: comp(), z: comp() }
}
#[cfg(feature = "hooks")]
fn v3(c: &Vector3Compression) -> Vector3 {
    Vector3::new(value(&c.x), value(&c.y), value(&c.z))
}
/// The flags the writer uses for a track with or without uniform scale.
#[cfg(feature = "hooks")]
fn flags(uniform: bool) -> CompressionFlags {
    CompressionFlags::new().with_has_scale(true).with_uniform_scale(uniform).with_has_rotation(true).with_has_translation(true)
}

/// One frame through the bit stream; under Kani the stream is its contract.
#[cfg(feature = "hooks")]
fn frame<T: CompressedData>(v: &T, c: &T::Compression, d: &T, f: CompressionFlags, args: T::CompressionArgs) -> T {
    let bits = c.bit_count(f);
    #[cfg(kani)]
    {
        let mut w = BitWriter::new(BitVec::new());
        v.compress(&mut w, c, f);
        leak(w);
        let mut r = BitReader::from_slice(&[0, 0]);
        let got = T::decompress(&mut r, c, d, args);
        ghost::done(bits);
        leak(r);
        match got {
            Ok(g) => g,
            Err(_) => unreachable!(),
        }
    }
    #[cfg(not(kani))]
    {
        let mut w = BitWriter::new(BitVec::<u8, Lsb0>::repeat(false, bits as usize + 8));
        v.compress(&mut w, c, f);
        w.write(0x5a, 8);
        let mut r = BitReader::from_slice(&w.into_bytes());
        let g = T::decompress(&mut r, c, d, args).unwrap();
        assert!(r.read_u8(8).unwrap() == 0x5a, "a frame of {bits} bits reads another number of bits");
        g
    }
}

/// Every component of a transform frame comes back from its own bits, which are as many as declared.
#[cfg(feature = "hooks")]
fn transform(uniform: bool) {
    let c = TransformCompression { scale: comp3(), rotation: comp3(), translation: comp3() };
    let f = flags(uniform);
    let make = |scale: bool| {
        let r = v3(&c.rotation);
        UncompressedTransform { scale: v3(&c.scale), rotation: Vector4::new(r.x, r.y, r.z, any()), translation: v3(&c.translation), compensate_scale: scale as u32 }
    };
    let (d, v) = (make(any()), make(any()));
    let got = frame(&v, &c, &d, f, f);
    assert!(got.scale.x.to_bits() == want(v.scale.x, d.scale.x, &c.scale.x));
    if uniform {
        assert!(got.scale.y.to_bits() == got.scale.x.to_bits() && got.scale.z.to_bits() == got.scale.x.to_bits());
    } else {
        assert!(got.scale.y.to_bits() == want(v.scale.y, d.scale.y, &c.scale.y) && got.scale.z.to_bits() == want(v.scale.z, d.scale.z, &c.scale.z));
    }
    assert!(got.rotation.x.to_bits() == want(v.rotation.x, d.rotation.x, &c.rotation.x));
    assert!(got.rotation.y.to_bits() == want(v.rotation.y, d.rotation.y, &c.rotation.y));
    assert!(got.rotation.z.to_bits() == want(v.rotation.z, d.rotation.z, &c.rotation.z));
    assert!(got.rotation.w.is_sign_negative() == v.rotation.w.is_sign_negative());
    assert!(got.translation.x.to_bits() == want(v.translation.x, d.translation.x, &c.translation.x));
    assert!(got.translation.y.to_bits() == want(v.translation.y, d.translation.y, &c.translation.y));
    assert!(got.translation.z.to_bits() == want(v.translation.z, d.translation.z, &c.translation.z));
    assert!(got.compensate_scale == d.compensate_scale);
    reach!(c.bit_count(f) > 200, "wide");
    reach!(c.bit_count(f) == 1, "constant");
}

#[cfg(feature = "hooks")]
fn uv(uniform: bool) {
    let c = UvTransformCompression { scale_u: comp(), scale_v: comp(), rotation: comp(), translate_u: comp(), translate_v: comp() };
    let f = flags(uniform);
    let make = || UvTransform { scale_u: value(&c.scale_u), scale_v: value(&c.scale_v), rotation: value(&c.rotation), translate_u: value(&c.translate_u), translate_v: value(&c.translate_v) };
    let (d, v) = (make(), make());
    let got = frame(&v, &c, &d, f, f);
    assert!(got.scale_u.to_bits() == want(v.scale_u, d.scale_u, &c.scale_u));
    if uniform {
        assert!(got.scale_v.to_bits() == got.scale_u.to_bits());
    } else {
        assert!(got.scale_v.to_bits() == want(v.scale_v, d.scale_v, &c.scale_v));
    }
    assert!(got.rotation.to_bits() == want(v.rotation, d.rotation, &c.rotation));
    assert!(got.translate_u.to_bits() == want(v.translate_u, d.translate_u, &c.translate_u) && got.translate_v.to_bits() == want(v.translate_v, d.translate_v, &c.translate_v));
    reach!(c.bit_count(f) > 100, "wide");
}

contracts! { kani {
    /// Every component of a transform frame comes back from its own bits with the sign of w, for any width and range of each component, over the contracts of the bit stream (A01) and of the component arithmetic (A02); the frame takes exactly the declared bits.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::calculate_rotation_w, ghost::w))]
    fn p_transform() { transform(false) }
    /// The same with uniform scale, whose y and z are x and take no bits.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::calculate_rotation_w, ghost::w))]
    fn p_transform_uniform() { transform(true) }
    /// Every component of a vector frame, for any width and range of each component.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    fn p_vector4() {
        let c = Vector4Compression { x: comp(), y: comp(), z: comp(), w: comp() };
        let make = || Vector4::new(value(&c.x), value(&c.y), value(&c.z), value(&c.w));
        let (d, v) = (make(), make());
        let got = frame(&v, &c, &d, CompressionFlags::new(), ());
        assert!(got.x.to_bits() == want(v.x, d.x, &c.x) && got.y.to_bits() == want(v.y, d.y, &c.y));
        assert!(got.z.to_bits() == want(v.z, d.z, &c.z) && got.w.to_bits() == want(v.w, d.w, &c.w));
        reach!(c.bit_count(CompressionFlags::new()) > 100, "wide");
    }
    /// Every component of a texture transform frame, for any width and range of each component.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    fn p_uv() { uv(false) }
    /// The same with uniform scale, whose v is u and takes no bits.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    fn p_uv_uniform() { uv(true) }
    /// A float frame, for any width and range.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    fn p_float() {
        let c = comp();
        let (d, v) = (value(&c), value(&c));
        let got = frame(&v, &c, &d, CompressionFlags::new(), ());
        assert!(got.to_bits() == want(v, d, &c));
        reach!(c.bit_count == 32 && c.min != c.max, "wide");
    }
    /// A pattern index frame, for any width and range that holds it.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    fn p_index() {
        let c = U32Compression { min: any(), max: any(), bit_count: 1 + below(32) };
        let v: u32 = any();
        assume(v >= c.min && v <= c.max && ((v - c.min) as u64) < 1 << c.bit_count);
        let got = frame(&v, &c, &c.min, CompressionFlags::new(), ());
        assert!(got == v);
        reach!(c.bit_count == 32 && v > c.min, "wide");
    }
    /// A boolean frame takes one bit.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write, ghost::write))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitWriter::write_bit, ghost::write_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u32, ghost::read_u32))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_u8, ghost::read_u8))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::bitutils::BitReader::read_bit, ghost::read_bit))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::compress_f32, ghost::compress))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, ghost::decompress))]
    fn p_boolean() {
        let v: bool = any();
        let got = frame(&Boolean::from(v), &any(), &Boolean(any()), CompressionFlags::new(), 1);
        assert!(bool::from(got) == v);
        reach!(v, "true");
    }
    /// A transform frame takes the declared number of bits for any widths: the widths of its stored components and one bit for the sign of w.
    #[cfg(feature = "hooks")]
    fn p_bits() {
        let w = || below(33);
        let (s, r, t) = ([w(), w(), w()], [w(), w(), w()], [w(), w(), w()]);
        let comp = |n: u64| F32Compression { min: 0.0, max: if n == 0 { 0.0 } else { 1.0 }, bit_count: n };
        let comp3 = |n: [u64; 3]| Vector3Compression { x: comp(n[0]), y: comp(n[1]), z: comp(n[2]) };
        let c = TransformCompression { scale: comp3(s), rotation: comp3(r), translation: comp3(t) };
        let f = CompressionFlags::new().with_has_scale(any()).with_uniform_scale(any()).with_has_rotation(any()).with_has_translation(any());
        let scale = if !f.has_scale() { 0 } else if f.uniform_scale() { s[0] } else { s[0] + s[1] + s[2] };
        let rotation = if f.has_rotation() { r[0] + r[1] + r[2] + 1 } else { 0 };
        let translation = if f.has_translation() { t[0] + t[1] + t[2] } else { 0 };
        assert!(c.bit_count(f) == scale + rotation + translation);
        let u = UvTransformCompression { scale_u: comp(s[0]), scale_v: comp(s[1]), rotation: comp(r[0]), translate_u: comp(t[0]), translate_v: comp(t[1]) };
        assert!(u.bit_count(f) == s[0] + if f.uniform_scale() { 0 } else { s[1] } + r[0] + t[0] + t[1]);
        let v = Vector4Compression { x: comp(s[0]), y: comp(s[1]), z: comp(s[2]), w: comp(r[0]) };
        assert!(v.bit_count(f) == s[0] + s[1] + s[2] + r[0]);
        reach!(f.uniform_scale() && scale == 32, "uniform");
    }
} native {
    /// [bounded: generated tracks of 12 to 90 frames of every type] every frame of a compressed track comes back in order, each component within its own quantization step, exact where constant, with the sign of w; the stored bits are exactly those declared.
    fn n_tracks() {
        use crate::anim::*;
        let n = 12 + below(80) as usize;
        let kind = below(6);
        let v = values(kind, n);
        let compensate = kind == 0 && any();
        let (f, t) = through(&v, compensate);
        layout(&f, &v);
        if let Err(e) = close(&v, &t.values) {
            panic!("{e}: {v:?}");
        }
        assert!(t.compensate_scale == compensate, "scale compensation");
    }
    /// [bounded: generated tracks of around 256 and around 65536 frames] the same for long tracks.
    /// @cases=300 @ms=8000
    fn n_long() {
        use crate::anim::*;
        let n = if below(4) == 0 { 65530 + below(12) as usize } else { 250 + below(400) as usize };
        let kind = below(6);
        let v = values(kind, n);
        let compensate = kind == 0 && any();
        let (f, t) = through(&v, compensate);
        layout(&f, &v);
        if let Err(e) = close(&v, &t.values) {
            panic!("{n} frames of type {kind}: {e}");
        }
        assert!(t.compensate_scale == compensate, "scale compensation of {n} frames");
    }
    /// [bounded: generated tracks of 0 to 40 frames] the same for compressed tracks of any length, written directly.
    #[cfg(feature = "hooks")]
    fn n_direct() {
        use crate::anim;
        use ssbh_lib::formats::anim::{CompressionType, TrackFlags, TrackTypeV2};
        let n = below(40) as usize;
        let kind = below(6);
        let v = anim::values(kind, n);
        let compensate = kind == 0 && any();
        let mut w = std::io::Cursor::new(Vec::new());
        write_track_values(&v, &mut w, CompressionType::Compressed, compensate).unwrap();
        let f = w.into_inner();
        let track_type = [TrackTypeV2::Transform, TrackTypeV2::UvTransform, TrackTypeV2::Float, TrackTypeV2::PatternIndex, TrackTypeV2::Boolean, TrackTypeV2::Vector4][kind as usize];
        let (got, c) = read_track_values(&f, TrackFlags { track_type, compression_type: CompressionType::Compressed }, n).unwrap_or_else(|e| panic!("{v:?}: {e}"));
        if let Err(e) = anim::close(&v, &got) {
            panic!("{e}: {v:?}");
        }
        assert!(n == 0 || c == compensate);
        if n > 1 && got.len() == n {
            // one frame more than the buffer holds
            let more = n + 8 * 40;
            assert!(read_track_values(&f, TrackFlags { track_type, compression_type: CompressionType::Compressed }, more).is_err(), "made-up frames");
        }
    }
} }
