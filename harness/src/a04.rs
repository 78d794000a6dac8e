//! A04: malformed animation data is an error.
use crate::nd::*;
#[cfg(feature = "hooks")]
use bitvec::prelude::*;
use ssbh_data::anim_data::AnimData;
#[cfg(feature = "hooks")]
use ssbh_data::anim_data::{verif_hooks::*};
#[cfg(feature = "hooks")]
use ssbh_lib::formats::anim::{CompressionType, TrackFlags, TrackTypeV2};
use ssbh_lib::prelude::Anim;

#[cfg(feature = "hooks")]
struct State {
    bits: BitVec<u8, Lsb0>,
    index: usize,
}
/// Any reader over a stream of any length, at any position; the number of bits left.
#[cfg(feature = "hooks")]
fn any_reader() -> (BitReader, usize) {
    #[cfg(kani)]
    let v = {
        let n: usize = any();
        assume(n < (1 << 40));
        let mut v: Vec<u8> = Vec::with_capacity(n);
        unsafe { v.set_len(n) };
        v
    };
    #[cfg(not(kani))]
    let v: Vec<u8> = { let n = below(12) as usize; (0..n).map(|_| any()).collect() };
    let n = v.len();
    let index = near(16) as usize;
    assume(index <= 8 * n && std::mem::size_of::<BitReader>() == std::mem::size_of::<State>());
    let s = std::mem::ManuallyDrop::new(State { bits: BitVec::from_vec(v), index });
    (unsafe { std::mem::transmute_copy(&s) }, 8 * n - index)
}
/// How far the reader moved, where `left` bits were left.
#[cfg(feature = "hooks")]
fn left(r: &BitReader) -> usize {
    let s = unsafe { &*(r as *const BitReader as *const State) };
    assert!(s.index <= s.bits.len());
    s.bits.len() - s.index
}

/// Stands for the float arithmetic, which A02 is about.
#[cfg(kani)]
fn stub_decompress(value: u32, _min: f32, _max: f32, _bit_count: std::num::NonZeroU64) -> Option<f32> {
    Some(f32::from_bits(value))
}

#[cfg(feature = "hooks")]
fn track_type(k: u64) -> TrackTypeV2 {
    [TrackTypeV2::Transform, TrackTypeV2::UvTransform, TrackTypeV2::Float, TrackTypeV2::PatternIndex, TrackTypeV2::Boolean, TrackTypeV2::Vector4][k as usize]
}
#[cfg(feature = "hooks")]
const SIZE: [usize; 6] = [44, 20, 4, 4, 1, 16];

/// An uncompressed track is accepted exactly if its bytes hold all the declared frames.
#[cfg(feature = "hooks")]
fn direct<const B: usize>(k: u64, c: CompressionType) {
    let b: [u8; B] = any();
    let n = below(B as u64 + 1) as usize;
    let count = if any() { below(4) as usize } else { any::<u32>() as usize };
    let r = read_track_values(&b[..n], TrackFlags { track_type: track_type(k), compression_type: c }, count);
    match &r {
        Ok((v, _)) => {
            assert!(count as u64 * SIZE[k as usize] as u64 <= n as u64 && v.len() == count);
            reach!(count > 0, "accepted");
        }
        Err(_) => {
            assert!(count as u64 * SIZE[k as usize] as u64 > n as u64);
            reach!(count > 1, "rejected");
        }
    }
    leak(r);
}

contracts! { kani {
    /// A float component of any width up to 32 (the widest a file may declare) from any stream at any position: its bits are consumed, or an error where the stream ends first.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(ssbh_data::anim_data::compression::decompress_f32, stub_decompress))]
    fn p_f32() {
        let (mut r, n) = any_reader();
        let c = F32Compression { min: any(), max: any(), bit_count: below(33) };
        let w = if c.min == c.max { 0 } else { c.bit_count as usize };
        let v = <f32 as CompressedData>::decompress(&mut r, &c, &any(), ());
        if w <= n {
            assert!(v.is_ok() && left(&r) == n - w);
        } else {
            assert!(v.is_err() && left(&r) == n);
            reach!(n > 0, "end of the stream");
        }
        leak(r);
    }
    /// A pattern index of any width up to 32 and any minimum: the sum of the stored number and the minimum, an error where that is no 32-bit number or the stream ends first; never a wrapped number or a panic.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_u32() {
        let (mut r, n) = any_reader();
        let c = U32Compression { min: any(), max: any(), bit_count: below(33) };
        let w = c.bit_count as usize;
        let v = <u32 as CompressedData>::decompress(&mut r, &c, &any(), ());
        match v {
            Ok(x) => {
                assert!(w <= n && left(&r) == n - w && x >= c.min && ((x - c.min) as u64) < 1 << w);
                reach!(x > c.min, "accepted");
            }
            Err(_) => {
                assert!(w > n || w > 0 && c.min as u64 + (1u64 << w) - 1 > u32::MAX as u64);
                reach!(w <= n, "overflow");
            }
        }
        leak(r);
    }
    /// A boolean of one bit (the only width that passes the header check).
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_bool() {
        let (mut r, n) = any_reader();
        let v = Boolean::decompress(&mut r, &any(), &Boolean(any()), 1);
        assert!(v.is_ok() == (n > 0));
        reach!(n == 0, "end of the stream");
        leak(r);
    }
    /// A transform without stored components but with a rotation still needs its sign bit: an error where there is none left.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_sign() {
        let (mut r, n) = any_reader();
        let f = CompressionFlags::new().with_has_scale(any()).with_uniform_scale(any()).with_has_rotation(any()).with_has_translation(any());
        let c = TransformCompression::default();
        let v = UncompressedTransform::decompress(&mut r, &c, &UncompressedTransform::default(), f);
        assert!(v.is_ok() == (n > 0 || !f.has_rotation()));
        reach!(v.is_err(), "end of the stream");
        leak(r);
    }
    /// [bounded: buffers of up to 11 bytes] an uncompressed float track of any declared frame count.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_direct_float() { direct::<11>(2, CompressionType::Direct) }
    /// [bounded: buffers of up to 9 bytes] an uncompressed pattern index track of any declared frame count.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_direct_index() { direct::<9>(3, CompressionType::Constant) }
    /// [bounded: buffers of up to 4 bytes] an uncompressed boolean track of any declared frame count.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_direct_bool() { direct::<4>(4, CompressionType::Direct) }
} native {
    /// [bounded: generated buffers] uncompressed tracks of every type are accepted exactly if their bytes hold the declared frames.
    #[cfg(feature = "hooks")]
    fn n_direct() {
        let c = [CompressionType::Direct, CompressionType::Constant, CompressionType::ConstTransform][below(3) as usize];
        direct::<100>(below(6), c)
    }
    /// [bounded: altered, cut and generated track data of every type, with any flags and frame count] reading returns: no panic, no overflow, never more frames than declared or than the data can hold, and an error where header, flags, count and buffer disagree.
    #[cfg(feature = "hooks")]
    fn n_malformed() {
        let k = below(6);
        let n = below(30) as usize;
        let v = crate::anim::values(k, n);
        let mut w = std::io::Cursor::new(Vec::new());
        let c = if below(4) == 0 { CompressionType::Direct } else { CompressionType::Compressed };
        write_track_values(&v, &mut w, c, any()).unwrap();
        let mut f = w.into_inner();
        if below(8) != 0 {
            // mostly the header and the compression
            let keep = if any() { f.len() } else { f.len().min(100) };
            let rest = f.split_off(keep);
            crate::walk::alter(&mut f, 0);
            f.extend(rest);
        }
        let k2 = if below(4) == 0 { below(6) } else { k };
        let flags = TrackFlags { track_type: track_type(k2), compression_type: if below(6) == 0 { CompressionType::Direct } else { c } };
        let count = match below(4) { 0 => any::<u32>() as usize, 1 => below(64) as usize, _ => n };
        let s = crate::mem::start();
        let r = read_track_values(&f, flags, count);
        let peak = crate::mem::peak_since(s);
        assert!(peak < (1 << 20) + 2000 * f.len(), "{peak} bytes of memory for {} bytes", f.len());
        if let Ok((got, _)) = &r {
            assert!(got.len() <= count, "{} frames where {count} are declared", got.len());
            assert!(crate::anim::kind_of(got) == k2);
            if flags.compression_type != CompressionType::Compressed {
                assert!(got.len() == count && count * SIZE[k2 as usize] <= f.len());
            } else {
                let bits = u16::from_le_bytes([f[6], f[7]]) as usize;
                let data = u32::from_le_bytes([f[8], f[9], f[10], f[11]]) as usize;
                assert!(data != 0, "a missing buffer is accepted");
                assert!(u16::from_le_bytes([f[4], f[5]]) != 0 || count == 0, "frames without default data");
                if bits == 0 {
                    assert!(got.len() == count.min(1));
                } else {
                    assert!(got.len() == count && bits * count <= 8 * f.len().saturating_sub(data), "{count} frames of {bits} bits in {} bytes", f.len().saturating_sub(data));
                }
            }
        }
    }
    /// [bounded: generated compressed tracks] a declared width other than the one the compression and the flags imply, a missing default, a missing buffer and a frame more than the buffer holds are errors.
    #[cfg(feature = "hooks")]
    fn n_inconsistent() {
        let k = below(6);
        let n = 2 + below(20) as usize;
        let v = crate::anim::values(k, n);
        let mut w = std::io::Cursor::new(Vec::new());
        write_track_values(&v, &mut w, CompressionType::Compressed, false).unwrap();
        let f = w.into_inner();
        let flags = TrackFlags { track_type: track_type(k), compression_type: CompressionType::Compressed };
        let read = |f: &[u8], n: usize| read_track_values(f, flags, n).is_ok();
        assert!(read(&f, n));
        let bits = u16::from_le_bytes([f[6], f[7]]);
        let mut g = f.clone();
        let other: u16 = if any() { bits.wrapping_add(1) } else { any() };
        g[6..8].copy_from_slice(&other.to_le_bytes());
        assert!(other == bits || !read(&g, n), "{bits} bits per frame are declared as {other}");
        let mut g = f.clone();
        g[4..6].copy_from_slice(&[0, 0]);
        assert!(!read(&g, n), "no default data");
        let mut g = f.clone();
        g[8..12].copy_from_slice(&[0; 4]);
        assert!(!read(&g, n), "no buffer");
        if bits > 0 {
            let data = u32::from_le_bytes([f[8], f[9], f[10], f[11]]) as usize;
            let max = 8 * (f.len() - data) / bits as usize;
            assert!(read(&f, max) && !read(&f, max + 1), "a frame behind the end of the buffer");
            let cut = f.len() - (1 + below((f.len() - data) as u64) as usize);
            assert!(read(&f[..cut], n) == (8 * (cut - data) >= n * bits as usize), "a cut buffer");
        }
    }
    /// [bounded: generated animation files of two tracks with altered offsets, sizes and counts] a track's data is exactly its declared part of the buffer: out of range is an error, and bytes outside of it change nothing.
    fn n_ranges() {
        use crate::anim::*;
        let tracks = (0..2).map(|_| { let n = 1 + below(20) as usize; track(values(below(6), n), any()) }).collect();
        let mut f: Anim = anim_of(tracks).try_into().unwrap();
        let base = AnimData::try_from(&f).unwrap();
        let b = match &mut f { Anim::V20 { groups, buffer, .. } | Anim::V21 { groups, buffer, .. } => (groups, buffer), _ => unreachable!() };
        let len = b.1.elements.len();
        let which = below(2) as usize;
        let t = &mut b.0.elements[0].nodes.elements[0].tracks.elements[which];
        if any() {
            // alter everything outside of the track's own bytes
            let (s, e) = (t.data_offset as usize, t.data_offset as usize + t.data_size as usize);
            let count = t.frame_count;
            let x: u8 = any();
            for (i, c) in b.1.elements.iter_mut().enumerate() {
                if i < s || i >= e { *c ^= x; }
            }
            let other = &mut b.0.elements[0].nodes.elements[0].tracks.elements[1 - which];
            other.frame_count = 0;
            other.data_size = 0;
            other.flags.compression_type = ssbh_lib::formats::anim::CompressionType::Direct;
            let got = AnimData::try_from(&f).unwrap();
            assert!(same(&got.groups[0].nodes[0].tracks[which].values, &base.groups[0].nodes[0].tracks[which].values), "{count} frames depend on bytes outside of the track");
            return;
        }
        match below(3) {
            0 => t.data_offset = crate::walk::odd(len, 0) as u32,
            1 => t.data_size = crate::walk::odd(len, t.data_offset as usize),
            _ => {
                t.data_offset = crate::walk::odd(len, 0) as u32;
                t.data_size = crate::walk::odd(len, t.data_offset as usize);
            }
        }
        let (s, n) = (t.data_offset as usize, t.data_size as usize);
        let inside = s as u128 + n as u128 <= len as u128;
        if inside && any() {
            // The same as in a file whose buffer holds nothing but this track.
            let other = &mut b.0.elements[0].nodes.elements[0].tracks.elements[1 - which];
            other.frame_count = 0;
            (other.data_offset, other.data_size) = (0, 0);
            other.flags.compression_type = ssbh_lib::formats::anim::CompressionType::Direct;
            let got = AnimData::try_from(&f);
            let b = match &mut f { Anim::V20 { groups, buffer, .. } | Anim::V21 { groups, buffer, .. } => (groups, buffer), _ => unreachable!() };
            b.1.elements = b.1.elements[s..s + n].to_vec();
            b.0.elements[0].nodes.elements[0].tracks.elements[which].data_offset = 0;
            match (got, AnimData::try_from(&f)) {
                (Ok(x), Ok(y)) => assert!(same(&x.groups[0].nodes[0].tracks[which].values, &y.groups[0].nodes[0].tracks[which].values), "{n} bytes at {s} depend on the rest of the buffer"),
                (x, y) => assert!(x.is_err() && y.is_err(), "{n} bytes at {s} are accepted because of the rest of the buffer: {x:?} {y:?}"),
            }
            return;
        }
        let got = AnimData::try_from(&f);
        assert!(inside || got.is_err(), "track data outside of the buffer");
    }
    /// [bounded: generated and altered animation files of every version] converting any file that can be read never panics. @cases=4000
    fn n_any_file() {
        let mut f = crate::walk::file_of::<Anim>();
        if any() { crate::walk::alter(&mut f, 24); }
        if let Ok(a) = Anim::read(&mut std::io::Cursor::new(&f)) {
            let _ = AnimData::try_from(&a);
        }
    }
    /// [bounded: generated version 1.2 files whose buffers start with a known header and may be cut] converting them never panics; a buffer index out of range and a cut buffer are errors. @cases=3000
    fn n_v12() {
        use ssbh_lib::formats::anim::*;
        let heads = [0x1003u32, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4308, 0x4409, 0x77];
        let need = [4usize, 8, 12, 16, 2, 52, 0, 64, 0];
        let k = below(9) as usize;
        let n = below(90) as usize;
        let mut b = heads[k].to_le_bytes().to_vec();
        b.extend(crate::walk::bytes(n));
        let short = below(5) == 0;
        if short { b.truncate(3); }
        let index = if below(4) == 0 { below(9) } else { 0 };
        let a = Anim::V12 {
            name: "a".into(), unk1: 0.0, final_frame_index: 1.0, unk2: 0.0, unk3: 0.0,
            tracks: vec![TrackV1 { name: "t".into(), track_type: TrackTypeV1::Transform, properties: vec![Property { name: "p".into(), buffer_index: index }].into() }].into(),
            buffers: vec![b.into()].into(),
        };
        let r = AnimData::try_from(&a);
        assert!(index == 0 || r.is_err(), "buffer index {index} of 1");
        assert!(index != 0 || (!short && n >= need[k]) || r.is_err(), "header {:x} with {n} bytes", heads[k]);
    }
} }
