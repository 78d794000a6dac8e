//! A02: quantized values stay in range and keep their end points.
use crate::nd::*;
#[cfg(feature = "hooks")]
use bitvec::prelude::*;
#[cfg(feature = "hooks")]
use ssbh_data::anim_data::verif_hooks::*;

#[cfg(feature = "hooks")]
fn stream(n: usize) -> BitWriter {
    BitWriter::new(BitVec::<u8, Lsb0>::repeat(false, n))
}

/// The stored code of `v` (four bytes always suffice).
#[cfg(feature = "hooks")]
fn code<T: CompressedData>(v: &T, c: &T::Compression) -> [u8; 4] {
    let mut w = stream(32);
    v.compress(&mut w, c, CompressionFlags::new());
    let b = w.into_bytes();
    let r = [b[0], b[1], b[2], b[3]];
    leak(b);
    r
}

#[cfg(feature = "hooks")]
fn decode_f32(b: &[u8; 4], c: &F32Compression, default: f32) -> f32 {
    let mut r = BitReader::from_slice(b);
    let v = <f32 as CompressedData>::decompress(&mut r, c, &default, ());
    leak(r);
    match v {
        Ok(v) => v,
        Err(_) => unreachable!(),
    }
}

#[cfg(feature = "hooks")]
fn unit(min: f32, max: f32, bit_count: u64) {
    let c = F32Compression { min, max, bit_count };
    let v: f32 = any();
    assume(v >= min && v <= max);
    let b = code(&v, &c);
    let q = u32::from_le_bytes(b);
    assert!((q as u64) < 1 << bit_count);
    let x = decode_f32(&b, &c, 7.5);
    assert!(x >= min && x <= max);
    assert!(v != min || x == min);
    assert!(v != max || x == max);
    let step = (max - min) / ((1u64 << bit_count) - 1) as f32;
    assert!((x - v).abs() <= 1.01 * step);
    reach!(v > min && v < max, "inside");
}

/// A range of finite width and a value in it.
#[cfg(all(feature = "hooks", not(kani)))]
fn range() -> (f32, f32, Vec<f32>) {
    let (a, b): (f32, f32) = match below(5) {
        0 => (any(), any()),
        1 => (any(), any::<f32>() + 0.25),
        2 => {
            let a: f32 = any();
            (a, f32::from_bits(a.to_bits().wrapping_add(below(9) as u32)))
        }
        3 => (-(below(1 << 20) as f32) / 64.0, below(1 << 20) as f32 / 64.0),
        _ => (f32::from_bits(any()), f32::from_bits(any())),
    };
    assume(a.is_finite() && b.is_finite() && (a - b).is_finite());
    let (min, max) = if a < b { (a, b) } else { (b, a) };
    let mut v = vec![min, max];
    let n = below(24) + 1;
    for _ in 0..n {
        let t = below(1 << 30) as f64 / ((1u64 << 30) - 1) as f64;
        let x = (min as f64 + (max as f64 - min as f64) * t) as f32;
        let y: f32 = any();
        for x in [x, f32::from_bits(x.to_bits() ^ 1), y] {
            if x >= min && x <= max {
                v.push(x);
            }
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    (min, max, v)
}

contracts! { kani {
    /// A component of width zero or with an empty range is its default, whatever the default, the range and the width, and takes no bits.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_constant() {
        let c = F32Compression { min: any(), max: any(), bit_count: any() };
        assume(c.bit_count == 0 || c.min == c.max);
        let d: f32 = any();
        assert!(c.bit_count(CompressionFlags::new()) == 0);
        let mut r = BitReader::from_slice(&[]);
        let v = <f32 as CompressedData>::decompress(&mut r, &c, &d, ());
        assert!(matches!(v, Ok(x) if x.to_bits() == d.to_bits()));
        reach!(c.bit_count == 24, "empty range");
        leak(r);
    }
    /// The width of a component is its declared one unless its range is empty.
    #[cfg(feature = "hooks")]
    fn p_width() {
        let c = F32Compression { min: any(), max: any(), bit_count: any() };
        let n = c.bit_count(CompressionFlags::new());
        assert!(n == if c.min == c.max { 0 } else { c.bit_count });
        let i = U32Compression { min: any(), max: any(), bit_count: any() };
        assert!(i.bit_count(CompressionFlags::new()) == i.bit_count);
        assert!(Compression::bit_count(&any::<u128>(), CompressionFlags::new()) == 1);
        reach!(n > 0, "width");
    }
    /// A range chosen by the writer keeps its bounds; it has no width exactly if the bounds are equal, and never more bits than a value can hold.
    #[cfg(feature = "hooks")]
    fn p_from_range() {
        let (min, max): (f32, f32) = (any(), any());
        let c = F32Compression::from_range(min, max);
        assert!(c.min.to_bits() == min.to_bits() && c.max.to_bits() == max.to_bits());
        assert!((c.bit_count == 0) == (min == max) && c.bit_count <= 24);
        reach!(c.bit_count > 0, "width");
    }
    /// Integers of every range and of every width that holds the range are exact.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_u32() {
        let c = U32Compression { min: any(), max: any(), bit_count: below(33) };
        let v: u32 = any();
        assume(c.bit_count >= 1 && v >= c.min && v <= c.max && ((v - c.min) as u64) < 1 << c.bit_count);
        let b = code(&v, &c);
        let mut r = BitReader::from_slice(&b);
        let x = <u32 as CompressedData>::decompress(&mut r, &c, &any(), ());
        assert!(matches!(x, Ok(x) if x == v));
        reach!(c.bit_count == 32 && v > 5, "32 bits");
        leak(r);
    }
    /// [bounded: three frames] the range and width the writer chooses hold every frame of a pattern index track.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_u32_range() {
        let v: [u32; 3] = any();
        let (_, c) = <u32 as CompressedData>::get_default_and_compression(&v, any());
        for i in 0..3 {
            assert!(v[i] >= c.min && v[i] <= c.max);
            assert!(c.bit_count <= 32 && ((v[i] - c.min) as u64) < 1 << c.bit_count);
        }
        reach!(c.bit_count > 24, "wide");
    }
    /// [bounded: three frames] the range and default the writer chooses hold every frame of a float track (finite values), and the default is the value where all are equal.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_f32_range() {
        let v: [f32; 3] = any();
        assume(v[0].is_finite() && v[1].is_finite() && v[2].is_finite());
        let (d, c) = <f32 as CompressedData>::get_default_and_compression(&v, any());
        for i in 0..3 {
            assert!(v[i] >= c.min && v[i] <= c.max);
            assert!(c.bit_count > 0 || d == v[i]);
        }
        assert!((v[0] == c.min || v[1] == c.min || v[2] == c.min) && (v[0] == c.max || v[1] == c.max || v[2] == c.max));
        reach!(c.bit_count > 0, "range");
    }
    /// Booleans are exact and take one bit.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_bool() {
        let v: bool = any();
        let mut w = stream(1);
        Boolean::from(v).compress(&mut w, &0, CompressionFlags::new());
        let b = w.into_bytes();
        assert!(b.len() == 1 && b[0] == v as u8);
        let mut r = BitReader::from_slice(&b);
        let x = Boolean::decompress(&mut r, &any(), &Boolean(any()), 1);
        assert!(matches!(x, Ok(x) if bool::from(x) == v));
        reach!(v, "true");
        leak(r);
        leak(b);
    }
    /// [bounded: the range 0 to 1 at 24 bits] every float of the range stays in it, within one step, with exact end points. @tier=thorough
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_unit_24() { unit(0.0, 1.0, 24) }
    /// [bounded: the range 0 to 1 at 8 bits] every float of the range stays in it, within one step, with exact end points. @tier=thorough
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_unit_8() { unit(0.0, 1.0, 8) }
    /// The first and the last code of 24 bits are the end points of every finite range. @tier=thorough
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_ends() {
        let c = F32Compression { min: any(), max: any(), bit_count: 24 };
        assume(c.min.is_finite() && c.max.is_finite() && c.min < c.max);
        assert!(decode_f32(&[0, 0, 0, 0], &c, 7.5) == c.min);
        assert!(decode_f32(&[0xff, 0xff, 0xff, 0], &c, 7.5) == c.max);
    }
} native {
    /// [bounded: generated finite ranges and values] compressing at the writer's width and decompressing keeps the range, both end points, the order, and every value within one quantization step plus float rounding.
    #[cfg(feature = "hooks")]
    fn n_f32() {
        let (min, max, vs) = range();
        let c = F32Compression::from_range(min, max);
        let d = min;
        let step = (max as f64 - min as f64) / ((1 << 24) - 1) as f64;
        let ulp = max.abs().max(min.abs()) as f64 / (1 << 23) as f64;
        let mut last = f32::NEG_INFINITY;
        for v in vs {
            let x = decode_f32(&code(&v, &c), &c, d);
            assert!(x >= min && x <= max, "{v} in {min}..{max} becomes {x}");
            assert!(v != min || x == min, "the smallest value {v} of {min}..{max} becomes {x}");
            assert!(v != max || x == max, "the largest value {v} of {min}..{max} becomes {x}");
            assert!(x >= last, "{v} in {min}..{max} becomes {x} below {last}");
            assert!((x as f64 - v as f64).abs() <= 1.01 * step + 2.0 * ulp + 1.5e-45, "{v} in {min}..{max} becomes {x}, step {step}");
            last = x;
        }
    }
    /// [bounded: generated ranges, widths and codes] every stored code of every width decodes to a value of the range, the end codes to its ends, larger codes to larger values, evenly spaced.
    #[cfg(feature = "hooks")]
    fn n_codes() {
        let (min, max, _) = range();
        assume(min < max);
        let n = 1 + below(32);
        let top = ((1u64 << n) - 1) as u32;
        let c = F32Compression { min, max, bit_count: n };
        let mut codes: Vec<u32> = (0..20).map(|_| if any() { any::<u32>() & top } else { below(top as u64 + 1) as u32 }).collect();
        codes.extend([0, top]);
        codes.sort();
        let mut last = f32::NEG_INFINITY;
        for q in codes {
            let x = decode_f32(&q.to_le_bytes(), &c, 7.5);
            let want = min as f64 + (max as f64 - min as f64) * (q as f64 / top as f64);
            let ulp = max.abs().max(min.abs()) as f64 / (1 << 23) as f64;
            assert!(x >= min && x <= max && x >= last, "code {q}/{top} of {min}..{max} is {x}");
            assert!((x as f64 - want).abs() <= ulp + 1.5e-45, "code {q}/{top} of {min}..{max} is {x}, expected {want}");
            assert!(q != 0 || x == min, "code 0 of {min}..{max} is {x}");
            assert!(q != top || x == max, "code {q} of {min}..{max} is {x}");
            last = x;
        }
    }
    /// [bounded: generated tracks] float, vector and UV tracks through an animation file stay in the range of each component and keep its smallest and largest value.
    fn n_tracks() { crate::anim::ranges() }
} }
