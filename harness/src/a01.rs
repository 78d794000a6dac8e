//! A01: bit-packed values are read back exactly as written.
use crate::nd::*;
#[cfg(feature = "hooks")]
use bitvec::prelude::*;
#[cfg(feature = "hooks")]
use ssbh_data::anim_data::verif_hooks::*;

#[cfg(not(kani))]
fn low(v: u64, n: u32) -> u32 {
    (v & ((1u64 << n) - 1)) as u32
}

#[cfg(all(feature = "hooks", not(kani)))]
fn stream(n: usize) -> BitWriter {
    let mut bits = BitVec::<u8, Lsb0>::new();
    bits.resize(n, false);
    BitWriter::new(bits)
}

/// Any number of bytes of any content (generated ones are few).
#[cfg(feature = "hooks")]
fn any_bytes() -> Vec<u8> {
    #[cfg(kani)]
    {
        let n: usize = any();
        assume(n < (1 << 40));
        let mut v = Vec::with_capacity(n);
        unsafe { v.set_len(n) };
        v
    }
    #[cfg(not(kani))]
    {
        let n = below(9) as usize;
        (0..n).map(|_| any()).collect()
    }
}

/// The reader and the writer are a stream and a position in it.
#[cfg(feature = "hooks")]
struct State {
    bits: BitVec<u8, Lsb0>,
    index: usize,
}

/// Any reader over a stream of any length, at any position.
#[cfg(feature = "hooks")]
fn state<T>(index: usize) -> (T, *const u8, usize) {
    let v = any_bytes();
    let (p, n) = (v.as_ptr(), v.len());
    assume(index <= 8 * n);
    assume(std::mem::size_of::<T>() == std::mem::size_of::<State>());
    let s = std::mem::ManuallyDrop::new(State { bits: BitVec::from_vec(v), index });
    (unsafe { std::mem::transmute_copy(&s) }, p, n)
}
#[cfg(feature = "hooks")]
fn index_of<T>(t: &T) -> usize {
    unsafe { (*(t as *const T as *const State)).index }
}
fn bit_at(p: *const u8, i: usize) -> bool {
    unsafe { *p.add(i / 8) >> (i % 8) & 1 == 1 }
}

#[cfg(feature = "hooks")]
fn read_any(kind: u8) {
    let index: usize = near(8) as usize;
    let (mut r, p, n) = state::<BitReader>(index);
    let w = match kind { 0 => 1, 1 => 1 + below(8), _ => 1 + below(32) } as usize;
    let got = match kind {
        0 => r.read_bit().map(|b| b as u32),
        1 => r.read_u8(w).map(|b| b as u32),
        _ => r.read_u32(w),
    };
    match got {
        Ok(x) => {
            assert!(index + w <= 8 * n);
            assert!(index_of(&r) == index + w);
            // any one bit of the value
            let i = below(32) as usize;
            assert!((x >> i & 1 == 1) == (i < w && bit_at(p, index + i)));
            reach!(index > 1000 && i < w, "read");
        }
        Err(_) => {
            assert!(index + w > 8 * n && index_of(&r) == index);
            reach!(index > 1000, "end of the stream");
        }
    }
    leak(r);
}

#[cfg(feature = "hooks")]
fn write_any(bit: bool) {
    let index: usize = near(8) as usize;
    let (mut o, p, n) = state::<BitWriter>(index);
    let w = if bit { 1 } else { 1 + below(32) as usize };
    assume(index + w <= 8 * n);
    let v: u32 = any();
    // any one bit of the stream
    let i: usize = near(index as u64) as usize;
    assume(i < 8 * n);
    let before = bit_at(p, i);
    if bit { o.write_bit(v & 1 == 1) } else { o.write(v, w) }
    let inside = i >= index && i - index < w;
    assert!(bit_at(p, i) == if inside { v >> (i - index) & 1 == 1 } else { before });
    assert!(index_of(&o) == index + w);
    reach!(inside && index > 1000, "inside");
    reach!(!inside, "outside");
    leak(o);
}

contracts! { kani {
    /// Reading a value of up to 32 bits at any position of a stream of any length: its bits and nothing else, and the position moves behind them; where the stream ends first it is an error and the position stays.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_any_u32() { read_any(2) }
    /// Reading a value of up to 8 bits at any position of a stream of any length.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_any_u8() { read_any(1) }
    /// Reading one bit at any position of a stream of any length.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_any_bit() { read_any(0) }
    /// Writing a value of up to 32 bits at any position of a stream of any length changes exactly its own bits.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_any_write() { write_any(false) }
    /// Writing one bit at any position of a stream of any length changes exactly that bit.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_any_write_bit() { write_any(true) }
} native {
    /// [bounded: generated sequences of up to 80 values] values of any widths are read back as written, in order; the stream takes the least number of bytes, the rest of the last byte is zero and reading behind the end is an error that consumes nothing.
    #[cfg(feature = "hooks")]
    fn n_sequences() {
        let n = below(80) as usize;
        let mut items = Vec::new();
        let mut total = 0usize;
        for _ in 0..n {
            let kind = below(3);
            let width = match kind { 0 => 1, 1 => 1 + below(8), _ => 1 + below(32) } as usize;
            let v = if any() { any::<u32>() } else { below(256) as u32 };
            items.push((kind, width, low(v as u64, width as u32)));
            total += width;
        }
        let mut w = stream(total);
        for (kind, width, v) in &items {
            if *kind == 0 { w.write_bit(*v == 1) } else { w.write(*v, *width) }
        }
        let f = w.into_bytes();
        assert!(f.len() == (total + 7) / 8, "{total} bits take {} bytes", f.len());
        if total % 8 != 0 {
            assert!(f[f.len() - 1] >> (total % 8) == 0, "bits behind the end are set");
        }
        let mut r = BitReader::from_slice(&f);
        for (i, (kind, width, v)) in items.iter().enumerate() {
            let got = match kind {
                0 => r.read_bit().unwrap() as u32,
                1 => r.read_u8(*width).unwrap() as u32,
                _ => r.read_u32(*width).unwrap(),
            };
            assert!(got == *v, "value {i} of width {width}: wrote {v}, read {got}");
        }
        // The padding of the last byte, then nothing.
        let rest = f.len() * 8 - total;
        assert!(r.read_u32(rest + 1).is_err() && r.read_u8(rest + 1).is_err(), "reading behind the end");
        for _ in 0..rest {
            assert!(matches!(r.read_bit(), Ok(false)), "a failed read consumed bits");
        }
        assert!(r.read_bit().is_err() && r.read_u8(1).is_err() && r.read_u32(32).is_err());
    }
    /// [bounded: generated tracks of up to 200 frames] boolean frames packed into one bit each and pattern indices packed at their width come back exactly through an animation file.
    fn n_exact_tracks() {
        use ssbh_data::anim_data::*;
        let n = 2 + below(200) as usize;
        let values = if any() {
            TrackValues::Boolean((0..n).map(|_| any()).collect())
        } else {
            let base = if any() { any::<u32>() } else { 0 };
            let span = [1u64, 7, 256, 1 << 20, 1 << 24, 1 << 32][below(6) as usize];
            TrackValues::PatternIndex((0..n).map(|_| base.saturating_add(below(span) as u32)).collect())
        };
        let a = AnimData {
            major_version: 2, minor_version: below(2) as u16, final_frame_index: n as f32,
            groups: vec![GroupData { group_type: GroupType::Visibility, nodes: vec![NodeData { name: "n".into(), tracks: vec![TrackData {
                name: "t".into(), values: values.clone(), compensate_scale: false, transform_flags: TransformFlags::default() }] }] }],
        };
        let f: ssbh_lib::prelude::Anim = (&a).try_into().unwrap();
        let b = AnimData::try_from(&f).unwrap();
        assert!(b.groups[0].nodes[0].tracks[0].values == values, "wrote {values:?}");
    }
} }
