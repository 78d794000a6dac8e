//! C02: reading follows offsets, takes what is there, and resumes behind the field.
use crate::env::*;
use crate::nd::*;
use binrw::{BinRead, BinResult, Endian};
use ssbh_lib::*;

const LE: Endian = Endian::Little;

fn u64_at(b: &[u8]) -> u64 {
    u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
}

/// The file has `len` bytes; the field starts at `p` and its bytes are `fixed`.
fn file<const N: usize>() -> (SpecReader<N>, u64, u64) {
    let p = pos();
    let len = if any() { p + N as u64 + below(256) } else { pos() };
    REFUSED.reset();
    (SpecReader::new(p, len, small_or_any()), p, len)
}

/// Field contents; generated ones are often a small offset and a small count.
fn small_or_any<const N: usize>() -> [u8; N] {
    let mut b: [u8; N] = any();
    if !cfg!(kani) && any() {
        for i in 0..N {
            if i % 8 != 0 {
                b[i] = 0;
            }
        }
    }
    b
}

fn target(p: u64, off: u64) -> Option<u64> {
    p.checked_add(off)
}

fn enum_target(r: BinResult<SsbhEnum64<TaggedItem>>, f: &SpecReader<16>, p: u64, len: u64) {
    let (off, tag) = (u64_at(&f.fixed[..8]), u64_at(&f.fixed[8..]));
    match r {
        Ok(v) => {
            assert!(f.pos == p + 16 && p + 16 <= len);
            match v.data.as_ref() {
                None => assert!(off == 0),
                Some(i) => {
                    assert!(off != 0 && Some(i.0.at) == target(p, off));
                    assert!(i.0.tag == tag);
                }
            }
            reach!(off != 0, "value");
            reach!(off == 0, "null");
            leak(v);
        }
        Err(e) => {
            leak(e);
            assert!(p + 16 > len || target(p, off).is_none() || REFUSED.any());
            assert!(off != 0 || p + 16 > len);
        }
    }
}

fn ptr<P, const N: usize>()
where
    P: BinRead + Default + PartialEq + Into<u64>,
    for<'a> P: BinRead<Args<'a> = ()>,
{
    let (mut f, p, len) = file::<N>();
    let mut off = 0u64;
    for i in (0..N).rev() {
        off = off << 8 | f.fixed[i] as u64;
    }
    let n = N as u64;
    match Ptr::<P, Item>::read_options(&mut f, LE, ()) {
        Ok(v) => {
            assert!(f.pos == p + n && p + n <= len);
            match v.as_ref() {
                None => assert!(off == 0),
                Some(i) => assert!(off != 0 && i.at == off),
            }
            reach!(off != 0, "value");
            reach!(off == 0, "null");
            leak(v);
        }
        Err(e) => {
            leak(e);
            assert!(p + n > len || REFUSED.any());
        }
    }
}

/// An array whose header says `N` elements, read at any offset.
fn array<const N: usize>() {
    let p = pos();
    let off: u64 = if cfg!(kani) { any() } else { small_or_any::<8>().iter().rev().fold(0, |a, x| a << 8 | *x as u64) };
    let mut fixed = [0u8; 16];
    fixed[..8].copy_from_slice(&off.to_le_bytes());
    fixed[8] = N as u8;
    let mut f = SpecReader::new(p, u64::MAX, fixed);
    f.sure = true;
    REFUSED.reset();
    match SsbhArray::<Item>::read_options(&mut f, LE, ()) {
        Ok(v) => {
            assert!(f.pos == p + 16);
            assert!(v.elements.len() == N);
            let mut at = target(p, off);
            for i in 0..N {
                assert!(Some(v.elements[i].at) == at);
                at = Some(v.elements[i].end);
            }
            reach!(off > 0, "full");
            leak(v);
        }
        Err(e) => {
            leak(e);
            assert!(target(p, off).is_none() || REFUSED.any());
            // Even then the fields that follow are not affected.
            assert!(f.pos == p + 16 || target(p, off).is_none());
        }
    }
}

/// An element of a file that holds only so many of them.
struct Counted;
static LEFT: Cell = Cell::new();
struct Cell(std::sync::atomic::AtomicU64);
impl Cell {
    const fn new() -> Self { Cell(std::sync::atomic::AtomicU64::new(0)) }
    fn set(&self, n: u64) { self.0.store(n, std::sync::atomic::Ordering::Relaxed) }
    fn get(&self) -> u64 { self.0.load(std::sync::atomic::Ordering::Relaxed) }
}
impl BinRead for Counted {
    type Args<'a> = ();
    fn read_options<R: std::io::Read + std::io::Seek>(_: &mut R, _: binrw::Endian, _: ()) -> binrw::BinResult<Self> {
        let n = LEFT.get();
        if n == 0 {
            return Err(binrw::Error::NoVariantMatch { pos: 0 });
        }
        LEFT.set(n - 1);
        Ok(Counted)
    }
}

/// A byte buffer whose header says `N` bytes of which all but `missing` are there.
fn buffer<const N: usize>(missing: u64) {
    let p = pos();
    let off: u64 = if cfg!(kani) { any() } else { 16 + below(100) };
    assume(off >= 16 && off < LIMIT);
    let mut fixed = [0u8; 16];
    fixed[..8].copy_from_slice(&off.to_le_bytes());
    fixed[8] = N as u8;
    let len = if missing == 0 { u64::MAX } else { p + off + N as u64 - missing };
    let mut f = SpecReader::new(p, len, fixed);
    f.sure = true;
    let key: u8 = any();
    f.key = Some(key);
    match SsbhByteBuffer::read_options(&mut f, LE, ()) {
        Ok(v) => {
            assert!(missing == 0);
            assert!(f.pos == p + 16);
            assert!(v.elements.len() == N);
            for i in 0..N {
                assert!(v.elements[i] == (p + off + i as u64) as u8 ^ key);
            }
            leak(v);
        }
        Err(e) => {
            leak(e);
            assert!(missing != 0);
            assert!(f.pos == p + 16);
        }
    }
}

/// A record mixing pointers and plain fields.
#[derive(BinRead)]
struct Mixed {
    a: RelPtr64<Item>,
    b: u32,
    c: SsbhEnum64<TaggedItem>,
    d: u8,
}

contracts! { kani {
    /// A relative pointer reads its target at field position + offset, null iff the offset is 0, and the reader ends behind the field.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_relptr() {
        let (mut f, p, len) = file::<8>();
        let off = u64_at(&f.fixed);
        match RelPtr64::<Item>::read_options(&mut f, LE, ()) {
            Ok(v) => {
                assert!(f.pos == p + 8 && p + 8 <= len);
                match v.as_ref() {
                    None => assert!(off == 0),
                    Some(i) => assert!(off != 0 && Some(i.at) == target(p, off)),
                }
                reach!(off != 0, "value");
                reach!(off == 0, "null");
                leak(v);
            }
            Err(e) => {
                leak(e);
                assert!(p + 8 > len || target(p, off).is_none() || REFUSED.any());
                reach!(target(p, off).is_none(), "overflow");
            }
        }
    }
    /// A 16-bit absolute pointer reads its target at the stored address.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_ptr16() { ptr::<u16, 2>() }
    /// A 32-bit absolute pointer reads its target at the stored address.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_ptr32() { ptr::<u32, 4>() }
    /// A 64-bit absolute pointer reads its target at the stored address.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_ptr64() { ptr::<u64, 8>() }
    /// A tagged pointer passes the stored tag to its payload, read at field position + offset.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_enum64() {
        let (mut f, p, len) = file::<16>();
        let r = SsbhEnum64::<TaggedItem>::read_options(&mut f, LE, ());
        enum_target(r, &f, p, len);
    }
    /// An array with count 0 is empty, whatever its offset.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_array_0() { array::<0>() }
    /// [bounded: stored count 1] an array of one element is read at field position + offset.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn b_array_1() { array::<1>() }
    /// [bounded: stored count 2] an array reads exactly the stored number of elements, the first at field position + offset, the next where the previous one ended.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn b_array_2() { array::<2>() }
    /// [bounded: files that hold at most two elements; any stored count and offset] an array is read exactly if all the elements it counts are there, and then has that many.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn b_array_any_count() {
        let p = pos();
        let off: u64 = any();
        let count: u64 = if cfg!(kani) { any() } else { below(4) + if any() { any::<u64>() << 32 } else { 0 } };
        let there = below(3);
        LEFT.set(there);
        let mut fixed = [0u8; 16];
        fixed[..8].copy_from_slice(&off.to_le_bytes());
        fixed[8..].copy_from_slice(&count.to_le_bytes());
        let mut f = SpecReader::new(p, u64::MAX, fixed);
        f.sure = true;
        match SsbhArray::<Counted>::read_options(&mut f, LE, ()) {
            Ok(v) => {
                assert!(count <= there && v.elements.len() as u64 == count && LEFT.get() == there - count);
                assert!(f.pos == p + 16);
                reach!(count == 2, "two");
                leak(v);
            }
            Err(e) => {
                leak(e);
                assert!(count > there || target(p, off).is_none());
            }
        }
    }
    /// A record of several fields: every field is read at its own place whatever the offsets before it are.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_record() {
        let (mut f, p, _) = file::<29>();
        f.sure = cfg!(kani);
        match Mixed::read_options(&mut f, LE, ()) {
            Ok(v) => {
                assert!(f.pos == p + 29);
                let off = u64_at(&f.fixed[..8]);
                match v.a.as_ref() {
                    None => assert!(off == 0),
                    Some(i) => assert!(Some(i.at) == target(p, off)),
                }
                assert!(v.b.to_le_bytes() == f.fixed[8..12]);
                let off = u64_at(&f.fixed[12..20]);
                match v.c.data.as_ref() {
                    None => assert!(off == 0),
                    Some(i) => assert!(Some(i.0.at) == target(p + 12, off) && i.0.tag == u64_at(&f.fixed[20..28])),
                }
                assert!(v.d == f.fixed[28]);
                reach!(true, "read");
                leak(v);
            }
            Err(e) => leak(e),
        }
    }
    /// An empty byte buffer is empty, whatever its offset, and reading resumes behind the field.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_buffer_0() { buffer::<0>(0) }
} native {
    /// [bounded: byte buffers of 0, 1, 3 and 40 bytes at generated offsets, complete or one byte short] a byte buffer is exactly the stored number of bytes from field position + offset on, or an error if they are not all there; reading resumes behind the field.
    fn n_buffer() {
        match below(5) {
            0 => buffer::<0>(0),
            1 => buffer::<1>(0),
            2 => buffer::<3>(0),
            3 => buffer::<40>(0),
            _ => buffer::<40>(1 + below(40)),
        }
    }
    /// [bounded: arrays of up to 1500 or around 65536 numbers, generated offsets] arrays longer than any initial capacity keep every element.
    fn n_long_arrays() {
        let n = if below(200) == 0 { 65530 + below(12) as usize } else { below(300) as usize * 5 };
        let gap = below(40) as usize;
        let more = if any() { any::<u64>() & !0xfffff } else { 0 };
        let v: Vec<u16> = (0..n).map(|i| (i * 7) as u16 ^ gap as u16).collect();
        let mut b = vec![0u8; 16 + gap + 2 * n];
        b[..8].copy_from_slice(&(16 + gap as u64).to_le_bytes());
        b[8..16].copy_from_slice(&(n as u64).to_le_bytes());
        for (i, x) in v.iter().enumerate() {
            b[16 + gap + 2 * i..][..2].copy_from_slice(&x.to_le_bytes());
        }
        let mut f = std::io::Cursor::new(&b);
        let a = SsbhArray::<u16>::read_options(&mut f, LE, ()).unwrap();
        assert!(a.elements == v && f.position() == 16);
        let mut f = std::io::Cursor::new(&b[..b.len() - (n > 0) as usize]);
        assert!(SsbhArray::<u16>::read_options(&mut f, LE, ()).is_err() == (n > 0));
        b[8..16].copy_from_slice(&(2 * n as u64).to_le_bytes());
        let mut f = std::io::Cursor::new(&b);
        let a = SsbhByteBuffer::read_options(&mut f, LE, ()).unwrap();
        assert!(a.elements == b[16 + gap..] && f.position() == 16);
        if more > 0 {
            b[8..16].copy_from_slice(&(n as u64 + more).to_le_bytes());
            assert!(SsbhArray::<u16>::read_options(&mut std::io::Cursor::new(&b), LE, ()).is_err(), "{more} elements too many");
            b[8..16].copy_from_slice(&(2 * n as u64 + more).to_le_bytes());
            assert!(SsbhByteBuffer::read_options(&mut std::io::Cursor::new(&b), LE, ()).is_err(), "{more} bytes too many");
            b[8..16].copy_from_slice(&(2 * n as u64).to_le_bytes());
        }
        if n > 0 {
            let mut f = std::io::Cursor::new(&b[..b.len() - 1]);
            assert!(SsbhByteBuffer::read_options(&mut f, LE, ()).is_err() && f.position() == 16);
        }
    }
} }
