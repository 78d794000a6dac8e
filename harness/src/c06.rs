//! C06: strings are null terminated and text survives unchanged.
use crate::env::*;
use crate::nd::*;
use binrw::{BinRead, Endian};
use ssbh_lib::*;
use ssbh_write::SsbhWrite;

const LE: Endian = Endian::Little;

/// Text of any length (under the verifier: of any length and with any content).
fn any_text(nonempty: bool) -> Vec<u8> {
    #[cfg(kani)]
    {
        let n: usize = any();
        assume(n < (1 << 40) && (n > 0) == nonempty);
        let mut v = Vec::with_capacity(n);
        unsafe { v.set_len(n) };
        v
    }
    #[cfg(not(kani))]
    {
        if nonempty {
            let n = below(40) as usize + 1;
            (0..n).map(|_| any::<u8>().max(1)).collect()
        } else {
            Vec::new()
        }
    }
}

/// The string type stores its bytes and nothing else.
fn cstring<const N: usize>(v: Vec<u8>) -> CString<N> {
    assume(std::mem::size_of::<CString<N>>() == std::mem::size_of::<Vec<u8>>());
    let v = std::mem::ManuallyDrop::new(v);
    unsafe { std::mem::transmute_copy(&v) }
}

/// Text of any length is written as its bytes and one terminator (the empty one as `N` zero bytes).
fn write<const N: usize>(nonempty: bool) {
    let v = any_text(nonempty);
    let (ptr, len) = (v.as_ptr(), v.len() as u64);
    let s = cstring::<N>(v);
    let p = pos();
    let (dp0, mut dp) = (p, p);
    let mut w = SpecWriter::at(p);
    s.ssbh_write(&mut w, &mut dp).unwrap();
    let n = if nonempty { len + 1 } else { N as u64 };
    assert!(w.pos == p + n);
    assert!(dp == dp0 || dp == p + n);
    let i = w.watch.wrapping_sub(p);
    if i < n {
        let want = if i < len { unsafe { *ptr.add(i as usize) } } else { 0 };
        assert!(w.hits == 1 && w.val == want);
        reach!(i < len || !nonempty, "text");
    } else {
        assert!(w.hits == 0);
    }
    leak(s);
}

/// A string field: the offset leads to the text, which starts at a multiple of `N`.
fn field<S: SsbhWrite, const N: usize>(nonempty: bool) {
    let v = any_text(nonempty);
    let (ptr, len) = (v.as_ptr(), v.len() as u64);
    assume(std::mem::size_of::<S>() == std::mem::size_of::<RelPtr64<CString<N>>>());
    let r = std::mem::ManuallyDrop::new(RelPtr64::new(cstring::<N>(v)));
    let s: S = unsafe { std::mem::transmute_copy(&r) };
    let p = pos();
    let dp0 = pos();
    let mut dp = dp0;
    let mut w = SpecWriter::at(p);
    assert!(s.size_in_bytes() == 8);
    s.ssbh_write(&mut w, &mut dp).unwrap();
    let n = if nonempty { len + 1 } else { N as u64 };
    let base = if dp0 > p + 8 { dp0 } else { p + 8 };
    // the first free multiple of N
    let m = N as u64;
    let tgt = (base + m - 1) / m * m;
    assert!(w.pos == p + 8);
    assert!(dp >= tgt + n);
    let (i, j) = (w.watch.wrapping_sub(p), w.watch.wrapping_sub(tgt));
    if i < 8 {
        assert!(w.hits == 1 && w.val == ((tgt - p) >> (8 * i)) as u8);
    } else if j < n {
        let want = if j < len { unsafe { *ptr.add(j as usize) } } else { 0 };
        assert!(w.hits == 1 && w.val == want);
        reach!(j < len || !nonempty, "text");
    } else if w.watch < base || w.watch >= tgt {
        assert!(w.hits == 0);
    }
    leak(s);
}

/// The `L` bytes before the first zero byte are the string; the reader ends behind the zero.
fn read<const L: usize, const B: usize, const N: usize>() {
    let p = pos();
    let mut b: [u8; B] = any();
    for i in 0..L {
        assume(b[i] != 0);
    }
    if L < B {
        b[L] = 0;
    }
    let mut f = SpecReader::new(p, u64::MAX, b);
    f.sure = true;
    match CString::<N>::read_options(&mut f, LE, ()) {
        Ok(s) => {
            assert!(f.pos == p + L as u64 + 1);
            let got: &Vec<u8> = unsafe { &*(&s as *const CString<N> as *const Vec<u8>) };
            assert!(got.len() == L);
            for i in 0..L {
                assert!(got[i] == b[i]);
            }
            reach!(true, "read");
            leak(s);
        }
        Err(e) => {
            leak(e);
            assert!(false, "a terminated string is rejected");
        }
    }
}

/// Text that runs into the end of the file is an error.
fn unterminated<const L: usize>() {
    let p = pos();
    let b: [u8; L] = any();
    for i in 0..L {
        assume(b[i] != 0);
    }
    let mut f = SpecReader::new(p, p + L as u64, b);
    let r = CString::<4>::read_options(&mut f, LE, ());
    reach!(true, "end of file");
    assert!(r.is_err());
    leak(r);
}

/// Building a string from bytes cuts it before the first zero byte.
fn from_bytes<const L: usize>() {
    let b: [u8; L] = any();
    let s = CString::<4>::from_bytes(&b);
    let got: &Vec<u8> = unsafe { &*(&s as *const CString<4> as *const Vec<u8>) };
    let mut n = L;
    for i in (0..L).rev() {
        if b[i] == 0 {
            n = i;
        }
    }
    assert!(got.len() == n);
    for i in 0..L {
        assert!(i >= n || got[i] == b[i]);
    }
    reach!(n == L && L > 0, "no zero");
    leak(s);
}

#[cfg(not(kani))]
macro_rules! text_of { ($s:ty, $n:literal, $t:expr) => {{
    use std::io::Cursor;
    let s: &str = $t;
    let start = below(40);
    let mut dp = below(80);
    let v = <$s>::from(s);
    let w2 = <$s>::from(s.to_string());
    let w3: $s = s.parse().unwrap();
    assert!(v == w2 && v == w3 && v == <$s>::from(&s.to_string()) && v == <$s>::from_bytes(s.as_bytes()));
    let base = dp.max(start + 8);
    let mut w = Cursor::new(Vec::new());
    w.set_position(start);
    v.ssbh_write(&mut w, &mut dp).unwrap();
    let f = w.into_inner();
    let off = u64::from_le_bytes(f[start as usize..start as usize + 8].try_into().unwrap());
    let at = start + off;
    assert!(at % $n as u64 == 0 && at >= base && at < base + $n as u64);
    let at = at as usize;
    assert!(&f[at..at + s.len()] == s.as_bytes() && f[at + s.len()..].iter().all(|b| *b == 0));
    assert!(f.len() - at == if s.is_empty() { $n } else { s.len() + 1 });
    assert!(dp >= f.len() as u64);
    let mut g = f.clone();
    g.extend([7; 5]);
    let mut r = Cursor::new(&g);
    r.set_position(start);
    let back = <$s>::read_options(&mut r, LE, ()).unwrap();
    assert!(r.position() == start + 8);
    assert!(back == v && back.to_str() == Some(s) && back.to_string_lossy() == s);
}} }

contracts! { kani {
    /// Non-empty text of any length and content: its bytes, then exactly one zero byte, nothing else (no minimum size).
    fn p_write_1() { write::<1>(true) }
    /// As above for strings of alignment 4.
    fn p_write_4() { write::<4>(true) }
    /// As above for strings of alignment 8.
    fn p_write_8() { write::<8>(true) }
    /// The empty string takes its type's minimum size: 1 zero byte.
    fn p_write_empty_1() { write::<1>(false) }
    /// The empty string takes its type's minimum size: 4 zero bytes.
    fn p_write_empty_4() { write::<4>(false) }
    /// The empty string takes its type's minimum size: 8 zero bytes.
    fn p_write_empty_8() { write::<8>(false) }
    /// A 4-byte aligned string field with text of any length at any position: offset to the first free multiple of 4, text, terminator.
    fn p_field_4() { field::<SsbhString, 4>(true) }
    /// An 8-byte aligned string field with text of any length at any position.
    fn p_field_8() { field::<SsbhString8, 8>(true) }
    /// An empty 4-byte aligned string field.
    fn p_field_empty_4() { field::<SsbhString, 4>(false) }
    /// An empty 8-byte aligned string field.
    fn p_field_empty_8() { field::<SsbhString8, 8>(false) }
    /// A null string field is a zero offset and nothing else.
    fn p_field_null() {
        let r = std::mem::ManuallyDrop::new(RelPtr64::<CString<4>>::null());
        assume(std::mem::size_of::<SsbhString>() == std::mem::size_of::<RelPtr64<CString<4>>>());
        let s: SsbhString = unsafe { std::mem::transmute_copy(&r) };
        let p = pos();
        let mut dp = pos();
        let mut w = SpecWriter::at(p);
        s.ssbh_write(&mut w, &mut dp).unwrap();
        assert!(w.pos == p + 8);
        assert!(w.hits == (w.watch >= p && w.watch < p + 8) as u32 && w.val == 0);
        assert!(s.to_str().is_none());
        reach!(w.hits == 1, "written");
    }
    /// [bounded: empty text] reading stops at the first zero byte whatever follows.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_read_0() { read::<0, 3, 4>() }
    /// [bounded: one byte of text] reading stops at the first zero byte whatever follows.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_read_1() { read::<1, 4, 1>() }
    /// [bounded: three bytes of text] reading stops at the first zero byte whatever follows.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_read_3() { read::<3, 6, 8>() }
    /// [bounded: nine bytes of text] reading stops at the first zero byte whatever follows. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    fn p_read_9() { read::<9, 12, 4>() }
    /// [bounded: up to one byte] text without a terminator is an error.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_unterminated() { unterminated::<0>(); unterminated::<1>() }
    /// [bounded: two bytes] text without a terminator is an error. @tier=thorough
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_unterminated_2() { unterminated::<2>() }
    /// [bounded: four bytes] a string built from bytes ends before the first zero byte. @tier=thorough
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_from_bytes() { from_bytes::<4>() }
} native {
    /// [bounded: generated text of up to 80 characters at generated positions] text survives writing and reading through every string type, and the conversions agree with each other.
    fn n_text() {
        let s = text();
        text_of!(SsbhString, 4, &s);
        text_of!(SsbhString8, 8, &s);
        chars_of::<1>(&s);
        chars_of::<4>(&s);
        chars_of::<8>(&s);
    }
    /// [bounded: generated byte strings with zero bytes and invalid UTF-8] reading and building from bytes both stop at the first zero byte; text that is not UTF-8 has no text form but its bytes survive.
    fn n_bytes() {
        let n = below(60) as usize;
        let mut b = crate::walk::bytes(n);
        if any() {
            for x in b.iter_mut() {
                if *x == 0 { *x = 0x80; }
            }
        }
        let mut f = vec![0u8; 3];
        f.extend(&b);
        let text: Vec<u8> = b.iter().copied().take_while(|x| *x != 0).collect();
        let mut r = std::io::Cursor::new(&f);
        r.set_position(3);
        let got = CString::<4>::read_options(&mut r, LE, ());
        if text.len() == b.len() {
            assert!(got.is_err(), "unterminated text is accepted");
        } else {
            let got = got.expect("terminated text is rejected");
            assert!(r.position() as usize == 3 + text.len() + 1);
            assert!(got == CString::from_bytes(&text), "text with the bytes behind the terminator");
            assert!(got == CString::from_bytes(&b));
            assert!(got.to_str() == std::str::from_utf8(&text).ok());
        }
        let c = CString::<8>::from_bytes(&b);
        let mut w = std::io::Cursor::new(Vec::new());
        c.write(&mut w).unwrap();
        let mut want = text.clone();
        if text.is_empty() { want = vec![0; 8] } else { want.push(0) }
        assert!(w.into_inner() == want);
        assert!(c.to_string_lossy() == std::str::from_utf8(&text).unwrap_or(""));
    }
    /// [bounded: generated text of up to 70000 characters] the same for long text.
    /// @cases=300 @ms=5000
    fn n_long() {
        let n = [4090 + below(12), 65530 + below(12), below(70000)][below(3) as usize];
        let s: String = (0..n).map(|_| if below(50) == 0 { 'é' } else { (1 + below(126) as u8) as char }).collect();
        text_of!(SsbhString, 4, &s);
        text_of!(SsbhString8, 8, &s);
    }
} }

#[cfg(not(kani))]
fn text() -> String {
    let n = below(80);
    (0..n)
        .map(|_| loop {
            let c = match below(6) {
                0 => char::from_u32(any::<u32>() % 0x110000),
                1 => char::from_u32(0x3040 + any::<u32>() % 0x60),
                _ => Some((b' ' + below(95) as u8) as char),
            };
            if let Some(c) = c {
                if c != '\0' {
                    break c;
                }
            }
            if c == Some('\0') {
                break 'a';
            }
        })
        .collect()
}

#[cfg(not(kani))]
fn chars_of<const N: usize>(s: &str) {
    use std::io::Cursor;
    let c = CString::<N>::from(s);
    assert!(c == CString::from(&s.to_string()) && c == CString::from(s.to_string()) && Ok(c.clone()) == s.parse());
    assert!(c.to_str() == Some(s) && c.to_string_lossy() == s);
    let mut w = Cursor::new(Vec::new());
    c.write(&mut w).unwrap();
    let mut f = w.into_inner();
    assert!(f[..s.len()] == *s.as_bytes());
    f.push(1);
    assert!(CString::<N>::read_options(&mut Cursor::new(&f), LE, ()).unwrap() == c);
}
