//! C03: malformed files produce errors, never panics or runaway memory use.
use crate::env::*;
use crate::nd::*;
use binrw::{BinRead, BinResult, Endian};
use ssbh_lib::*;
use std::io::{Read, Result, Seek, SeekFrom};

const LE: Endian = Endian::Little;

/// A file of `N` arbitrary bytes of which the first `len` exist, and nothing behind them.
struct Short<const N: usize> {
    b: [u8; N],
    pos: u64,
    len: u64,
}
impl<const N: usize> Short<N> {
    fn any() -> Self {
        Short { b: any(), pos: 0, len: below(N as u64 + 1) }
    }
    fn whole() -> Self {
        Short { b: any(), pos: 0, len: N as u64 }
    }
}
impl<const N: usize> Read for Short<N> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.pos < self.len {
            buf[n] = self.b[self.pos as usize];
            n += 1;
            self.pos += 1;
        }
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        if self.pos > self.len || buf.len() as u64 > self.len - self.pos {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        for x in buf.iter_mut() {
            *x = self.b[self.pos as usize];
            self.pos += 1;
        }
        Ok(())
    }
}
impl<const N: usize> Seek for Short<N> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let t = match p {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
        };
        match t {
            Some(x) => {
                self.pos = x;
                Ok(x)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
    fn stream_position(&mut self) -> Result<u64> {
        Ok(self.pos)
    }
}

/// An element that is never there.
#[derive(Debug)]
struct Missing;
impl BinRead for Missing {
    type Args<'a> = ();
    fn read_options<R: Read + Seek>(r: &mut R, _: Endian, _: ()) -> BinResult<Self> {
        Err(binrw::Error::NoVariantMatch { pos: r.stream_position()? })
    }
}

/// Whatever the file contains and wherever it ends, the read comes back.
fn returns<T, const N: usize>()
where
    for<'a> T: BinRead<Args<'a> = ()>,
{
    let mut f = Short::<N>::any();
    let r = T::read_options(&mut f, LE, ());
    reach!(r.is_err(), "error");
    leak(r);
}

contracts! { kani {
    /// A relative pointer: any offset (also one that wraps the address space), any end of file.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_relptr() { returns::<RelPtr64<u32>, 16>() }
    /// A 16-bit absolute pointer: any address, any end of file.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_ptr16() { returns::<Ptr16<u32>, 8>() }
    /// A 32-bit absolute pointer: any address, any end of file.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_ptr32() { returns::<Ptr32<u32>, 8>() }
    /// A 64-bit absolute pointer: any address, any end of file.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_ptr64() { returns::<Ptr64<u32>, 12>() }
    /// An array with any declared offset and any declared element count, whose elements are not there: an error, and no
    /// reservation that depends on the declared count beyond the fixed limit.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_array_any_count() {
        let mut f = Short::<16>::whole();
        let count = u64::from_le_bytes(f.b[8..16].try_into().unwrap());
        let r = SsbhArray::<Missing>::read_options(&mut f, LE, ());
        reach!(r.is_err(), "error");
        reach!(r.is_ok(), "empty");
        assert!(r.is_err() || count == 0);
        if let Ok(v) = &r {
            assert!(v.elements.capacity() == 0 || v.elements.is_empty());
        }
        leak(r);
    }
    /// An array of words with any declared offset and count at any end of file.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_array_words() { returns::<SsbhArray<u64>, 20>() }
    /// A string field that leads to the end of the file.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_string() { returns::<SsbhString, 8>() }
} native {
    /// [bounded: generated files of every type with up to six altered, cut or inserted fields] reading gives a value or an error: no panic, no overflow, no hang, no memory beyond the fixed limits and what the file holds. @ms=20000
    fn n_altered() { crate::walk::altered() }
    /// [bounded: generated bodies of up to 900 bytes behind a valid header of every type and version] the same. @ms=12000
    fn n_body() { crate::walk::body() }
    /// [bounded: generated files without pointers] every prefix of a file that ends within its last field is an error or a value, never a panic.
    fn n_truncated() { crate::walk::truncated() }
} }
