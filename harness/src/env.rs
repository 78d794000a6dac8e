//! Abstract environments: the contracts of the `Read`, `Write` and `Seek` implementations the
//! library is generic over, and of the element types its containers are generic over.
use crate::nd::*;
use binrw::{BinRead, BinResult, Endian};
use ssbh_write::SsbhWrite;
use std::cell::Cell;
use std::io::{Read, Result, Seek, SeekFrom, Write};

/// Keeps file positions small enough that no sum of positions and sizes wraps.
pub const LIMIT: u64 = 1 << 40;

pub fn pos() -> u64 {
    any::<u64>() & (LIMIT - 1)
}

/// An unbounded output file of which one arbitrary address is observed.
/// A statement proved about `watch` holds for every address, because `watch` is symbolic.
pub struct SpecWriter {
    pub pos: u64,
    pub end: u64,
    pub watch: u64,
    pub hits: u32,
    pub val: u8,
}

impl SpecWriter {
    pub fn at(pos: u64) -> Self {
        SpecWriter {
            pos,
            end: pos,
            watch: near(pos),
            hits: 0,
            val: 0,
        }
    }
    pub fn at_watching(pos: u64, watch: u64) -> Self {
        SpecWriter {
            pos,
            end: pos,
            watch,
            hits: 0,
            val: 0,
        }
    }
}

impl Write for SpecWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.write_all(buf)?;
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let n = buf.len() as u64;
        if self.watch >= self.pos && self.watch - self.pos < n {
            self.val = buf[(self.watch - self.pos) as usize];
            self.hits += 1;
        }
        self.pos += n;
        if n > 0 && self.pos > self.end {
            self.end = self.pos;
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for SpecWriter {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            SeekFrom::End(d) => (self.end as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

/// Any element type with alignment `A` that obeys the writer contract:
/// it is written at the current position, leaves the writer `written >= size` bytes further on,
/// and either does not touch the data pointer (`leaf`) or moves it past its own inline bytes and
/// `grow` more bytes of data of its own.
pub struct Child<const A: u64> {
    pub size: u64,
    pub written: u64,
    pub leaf: bool,
    pub grow: u64,
    pub calls: Cell<u32>,
    pub at: Cell<u64>,
    pub dp_in: Cell<u64>,
    pub dp_out: Cell<u64>,
}

impl<const A: u64> Child<A> {
    pub fn any() -> Self {
        let leaf: bool = any();
        let size = pos();
        let extra = pos();
        let grow = pos();
        Child {
            size,
            written: if leaf { size + extra } else { size },
            leaf,
            grow,
            calls: Cell::new(0),
            at: Cell::new(0),
            dp_in: Cell::new(0),
            dp_out: Cell::new(0),
        }
    }
    pub fn with(leaf: bool, size: u64, grow: u64) -> Self {
        Child {
            size,
            written: size,
            leaf,
            grow,
            calls: Cell::new(0),
            at: Cell::new(0),
            dp_in: Cell::new(0),
            dp_out: Cell::new(0),
        }
    }
    /// A container element (one that reserves its inline bytes itself).
    pub fn node() -> Self {
        Child::with(false, pos(), pos())
    }
    pub fn end(&self) -> u64 {
        self.at.get() + self.written
    }
}

/// A payload with a type tag.
pub struct Tagged<const A: u64> {
    pub child: Child<A>,
    pub tag: u64,
}
impl<const A: u64> ssbh_lib::DataType for Tagged<A> {
    fn data_type(&self) -> u64 {
        self.tag
    }
}
impl<const A: u64> SsbhWrite for Tagged<A> {
    fn ssbh_write<W: Write + Seek>(&self, writer: &mut W, data_ptr: &mut u64) -> Result<()> {
        self.child.ssbh_write(writer, data_ptr)
    }
    fn size_in_bytes(&self) -> u64 {
        self.child.size
    }
    fn alignment_in_bytes() -> u64 {
        A
    }
}

/// Stands for message formatting: the text of an error is not under contract.
pub fn no_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

impl<const A: u64> SsbhWrite for Child<A> {
    fn ssbh_write<W: Write + Seek>(&self, writer: &mut W, data_ptr: &mut u64) -> Result<()> {
        let at = writer.stream_position()?;
        self.calls.set(self.calls.get() + 1);
        self.at.set(at);
        self.dp_in.set(*data_ptr);
        if !self.leaf {
            if *data_ptr < at + self.size {
                *data_ptr = at + self.size;
            }
            *data_ptr += self.grow;
        }
        self.dp_out.set(*data_ptr);
        writer.seek(SeekFrom::Start(at + self.written))?;
        Ok(())
    }
    fn size_in_bytes(&self) -> u64 {
        self.size
    }
    fn alignment_in_bytes() -> u64 {
        A
    }
}

/// An input file of arbitrary length whose bytes are fixed by `fixed` at `base` and arbitrary elsewhere.
/// `seq` is the number of fixed bytes already consumed while reading has been sequential; it only
/// exists so that the verifier sees constant indices there.
pub struct SpecReader<const N: usize> {
    pub pos: u64,
    pub len: u64,
    pub base: u64,
    pub fixed: [u8; N],
    pub seq: Option<usize>,
    /// the fixed bytes are known to lie inside the file
    pub sure: bool,
    /// the file does not end
    pub endless: bool,
    /// outside of the fixed bytes, the byte at address `a` is `a ^ key`
    pub key: Option<u8>,
}

impl<const N: usize> SpecReader<N> {
    pub fn new(pos: u64, len: u64, fixed: [u8; N]) -> Self {
        SpecReader { pos, len, base: pos, fixed, seq: Some(0), sure: false, endless: false, key: None }
    }
}

impl<const N: usize> Read for SpecReader<N> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let left = if self.pos < self.len {
            self.len - self.pos
        } else {
            0
        };
        let n = if self.endless || (buf.len() as u64) < left {
            buf.len()
        } else {
            left as usize
        };
        for b in buf.iter_mut().take(n) {
            *b = if self.pos >= self.base && self.pos - self.base < N as u64 {
                self.fixed[(self.pos - self.base) as usize]
            } else if let Some(k) = self.key {
                self.pos as u8 ^ k
            } else {
                any()
            };
            self.pos += 1;
        }
        self.seq = None;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let n = buf.len();
        if let Some(k) = self.seq {
            if k + n <= N {
                if !self.sure && self.pos + n as u64 > self.len {
                    return Err(std::io::ErrorKind::UnexpectedEof.into());
                }
                for i in 0..n {
                    buf[i] = self.fixed[k + i];
                }
                self.pos += n as u64;
                self.seq = Some(k + n);
                return Ok(());
            }
        }
        if self.read(buf)? != n {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        Ok(())
    }
}

impl<const N: usize> Seek for SpecReader<N> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let target = match p {
            SeekFrom::Current(0) => return Ok(self.pos),
            SeekFrom::Start(x) => Some(x),
            // Skipping forward is still sequential.
            SeekFrom::Current(d) if d > 0 && self.endless => {
                self.pos += d as u64;
                self.seq = match self.seq {
                    Some(k) if k + d as usize <= N => Some(k + d as usize),
                    _ => None,
                };
                return Ok(self.pos);
            }
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
        };
        match target {
            Some(x) => {
                self.pos = x;
                self.seq = None;
                Ok(x)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
    fn stream_position(&mut self) -> Result<u64> {
        Ok(self.pos)
    }
}

/// Whether the mock element refused to be read (so that an error is justified).
pub struct Refusals(std::cell::UnsafeCell<u32>);
unsafe impl Sync for Refusals {}
pub static REFUSED: Refusals = Refusals(std::cell::UnsafeCell::new(0));
impl Refusals {
    pub fn reset(&self) {
        unsafe { *self.0.get() = 0 }
    }
    pub fn any(&self) -> bool {
        unsafe { *self.0.get() != 0 }
    }
    fn add(&self) {
        unsafe { *self.0.get() += 1 }
    }
}

/// Any element type that obeys the reader contract: it starts at the current position, and either
/// fails or succeeds leaving the reader anywhere.
#[derive(Debug, Clone, PartialEq)]
pub struct Item {
    pub at: u64,
    pub tag: u64,
    pub end: u64,
}

impl BinRead for Item {
    type Args<'a> = ();
    fn read_options<R: Read + Seek>(reader: &mut R, _: Endian, _: ()) -> BinResult<Self> {
        let at = reader.stream_position()?;
        let end = near(at);
        reader.seek(SeekFrom::Start(end))?;
        if any() {
            REFUSED.add();
            return Err(binrw::Error::NoVariantMatch { pos: at });
        }
        Ok(Item { at, tag: 0, end })
    }
}

/// As `Item`, for types that are read with a type tag.
#[derive(Debug, Clone, PartialEq)]
pub struct TaggedItem(pub Item);
impl BinRead for TaggedItem {
    type Args<'a> = (u64,);
    fn read_options<R: Read + Seek>(reader: &mut R, e: Endian, a: (u64,)) -> BinResult<Self> {
        let mut i = Item::read_options(reader, e, ())?;
        i.tag = a.0;
        Ok(TaggedItem(i))
    }
}
impl ssbh_lib::DataType for TaggedItem {
    fn data_type(&self) -> u64 {
        self.0.tag
    }
}
impl SsbhWrite for TaggedItem {
    fn ssbh_write<W: Write + Seek>(&self, _: &mut W, _: &mut u64) -> Result<()> {
        Ok(())
    }
}

pub fn is_round_up(r: u64, v: u64, a: u64) -> bool {
    r >= v && r - v < a && r % a == 0
}

/// The file `b`, read without following any offset. Going back means that a value was rejected,
/// which contracts about accepted values leave aside.
pub struct Straight<const N: usize> {
    pub b: [u8; N],
    pub pos: usize,
}
impl<const N: usize> Read for Straight<N> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.read_exact(buf)?;
        Ok(buf.len())
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let n = buf.len();
        if self.pos + n > N {
            assume(false);
        }
        for i in 0..n {
            buf[i] = self.b[self.pos + i];
        }
        self.pos += n;
        Ok(())
    }
}
impl<const N: usize> Seek for Straight<N> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let x = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => N as i64 + d,
        };
        // An empty array looks at its (absent) content and comes back: 16 bytes.
        if x < self.pos as i64 && x != self.pos as i64 - 16 {
            assume(false);
        }
        self.pos = x as usize;
        Ok(x as u64)
    }
    fn stream_position(&mut self) -> Result<u64> {
        Ok(self.pos as u64)
    }
}
