//! F01: success means everything was transferred.
use crate::env::*;
use crate::nd::*;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::{ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// A file that fails at the operation `fail` and the `more` after it.
pub struct Failing<F> {
    pub f: F,
    pub ops: u32,
    pub fail: u32,
    pub more: u32,
    pub failed: bool,
}
impl<F> Failing<F> {
    pub fn new(f: F, fail: u32) -> Self {
        Failing { f, ops: 0, fail, more: if any() { 0 } else { any() }, failed: false }
    }
    fn op(&mut self) -> Result<()> {
        self.ops += 1;
        if self.ops > self.fail && self.ops - self.fail - 1 <= self.more {
            self.failed = true;
            return Err(ErrorKind::StorageFull.into());
        }
        Ok(())
    }
}
impl<F: Write> Write for Failing<F> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.op()?;
        self.f.write(b)
    }
    fn write_all(&mut self, b: &[u8]) -> Result<()> {
        self.op()?;
        self.f.write_all(b)
    }
    fn flush(&mut self) -> Result<()> {
        self.op()
    }
}
impl<F: Read> Read for Failing<F> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.op()?;
        self.f.read(b)
    }
    fn read_exact(&mut self, b: &mut [u8]) -> Result<()> {
        self.op()?;
        self.f.read_exact(b)
    }
}
impl<F: Seek> Seek for Failing<F> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.op()?;
        self.f.seek(p)
    }
    fn stream_position(&mut self) -> Result<u64> {
        self.op()?;
        self.f.stream_position()
    }
}

/// Writing `v` anywhere fails exactly if the file does, at whatever operation.
fn fails<T: SsbhWrite>(v: T) {
    let mut w = Failing::new(SpecWriter::at(pos()), any());
    let mut dp = pos();
    let r = v.ssbh_write(&mut w, &mut dp);
    leak(v);
    assert!(r.is_err() == w.failed);
    reach!(w.failed, "fails");
    reach!(!w.failed, "succeeds");
    leak(r);
}

/// Reading anything from a file that fails at whatever operation does not succeed.
fn reads<T: for<'a> binrw::BinRead<Args<'a> = ()>, const N: usize>() {
    let mut f = SpecReader::<N>::new(pos(), 0, any());
    f.endless = true;
    f.sure = true;
    let mut r = Failing::new(f, any());
    let x = T::read_options(&mut r, binrw::Endian::Little, ());
    assert!(!(r.failed && x.is_ok()));
    reach!(r.failed, "fails");
    reach!(x.is_ok(), "succeeds");
    leak(x);
}

/// A file that takes at least one byte of what it is given, but not always all of it.
struct Taking(SpecWriter);
impl Write for Taking {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = 1 + below(b.len() as u64) as usize;
        self.0.write_all(&b[..n])?;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Taking {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.0.seek(p)
    }
}
#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
struct Padded(u8);
#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
struct Aligned(u8);

/// Writing `v` anywhere puts the same bytes in the same places however many of them are taken at a time.
fn pieces<T: SsbhWrite>(v: T) {
    let (p, d) = (pos(), pos());
    let watch = near(p);
    let mut all = SpecWriter::at_watching(p, watch);
    let mut some = Taking(SpecWriter::at_watching(p, watch));
    let (mut d1, mut d2) = (d, d);
    assert!(v.ssbh_write(&mut all, &mut d1).is_ok());
    assert!(v.ssbh_write(&mut some, &mut d2).is_ok());
    leak(v);
    let s = some.0;
    assert!(s.pos == all.pos && s.end == all.end && d1 == d2);
    assert!(s.hits == all.hits && s.val == all.val);
    reach!(s.hits == 1, "seen");
}

contracts! { kani {
    /// Writing a relative pointer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_relptr() { fails(RelPtr64::new(Child::<8>::any())) }
    /// Writing a null pointer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_null() { fails(RelPtr64::<Child<8>>::null()) }
    /// Writing an absolute pointer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_ptr() { fails(Ptr64::new(Child::<8>::any())) }
    /// [bounded: 1 element] writing an array succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_array() { fails(SsbhArray::from_vec(vec![Child::<8>::any()])) }
    /// Writing an empty array succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_empty() { fails(SsbhArray::<Child<8>>::new()) }
    /// [bounded: 3 bytes] writing a string succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_string() { fails(SsbhString::from_bytes(&[any(), any(), any()])) }
    /// [bounded: 3 bytes] writing a byte buffer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_bytes() { fails(SsbhByteBuffer::from_vec(vec![any(), any(), any()])) }
    /// Writing a tagged pointer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_tagged() { fails(SsbhEnum64 { data: RelPtr64::new(Tagged::<8> { child: Child::any(), tag: any() }) }) }
    /// Writing a list of bare numbers succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_numbers() { fails((any::<u8>(), any::<u16>()).0); fails(any::<u32>()); fails(Some(any::<u64>())) }
    /// Reading a relative pointer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_read_relptr() { reads::<RelPtr64<Item>, 8>() }
    /// Reading an absolute pointer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(10))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_read_ptr() { reads::<Ptr64<Item>, 8>() }
    /// Reading a tagged pointer succeeds only if every operation on the file did.
    #[cfg_attr(kani, kani::unwind(18))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_read_tagged() { reads::<SsbhEnum64<TaggedItem>, 16>() }
    /// [bounded: 2 bytes] a byte buffer is written alike however many bytes the file takes at a time.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_bytes_pieces() { pieces(SsbhByteBuffer::from_vec(vec![any(), any()])) }
    /// [bounded: 2 bytes] a string is written alike however many bytes the file takes at a time.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_string_pieces() { pieces(SsbhString::from_bytes(&[1 + below(255) as u8, 1 + below(255) as u8])) }
    /// A number is written alike however many bytes the file takes at a time.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_number_pieces() { pieces(any::<u64>()) }
    /// A relative pointer to a number is written alike however many bytes the file takes at a time.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_relptr_pieces() { pieces(RelPtr64::new(any::<u32>())) }
    /// Padding is written alike however many bytes the file takes at a time.
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_padding_pieces() { pieces(Padded(any())) }
    /// The last padding of a file is written alike however many bytes the file takes at a time.
    /// @tier=thorough
    #[cfg_attr(kani, kani::unwind(10))]
    fn p_tail_pieces() { pieces(Aligned(any())) }
} native {
    /// [bounded: generated files of every type, at every operation on the file] writing fails, with an error, exactly if the file fails.
    /// @ms=12000
    fn n_write() {
        use crate::walk::any_type;
        use ssbh_lib::prelude::*;
        any_type!(write_of)
    }
    /// [bounded: generated files of every type, at every operation on the file] reading succeeds in spite of a failing file only with the value it holds.
    /// @ms=12000
    fn n_read() {
        use crate::walk::any_type;
        use ssbh_lib::prelude::*;
        any_type!(read_of)
    }
    /// [bounded: generated files of every type, up to 1 to 9 bytes at a time] a file that takes and delivers its bytes in pieces is written and read like any other.
    /// @ms=12000
    fn n_pieces() {
        use crate::walk::any_type;
        use ssbh_lib::prelude::*;
        any_type!(pieces_of)
    }
    /// [bounded: generated files of every type] writing to a path gives the bytes that are written to memory, whatever was there before; reading from it gives what they hold; a full disk and a missing folder are errors.
    /// @ms=12000 @cases=3000
    fn n_paths() {
        use crate::walk::any_type;
        use ssbh_lib::prelude::*;
        any_type!(paths_of)
    }
    /// [bounded: generated data of every type] the same for decoded data: files that fail, files that take pieces, and paths.
    /// @ms=20000 @cases=3000
    fn n_data() {
        use ssbh_data::prelude::*;
        match below(8) {
            0 => data_of::<MeshData>(),
            1 => data_of::<SkelData>(),
            2 => data_of::<AnimData>(),
            3 => data_of::<ModlData>(),
            4 => data_of::<MatlData>(),
            5 => data_of::<HlpbData>(),
            6 => data_of::<MeshExData>(),
            _ => data_of::<AdjData>(),
        }
    }
} }

#[cfg(not(kani))]
mod whole {
    use super::*;
    use crate::walk::{gen, CountingFile, FileType};
    use std::io::Cursor;

    /// A file that takes and delivers at most `n` bytes at a time and is interrupted now and then.
    pub struct Pieces<F> {
        pub f: F,
        pub n: usize,
        pub calls: u64,
    }
    impl<F> Pieces<F> {
        fn size(&mut self, len: usize) -> Result<usize> {
            self.calls += 1;
            if self.calls % 7 == 3 {
                return Err(ErrorKind::Interrupted.into());
            }
            Ok(len.min(1 + self.calls as usize * 5 % self.n))
        }
    }
    impl<F: Write> Write for Pieces<F> {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            let n = self.size(b.len())?;
            self.f.write(&b[..n])
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl<F: Read> Read for Pieces<F> {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            let n = self.size(b.len())?;
            self.f.read(&mut b[..n])
        }
    }
    impl<F: Seek> Seek for Pieces<F> {
        fn seek(&mut self, p: SeekFrom) -> Result<u64> {
            self.f.seek(p)
        }
    }

    fn file<T: FileType>() -> (T, Vec<u8>) {
        let v: T = gen();
        let mut w = Cursor::new(Vec::new());
        if v.put(&mut w).is_err() {
            assume(false);
        }
        (v, w.into_inner())
    }
    pub fn write_of<T: FileType>() {
        let (v, f) = file::<T>();
        let mut all = Failing::new(Cursor::new(Vec::new()), u32::MAX);
        v.put(&mut all).unwrap();
        let k = below(all.ops as u64 + 1) as u32;
        let mut w = Failing::new(Cursor::new(Vec::new()), k);
        let r = v.put(&mut w);
        assert!(r.is_err() == w.failed, "{}: operation {k} of {} fails, and writing says {r:?}", T::NAME, all.ops);
        assert!(k < all.ops || w.f.into_inner() == f);
    }
    pub fn read_of<T: FileType>() {
        let (v, f) = file::<T>();
        let mut all = Failing::new(Cursor::new(&f), u32::MAX);
        if T::get(&mut all).is_err() {
            assume(false);
        }
        let k = below(all.ops as u64 + 1) as u32;
        let mut r = Failing::new(Cursor::new(&f), k);
        match T::get(&mut r) {
            Ok(x) => assert!(format!("{x:?}") == format!("{v:?}"), "{}: operation {k} of {} fails, and reading gives {x:?} for {v:?}", T::NAME, all.ops),
            Err(e) => assert!(r.failed, "{}: {e}", T::NAME),
        }
    }
    pub fn pieces_of<T: FileType>() {
        let (v, f) = file::<T>();
        let n = 1 + below(9) as usize;
        let mut w = Pieces { f: CountingFile::new(), n, calls: below(9) };
        v.put(&mut w).unwrap_or_else(|e| panic!("{}: in pieces of up to {n} bytes: {e}", T::NAME));
        let mut all = CountingFile::new();
        v.put(&mut all).unwrap();
        assert!(w.f.data == all.data, "{}: another file in pieces of up to {n} bytes: {v:?}", T::NAME);
        let a = T::get(&mut Cursor::new(&f));
        let b = T::get(&mut Pieces { f: Cursor::new(&f), n, calls: below(9) });
        assert!(format!("{a:?}") == format!("{b:?}"), "{}: in pieces of up to {n} bytes {b:?} is read instead of {a:?}", T::NAME);
    }
    fn dir() -> std::path::PathBuf {
        let d = std::env::temp_dir().join(format!("verif_f01_{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    }
    pub fn paths_of<T: FileType>() {
        let (v, f) = file::<T>();
        let d = dir();
        let p = d.join("f.bin");
        let _ = std::fs::remove_file(&p);
        let before = [0, 1, f.len() / 2, f.len(), f.len() + 1, f.len() + 4000][below(6) as usize];
        if before > 0 {
            std::fs::write(&p, vec![0xA5; before]).unwrap();
        }
        let r = v.put_path(&p);
        let g = std::fs::read(&p);
        let back = T::get_path(&p);
        let lost = v.put_path(&d.join("missing").join("f.bin")).is_err();
        let none = T::get_path(&d.join("nothing")).is_err();
        let _ = std::fs::remove_dir_all(&d);
        assert!(r.is_ok() && g.unwrap() == f, "{}: another file on disk than in memory, over one of {before} bytes", T::NAME);
        let same = T::get(&mut Cursor::new(&f));
        assert!(format!("{back:?}") == format!("{same:?}"), "{}: another value on disk than in memory", T::NAME);
        assert!(lost, "{}: written to a folder that is not there", T::NAME);
        assert!(none, "{}: read from a file that is not there", T::NAME);
        let full = std::path::Path::new("/dev/full");
        if full.exists() {
            assert!(f.is_empty() || v.put_path(full).is_err(), "{}: written to a full disk", T::NAME);
        }
    }
    pub fn data_of<T: ssbh_data::SsbhData + for<'a> arbitrary::Arbitrary<'a> + std::fmt::Debug>()
    where
        T::WriteError: std::fmt::Debug,
    {
        let t = std::any::type_name::<T>();
        let v: T = gen();
        let mut all = Failing::new(Cursor::new(Vec::new()), u32::MAX);
        if v.write(&mut all).is_err() {
            assume(false);
        }
        let f = all.f.into_inner();
        let same = T::read(&mut Cursor::new(&f)).map(|x| format!("{x:?}")).map_err(|_| ());
        match below(4) {
            0 => {
                let k = below(all.ops as u64 + 1) as u32;
                let mut w = Failing::new(Cursor::new(Vec::new()), k);
                let r = v.write(&mut w);
                assert!(r.is_err() == w.failed, "{t}: operation {k} of {} fails, and writing says {r:?}", all.ops);
            }
            1 => {
                let mut all = Failing::new(Cursor::new(&f), u32::MAX);
                let _ = T::read(&mut all);
                let k = below(all.ops as u64 + 1) as u32;
                let mut r = Failing::new(Cursor::new(&f), k);
                if let Ok(x) = T::read(&mut r) {
                    assert!(Ok(format!("{x:?}")) == same, "{t}: operation {k} fails, and reading gives {x:?} instead of {same:?}");
                }
            }
            2 => {
                let n = 1 + below(9) as usize;
                let mut w = Pieces { f: CountingFile::new(), n, calls: below(9) };
                v.write(&mut w).unwrap_or_else(|e| panic!("{t}: in pieces of up to {n} bytes: {e:?}"));
                let mut all = CountingFile::new();
                v.write(&mut all).unwrap();
                assert!(w.f.data == all.data, "{t}: another file in pieces of up to {n} bytes: {v:?}");
                let b = T::read(&mut Pieces { f: Cursor::new(&f), n, calls: below(9) }).map(|x| format!("{x:?}")).map_err(|_| ());
                assert!(b == same, "{t}: in pieces of up to {n} bytes {b:?} is read instead of {same:?}");
            }
            _ => {
                let d = dir();
                let p = d.join("f.bin");
                std::fs::write(&p, vec![0xA5; below(f.len() as u64 + 4000) as usize]).unwrap();
                let r = v.write_to_file(&p);
                let g = std::fs::read(&p);
                let back = T::from_file(&p).map(|x| format!("{x:?}")).map_err(|_| ());
                let lost = v.write_to_file(d.join("missing").join("f.bin")).is_err();
                let none = T::from_file(d.join("nothing")).is_err();
                let _ = std::fs::remove_dir_all(&d);
                assert!(r.is_ok() && g.unwrap() == f, "{t}: another file on disk than in memory");
                assert!(back == same, "{t}: another value on disk than in memory");
                assert!(lost && none, "{t}: a file that is not there");
                let full = std::path::Path::new("/dev/full");
                if full.exists() {
                    assert!(v.write_to_file(full).is_err(), "{t}: written to a full disk");
                }
            }
        }
    }
}
#[cfg(not(kani))]
use whole::*;
