//! Whole-file observers for the bounded (native) contracts: generated files of every type.
use crate::nd::*;
use arbitrary::{Arbitrary, Unstructured};
use ssbh_lib::prelude::*;
use std::io::{Cursor, Read, Result, Seek, SeekFrom, Write};

/// A stream of pseudo random bytes determined by one drawn value (so that a case is one number).
pub fn bytes(n: usize) -> Vec<u8> {
    let mut s: u64 = any::<u64>() ^ any::<u64>().rotate_left(32);
    (0..n)
        .map(|_| {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            let z = z ^ (z >> 31);
            // A mixture of small, special and arbitrary bytes.
            match z & 7 {
                0 => 0,
                1 => 1,
                2 => (z >> 8) as u8 & 3,
                3 => 0xff,
                _ => (z >> 8) as u8,
            }
        })
        .collect()
}

pub fn gen<T: for<'a> Arbitrary<'a>>() -> T {
    let n = [64, 200, 600, 1500][below(4) as usize];
    let b = bytes(n);
    let mut u = Unstructured::new(&b);
    match T::arbitrary(&mut u) {
        Ok(t) => t,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

/// A file that remembers how often each byte was written.
pub struct CountingFile {
    pub data: Vec<u8>,
    pub count: Vec<u8>,
    pub pos: usize,
}
impl CountingFile {
    pub fn new() -> Self {
        CountingFile { data: Vec::new(), count: Vec::new(), pos: 0 }
    }
}
impl Write for CountingFile {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let end = self.pos + b.len();
        if end > self.data.len() && !b.is_empty() {
            self.data.resize(end, 0);
            self.count.resize(end, 0);
        }
        for (i, x) in b.iter().enumerate() {
            self.data[self.pos + i] = *x;
            self.count[self.pos + i] = self.count[self.pos + i].saturating_add(1);
        }
        self.pos = end;
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for CountingFile {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x as usize,
            SeekFrom::Current(d) => (self.pos as i64 + d) as usize,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as usize,
        };
        Ok(self.pos as u64)
    }
}

/// One file type: generated value, its file, and the value read back.
pub trait FileType: for<'a> Arbitrary<'a> + std::fmt::Debug + Sized {
    fn put<W: Write + Seek>(&self, w: &mut W) -> Result<()>;
    fn get<R: Read + Seek>(r: &mut R) -> std::result::Result<Self, String>;
    fn put_path(&self, p: &std::path::Path) -> Result<()>;
    fn get_path(p: &std::path::Path) -> std::result::Result<Self, String>;
    const NAME: &'static str;
    /// Bytes that are written as a placeholder first.
    const PLACEHOLDER: usize = 0;
}
macro_rules! file_type {
    ($($t:ident $p:literal),*) => { $(
        impl FileType for $t {
            fn put<W: Write + Seek>(&self, w: &mut W) -> Result<()> { self.write(w) }
            fn get<R: Read + Seek>(r: &mut R) -> std::result::Result<Self, String> { $t::read(r).map_err(|e| e.to_string()) }
            fn put_path(&self, p: &std::path::Path) -> Result<()> { self.write_to_file(p) }
            fn get_path(p: &std::path::Path) -> std::result::Result<Self, String> { $t::from_file(p).map_err(|e| e.to_string()) }
            const NAME: &'static str = stringify!($t);
            const PLACEHOLDER: usize = $p;
        }
    )* };
}
file_type!(Hlpb 0, Matl 0, Modl 0, Mesh 0, Skel 0, Anim 0, Nlst 0, Nrpd 0, Nufx 0, Shdr 0, MeshEx 8, Adj 0);

/// Runs `$f::<T>()` for one of the file types, chosen by the drawn value.
macro_rules! any_type {
    ($f:ident) => {
        match below(12) {
            0 => $f::<Hlpb>(),
            1 => $f::<Matl>(),
            2 => $f::<Modl>(),
            3 => $f::<Mesh>(),
            4 => $f::<Skel>(),
            5 => $f::<Anim>(),
            6 => $f::<Nlst>(),
            7 => $f::<Nrpd>(),
            8 => $f::<Nufx>(),
            9 => $f::<Shdr>(),
            10 => $f::<MeshEx>(),
            _ => $f::<Adj>(),
        }
    };
}
pub(crate) use any_type;

fn no_overlap_of<T: FileType>() {
    let v: T = gen();
    let mut w = CountingFile::new();
    if v.put(&mut w).is_err() {
        assume(false);
    }
    for (i, c) in w.count.iter().enumerate() {
        assert!(
            *c <= 1 || i < T::PLACEHOLDER,
            "{}: byte {i} of {} is written {c} times: {v:?}",
            T::NAME,
            w.count.len()
        );
    }
}
pub fn no_overlap() {
    any_type!(no_overlap_of)
}

fn roundtrip_of<T: FileType>() {
    let v: T = gen();
    let mut w = Cursor::new(Vec::new());
    if v.put(&mut w).is_err() {
        assume(false);
    }
    let f = w.into_inner();
    let r = T::get(&mut Cursor::new(&f));
    let r = match r {
        Ok(r) => r,
        Err(e) => panic!("{}: the written file is rejected: {e}: {v:?}", T::NAME),
    };
    let (a, b) = (format!("{v:?}"), format!("{r:?}"));
    assert!(a == b, "{}: wrote {a}\nread {b}", T::NAME);
    let mut w2 = Cursor::new(Vec::new());
    r.put(&mut w2).unwrap();
    assert!(w2.into_inner() == f, "{}: writing what was read changes the file: {a}", T::NAME);
}
pub fn roundtrip() {
    any_type!(roundtrip_of)
}

// ------------------------------------------------------------------ file type and version (C05)

/// The documented type code and the versions of each container type.
pub const TYPES: &[(&str, &[u8; 4], &[(u16, u16)])] = &[
    ("Hlpb", b"BPLH", &[(1, 1)]),
    ("Matl", b"LTAM", &[(1, 5), (1, 6)]),
    ("Modl", b"LDOM", &[(1, 7)]),
    ("Mesh", b"HSEM", &[(1, 8), (1, 9), (1, 10)]),
    ("Skel", b"LEKS", &[(1, 0)]),
    ("Anim", b"MINA", &[(1, 2), (2, 0), (2, 1)]),
    ("Nlst", b"TSLN", &[(1, 0)]),
    ("Nrpd", b"DPRN", &[(1, 6)]),
    ("Nufx", b"XFUN", &[(1, 0), (1, 1)]),
    ("Shdr", b"RDHS", &[(1, 2)]),
];

/// What the generic container reader takes the file for.
fn kind(f: &[u8]) -> Option<(&'static str, (u16, u16), SsbhFile)> {
    use ssbh_lib::Version;
    let s = SsbhFile::read(&mut Cursor::new(f)).ok()?;
    let k = match &s.data {
        Ssbh::Hlpb(v) => ("Hlpb", v.data.major_minor_version()),
        Ssbh::Matl(v) => ("Matl", v.data.major_minor_version()),
        Ssbh::Modl(v) => ("Modl", v.data.major_minor_version()),
        Ssbh::Mesh(v) => ("Mesh", v.data.major_minor_version()),
        Ssbh::Skel(v) => ("Skel", v.data.major_minor_version()),
        Ssbh::Anim(v) => ("Anim", v.data.major_minor_version()),
        Ssbh::Nlst(v) => ("Nlst", v.data.major_minor_version()),
        Ssbh::Nrpd(v) => ("Nrpd", v.data.major_minor_version()),
        Ssbh::Nufx(v) => ("Nufx", v.data.major_minor_version()),
        Ssbh::Shdr(v) => ("Shdr", v.data.major_minor_version()),
    };
    Some((k.0, k.1, s))
}

pub fn versions() {
    // One file per type: the header, the version, and a body of null pointers and empty arrays.
    let major = below(4) as u16 + if below(20) == 0 { 256 } else { 0 };
    let (name, code, supported) = TYPES[below(TYPES.len() as u64) as usize];
    for minor in 0..300u16 {
        let mut f = vec![0u8; 320];
        f[..4].copy_from_slice(b"HBSS");
        f[4] = 64;
        f[16..20].copy_from_slice(code);
        f[20..22].copy_from_slice(&major.to_le_bytes());
        f[22..24].copy_from_slice(&minor.to_le_bytes());
        let want = supported.contains(&(major, minor));
        match kind(&f) {
            Some((n, v, _)) => assert!(want && n == name && v == (major, minor), "{name} {major}.{minor} is read as {n} {v:?}"),
            None => assert!(!want, "{name} {major}.{minor} is rejected"),
        }
    }
}

fn headers_of<T: FileType>() {
    let v: T = gen();
    let mut w = Cursor::new(Vec::new());
    if v.put(&mut w).is_err() {
        assume(false);
    }
    let f = w.into_inner();
    let dbg = format!("{v:?}");
    let me = match TYPES.iter().find(|t| t.0 == T::NAME) {
        Some(t) => t,
        None => {
            assert!(kind(&f).is_none() || &f[..4] == b"HBSS", "{} is read as a container", T::NAME);
            return;
        }
    };
    assert!(&f[..4] == b"HBSS" && f[4..16] == [64, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], "{}: header {:?}", T::NAME, &f[..16]);
    assert!(&f[16..20] == me.1, "{}: type code {:?}", T::NAME, &f[16..20]);
    let version = (u16::from_le_bytes([f[20], f[21]]), u16::from_le_bytes([f[22], f[23]]));
    assert!(me.2.contains(&version), "{}: version {version:?}", T::NAME);
    let (k, ver, s) = kind(&f).unwrap_or_else(|| panic!("{}: the container reader rejects it: {dbg}", T::NAME));
    assert!(k == T::NAME && ver == version, "{} {version:?} is read as {k} {ver:?}", T::NAME);
    // The generic container writes the same file as the type itself.
    let mut w = Cursor::new(Vec::new());
    s.write(&mut w).unwrap();
    assert!(w.into_inner() == f, "{}: the container writes another file", T::NAME);
    // No other type accepts it.
    macro_rules! others {
        ($($t:ident),*) => { $( if T::NAME != stringify!($t) {
            assert!($t::read(&mut Cursor::new(&f)).is_err(), "{} is read as {}", T::NAME, stringify!($t));
        } )* };
    }
    others!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr);
    // Unknown signatures, type codes and versions are errors.
    let mut g = f.clone();
    let i = [0, 1, 2, 3, 16, 17, 18, 19][below(8) as usize];
    g[i] = any();
    if g[i] != f[i] {
        let code: [u8; 4] = g[16..20].try_into().unwrap();
        assert!(i >= 16 && TYPES.iter().any(|t| *t.1 == code) || kind(&g).is_none(), "{}: unknown code accepted", T::NAME);
        assert!(T::get(&mut Cursor::new(&g)).is_err(), "{}: unknown code accepted", T::NAME);
    }
    let mut g = f.clone();
    g[20..22].copy_from_slice(&(below(4) as u16).to_le_bytes());
    g[22..24].copy_from_slice(&if any() { below(13) as u16 } else { any::<u16>() }.to_le_bytes());
    let other = (u16::from_le_bytes([g[20], g[21]]), u16::from_le_bytes([g[22], g[23]]));
    match kind(&g) {
        Some((k, ver, _)) => assert!(k == T::NAME && ver == other && me.2.contains(&other), "{}: version {other:?} is read as {ver:?}", T::NAME),
        None => assert!(T::get(&mut Cursor::new(&g)).is_err()),
    }
}
pub fn headers() {
    any_type!(headers_of)
}

fn paths_of<T: FileType>() {
    let v: T = gen();
    let mut w = Cursor::new(Vec::new());
    if v.put(&mut w).is_err() {
        assume(false);
    }
    let f = w.into_inner();
    let dir = std::env::temp_dir().join(format!("verif_paths_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("f.bin");
    // A longer file that was there before leaves nothing behind.
    std::fs::write(&p, vec![0x5A; f.len() + 40]).unwrap();
    v.put_path(&p).unwrap();
    let g = std::fs::read(&p).unwrap();
    let back = T::get_path(&p);
    let any = SsbhFile::from_file(&p);
    let mut again = None;
    if let Ok(s) = &any {
        s.write_to_file(&p).unwrap();
        again = Some(std::fs::read(&p).unwrap());
    }
    let missing = T::get_path(&dir.join("missing")).is_err();
    let _ = std::fs::remove_dir_all(&dir);
    assert!(missing, "a missing file is read");
    assert!(g == f, "{}: writing to a path differs from writing the bytes", T::NAME);
    let back = back.unwrap_or_else(|e| panic!("{}: {e}", T::NAME));
    assert!(format!("{back:?}") == format!("{v:?}"), "{}: reading from a path", T::NAME);
    if TYPES.iter().any(|t| t.0 == T::NAME) {
        assert!(any.is_ok() && again == Some(f), "{}: container file", T::NAME);
    }
}
pub fn paths() {
    any_type!(paths_of)
}

// ------------------------------------------------------------------ malformed files (C03)

/// Reading `f` as a `T` comes back, within memory that the file accounts for.
pub fn reads<T: FileType>(f: &[u8]) -> bool {
    let s = crate::mem::start();
    let r = T::get(&mut Cursor::new(f));
    let any = SsbhFile::read(&mut Cursor::new(f)).is_ok();
    let peak = crate::mem::peak_since(s);
    // One byte buffer may be reserved at once up to 100 MiB, one array up to 1024 elements.
    let limit = (128 << 20) + (64 << 10) * f.len();
    assert!(peak <= limit, "{}: reading {} bytes takes {peak} bytes of memory", T::NAME, f.len());
    assert!(!any || !TYPES.iter().any(|t| t.0 == T::NAME) || r.is_ok() || &f[16..20] != TYPES.iter().find(|t| t.0 == T::NAME).unwrap().1, "{}: the container reader accepts what the type rejects", T::NAME);
    r.is_ok()
}

/// A value that is interesting as an offset, count or code in a file of `len` bytes.
pub fn odd(len: usize, at: usize) -> u64 {
    match below(14) {
        0 => 0,
        1 => u64::MAX,
        2 => i64::MAX as u64,
        3 => i64::MAX as u64 + 1,
        4 => u64::MAX - at as u64,
        5 => (u64::MAX - at as u64).wrapping_add(1),
        6 => len as u64,
        7 => (len - at.min(len)) as u64,
        8 => len as u64 + 1,
        9 => u32::MAX as u64,
        10 => 1 << 31,
        11 => below(32),
        12 => below(len as u64 + 9),
        _ => any(),
    }
}

/// Alters, cuts or extends a few fields of a file.
pub fn alter(f: &mut Vec<u8>, first: usize) {
    for _ in 0..below(6) + 1 {
        let n = f.len();
        if n <= first {
            break;
        }
        let at = first + below((n - first) as u64) as usize;
        match below(8) {
            0 => f[at] = any(),
            1 => f[at] ^= 1 << below(8),
            2 => {
                f.truncate(at);
            }
            3 => {
                let k = below(24) as usize;
                let b = bytes(k);
                f.splice(at..at, b);
            }
            4 => {
                let at = first + (at - first) / 4 * 4;
                let v = odd(n, at).to_le_bytes();
                for i in 0..4 {
                    if at + i < n {
                        f[at + i] = v[i];
                    }
                }
            }
            _ => {
                let at = first + (at - first) / 4 * 4;
                let v = odd(n, at).to_le_bytes();
                for i in 0..8 {
                    if at + i < n {
                        f[at + i] = v[i];
                    }
                }
            }
        }
    }
}

pub fn file_of<T: FileType>() -> Vec<u8> {
    let v: T = gen();
    let mut w = Cursor::new(Vec::new());
    if v.put(&mut w).is_err() {
        assume(false);
    }
    w.into_inner()
}

fn altered_of<T: FileType>() {
    let mut f = file_of::<T>();
    let first = if any() && T::NAME != "Adj" && T::NAME != "MeshEx" { 24 } else { 0 };
    alter(&mut f, first);
    reads::<T>(&f);
}
pub fn altered() {
    any_type!(altered_of)
}

fn body_of<T: FileType>() {
    let n = below(900) as usize;
    let mut f = bytes(n);
    // Words of eight bytes that are mostly small.
    for i in (0..n).step_by(8) {
        if f[i] & 3 != 0 {
            for k in 2..8 {
                if i + k < n {
                    f[i + k] = 0;
                }
            }
        }
    }
    if let Some(t) = TYPES.iter().find(|t| t.0 == T::NAME) {
        let mut g = vec![0u8; 24];
        g[..4].copy_from_slice(b"HBSS");
        g[4] = 64;
        g[16..20].copy_from_slice(t.1);
        let (a, b) = t.2[below(t.2.len() as u64) as usize];
        g[20..22].copy_from_slice(&a.to_le_bytes());
        g[22..24].copy_from_slice(&b.to_le_bytes());
        g.extend(f);
        f = g;
    }
    reads::<T>(&f);
}
pub fn body() {
    any_type!(body_of)
}

fn truncated_of<T: FileType>() {
    let f = file_of::<T>();
    if f.len() > 600 {
        assume(false);
    }
    for n in 0..f.len() {
        reads::<T>(&f[..n]);
    }
    assert!(reads::<T>(&f));
}
pub fn truncated() {
    any_type!(truncated_of)
}
