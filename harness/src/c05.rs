//! C05: file type and version.
//! @fs=300
use crate::env::*;
use crate::nd::*;
use binrw::{BinRead, Endian};
use ssbh_lib::formats::*;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::{Read, Result, Seek, SeekFrom};

const LE: Endian = Endian::Little;

/// The version word and nothing behind it: looking further means that the version was taken for a known one.
struct Words {
    b: [u8; 4],
    pos: usize,
}
impl Read for Words {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.read_exact(buf)?;
        Ok(buf.len())
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let n = buf.len();
        assert!(self.pos + n <= 4, "the body of an unknown version is read");
        for i in 0..n {
            buf[i] = self.b[self.pos + i];
        }
        self.pos += n;
        Ok(())
    }
}
impl Seek for Words {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let x = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => 4 + d,
        };
        self.pos = x as usize;
        Ok(x as u64)
    }
    fn stream_position(&mut self) -> Result<u64> {
        Ok(self.pos as u64)
    }
}

/// Every version that is not documented is rejected on sight.
fn unknown<T>(supported: &[(u16, u16)])
where
    T: BinRead<Args<'static> = (u16, u16)> + SsbhWrite + Version,
{
    let (major, minor): (u16, u16) = if cfg!(kani) || any() { (any(), any()) } else { (below(4) as u16, below(12) as u16) };
    for (a, i) in supported {
        if *a == major && *i == minor {
            assume(false);
        }
    }
    let (x, y) = (major.to_le_bytes(), minor.to_le_bytes());
    let mut r = Words { b: [x[0], x[1], y[0], y[1]], pos: 0 };
    let v = Versioned::<T>::read_options(&mut r, LE, ());
    reach!(true, "rejected");
    assert!(v.is_err());
    leak(v);
}

/// A body of zero bytes of the documented version is accepted, is a value of this version, and the
/// value writes the same bytes again.
fn known<T, const N: usize>(major: u16, minor: u16)
where
    T: BinRead<Args<'static> = (u16, u16)> + SsbhWrite + Version,
{
    let mut b = [0u8; N];
    b[0] = major as u8;
    b[2] = minor as u8;
    match Versioned::<T>::read_options(&mut Straight { b, pos: 0 }, LE, ()) {
        Ok(v) => {
            assert!(v.data.major_minor_version() == (major, minor));
            reach!(true, "accepted");
            let mut w = SpecWriter::at_watching(0, below(4));
            let mut dp = 0;
            v.ssbh_write(&mut w, &mut dp).unwrap();
            assert!(w.hits == 1 && w.val == b[w.watch as usize]);
            leak(v);
        }
        Err(e) => {
            leak(e);
            assert!(false, "a documented version is rejected");
        }
    }
}

contracts! { kani {
    /// Helper bone files: every version other than 1.1 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_hlpb() { unknown::<hlpb::Hlpb>(&[(1, 1)]) }
    /// Helper bone files: version 1.1 is read as version 1.1 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_hlpb_11() { known::<hlpb::Hlpb, 68>(1, 1) }
    /// Material files: every version other than 1.5 and 1.6 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_matl() { unknown::<matl::Matl>(&[(1, 5), (1, 6)]) }
    /// Material files: version 1.5 is read as version 1.5 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_matl_15() { known::<matl::Matl, 20>(1, 5) }
    /// Material files: version 1.6 is read as version 1.6 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_matl_16() { known::<matl::Matl, 20>(1, 6) }
    /// Model files: every version other than 1.7 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_modl() { unknown::<modl::Modl>(&[(1, 7)]) }
    /// Model files: version 1.7 is read as version 1.7 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_modl_17() { known::<modl::Modl, 68>(1, 7) }
    /// Mesh files: every version other than 1.8 and 1.9 and 1.10 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_mesh() { unknown::<mesh::Mesh>(&[(1, 8), (1, 9), (1, 10)]) }
    /// Mesh files: version 1.8 is read as version 1.8 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_mesh_18() { known::<mesh::Mesh, 204>(1, 8) }
    /// Mesh files: version 1.9 is read as version 1.9 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_mesh_19() { known::<mesh::Mesh, 204>(1, 9) }
    /// Mesh files: version 1.10 is read as version 1.10 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_mesh_110() { known::<mesh::Mesh, 204>(1, 10) }
    /// Skeleton files: every version other than 1.0 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_skel() { unknown::<skel::Skel>(&[(1, 0)]) }
    /// Skeleton files: version 1.0 is read as version 1.0 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_skel_10() { known::<skel::Skel, 84>(1, 0) }
    /// Animation files: every version other than 1.2 and 2.0 and 2.1 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_anim() { unknown::<anim::Anim>(&[(1, 2), (2, 0), (2, 1)]) }
    /// File lists: every version other than 1.0 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_nlst() { unknown::<nlst::Nlst>(&[(1, 0)]) }
    /// File lists: version 1.0 is read as version 1.0 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_nlst_10() { known::<nlst::Nlst, 20>(1, 0) }
    /// Render pass files: every version other than 1.6 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_nrpd() { unknown::<nrpd::Nrpd>(&[(1, 6)]) }
    /// Render pass files: version 1.6 is read as version 1.6 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_nrpd_16() { known::<nrpd::Nrpd, 156>(1, 6) }
    /// Shader program files: every version other than 1.0 and 1.1 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_nufx() { unknown::<nufx::Nufx>(&[(1, 0), (1, 1)]) }
    /// Shader program files: version 1.0 is read as version 1.0 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_nufx_10() { known::<nufx::Nufx, 36>(1, 0) }
    /// Shader program files: version 1.1 is read as version 1.1 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_nufx_11() { known::<nufx::Nufx, 36>(1, 1) }
    /// Shader files: every version other than 1.2 is rejected on sight.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unknown_shdr() { unknown::<shdr::Shdr>(&[(1, 2)]) }
    /// Shader files: version 1.2 is read as version 1.2 and written again as it.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_known_shdr_12() { known::<shdr::Shdr, 20>(1, 2) }
    /// Writing a version header: major, minor, then the data, for any versioned data.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_versioned_write() {
        let v = Versioned { data: Body { major: any(), minor: any(), child: Child::node() } };
        let p = pos();
        let mut w = SpecWriter::at(p);
        let mut dp = 0;
        v.ssbh_write(&mut w, &mut dp).unwrap();
        assert!(v.size_in_bytes() == 4 + v.data.child.size);
        assert!(v.data.child.at.get() == p + 4 && v.data.child.dp_in.get() >= p + v.size_in_bytes());
        let (a, b) = (v.data.major.to_le_bytes(), v.data.minor.to_le_bytes());
        if w.watch >= p && w.watch < p + 4 {
            assert!(w.hits == 1 && w.val == [a[0], a[1], b[0], b[1]][(w.watch - p) as usize]);
        } else {
            assert!(w.hits == 0);
        }
    }
} native {
    /// [bounded: every version number below 300 for every file type] exactly the documented versions are readable.
    fn n_versions() { crate::walk::versions() }
    /// [bounded: generated files of every type, cases spaced by file system calls] writing to a path and reading from a path are the same as writing and reading the bytes. @cases=1500
    fn n_paths() { crate::walk::paths() }
    /// [bounded: generated files of every type] a written file starts with its signature, header, type code and version, and is read as no other type and under no other signature.
    fn n_headers() { crate::walk::headers() }
} }

/// Any versioned data.
struct Body {
    major: u16,
    minor: u16,
    child: Child<8>,
}
impl Version for Body {
    fn major_minor_version(&self) -> (u16, u16) {
        (self.major, self.minor)
    }
}
impl BinRead for Body {
    type Args<'a> = (u16, u16);
    fn read_options<R: std::io::Read + std::io::Seek>(_: &mut R, _: Endian, a: (u16, u16)) -> binrw::BinResult<Self> {
        Ok(Body { major: a.0, minor: a.1, child: Child::node() })
    }
}
impl SsbhWrite for Body {
    fn ssbh_write<W: std::io::Write + std::io::Seek>(&self, w: &mut W, dp: &mut u64) -> std::io::Result<()> {
        self.child.ssbh_write(w, dp)
    }
    fn size_in_bytes(&self) -> u64 {
        self.child.size
    }
}
