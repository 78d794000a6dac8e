//! S01: shader metadata keeps every declared entry and malformed shaders are errors.
//! @fs=300
use crate::nd::*;
use ssbh_data::shdr_data::*;

pub const TYPES: [(u32, DataType); 15] = [
    (0, DataType::Boolean),
    (4, DataType::Int),
    (7, DataType::Unk7),
    (20, DataType::UnsignedInt),
    (22, DataType::UVec3),
    (36, DataType::Float),
    (37, DataType::Vector2),
    (38, DataType::Vector3),
    (39, DataType::Vector4),
    (50, DataType::Matrix4x4),
    (67, DataType::Sampler2d),
    (68, DataType::Sampler3d),
    (69, DataType::SamplerCube),
    (73, DataType::Sampler2dArray),
    (103, DataType::Image2d),
];

#[cfg(not(kani))]
pub mod layout {
    pub use super::*;
    pub use std::io::Cursor;

    pub const HEADER: usize = 288;
    pub const CODE_LENGTH: usize = 2504;
    pub const CODE: usize = 2896;
    pub const COUNTS: [usize; 4] = [HEADER + 44, HEADER + 52, HEADER + 60, HEADER + 68];
    pub const STRINGS: usize = HEADER + 104;
    pub const SIZES: [usize; 4] = [108, 164, 92, 92];
    /// what of an entry holds values; the rest is padding
    pub const USED: [usize; 4] = [76, 104, 60, 60];

    /// One declared entry: its name and the values that are kept.
    #[derive(Debug, PartialEq, Clone)]
    pub struct Entry {
        pub name: String,
        pub data_type: Option<DataType>,
        pub values: Vec<u32>,
    }
    pub type Meta = [Vec<Entry>; 4];

    pub fn of(m: &MetaData) -> Meta {
        let attribute = |a: &Attribute| Entry { name: a.name.clone(), data_type: Some(a.data_type), values: vec![a.location as u32] };
        [
            m.buffers
                .iter()
                .map(|b| Entry { name: b.name.clone(), data_type: None, values: vec![b.used_size_in_bytes, b.uniform_count, b.unk4 as u32, b.unk5 as u32, b.unk6 as u32, b.unk7 as u32] })
                .collect(),
            m.uniforms
                .iter()
                .map(|u| Entry { name: u.name.clone(), data_type: Some(u.data_type), values: vec![u.buffer_index as u32, u.uniform_buffer_offset as u32, u.unk11 as u32] })
                .collect(),
            m.inputs.iter().map(attribute).collect(),
            m.outputs.iter().map(attribute).collect(),
        ]
    }
    pub fn word(b: &[u8], at: u64) -> Option<u32> {
        let at = usize::try_from(at).ok()?;
        Some(u32::from_le_bytes(b.get(at..at.checked_add(4)?)?.try_into().unwrap()))
    }
    /// Where the values of a kind of entry are.
    const VALUES: [&[u64]; 4] = [&[40, 44, 48, 52, 56, 60], &[44, 48, 76], &[48], &[48]];

    /// What a shader binary declares. Second: whether it is a matter of taste (padding or an empty
    /// name outside of the binary). Third: the length of the names.
    pub fn decode(b: &[u8]) -> (Option<Meta>, bool, u64) {
        let (mut taste, mut names) = (false, 0);
        let m = declared(b, &mut taste, &mut names);
        (m, taste, names)
    }
    fn declared(b: &[u8], taste: &mut bool, names: &mut u64) -> Option<Meta> {
        let n = b.len() as u64;
        word(b, HEADER as u64 + 104)?;
        let entries = word(b, HEADER as u64 + 4)? as u64;
        let code = word(b, CODE_LENGTH as u64)? as u64;
        if CODE as u64 + code > n {
            if code > 0 {
                return None;
            }
            *taste = true;
        }
        let strings = entries + word(b, STRINGS as u64)? as u64;
        let mut m: Meta = Default::default();
        for k in 0..4 {
            let count = word(b, COUNTS[k] as u64)? as u64;
            let table = entries + word(b, COUNTS[k] as u64 + 4)? as u64;
            for i in 0..count {
                let at = table + i * SIZES[k] as u64;
                word(b, at + USED[k] as u64 - 4)?;
                *taste |= at + SIZES[k] as u64 > n;
                let data_type = match k {
                    0 => None,
                    _ => {
                        let t = word(b, at + 40)?;
                        Some(TYPES.iter().find(|x| x.0 == t)?.1)
                    }
                };
                let values = VALUES[k].iter().map(|v| word(b, at + v)).collect::<Option<_>>()?;
                m[k].push(Entry { name: String::new(), data_type, values });
            }
        }
        for k in 0..4 {
            let table = entries + word(b, COUNTS[k] as u64 + 4)? as u64;
            for (i, e) in m[k].iter_mut().enumerate() {
                let at = table + (i * SIZES[k]) as u64;
                let start = strings + word(b, at)? as u64;
                let len = (word(b, at + 4)? as u64).saturating_sub(1);
                if start + len > n {
                    if len > 0 {
                        return None;
                    }
                    *taste = true;
                    continue;
                }
                *names += len;
                e.name = String::from_utf8_lossy(&b[start as usize..(start + len) as usize]).into_owned();
            }
        }
        Some(m)
    }

    pub fn put(b: &mut Vec<u8>, at: usize, x: u32) {
        if b.len() < at + 4 {
            b.resize(at + 4, 0);
        }
        b[at..at + 4].copy_from_slice(&x.to_le_bytes());
    }
    /// A shader binary with up to `max` entries of each kind, and what it declares.
    pub fn binary(max: u64) -> (Vec<u8>, Meta) {
        let noise: u8 = any();
        let mut b = vec![noise; CODE + below(200) as usize];
        let code = b.len() - CODE;
        put(&mut b, CODE_LENGTH, code as u32);
        let entries = match below(3) {
            0 => 0,
            1 => CODE + code,
            _ => below(CODE as u64) as usize,
        };
        put(&mut b, HEADER + 4, entries as u32);
        let mut m: Meta = Default::default();
        let mut places = Vec::new();
        // the tables, in any order
        let first = below(4) as usize;
        for k in 0..4 {
            let k = (k + first) % 4;
            let count = below(max + 1) as usize;
            let gap = below(40) as usize;
            let at = b.len() + gap;
            b.resize(at + count * SIZES[k], noise);
            put(&mut b, COUNTS[k], count as u32);
            put(&mut b, COUNTS[k] + 4, (at - entries) as u32);
            for i in 0..count {
                let at = at + i * SIZES[k];
                for w in (8..USED[k]).step_by(4) {
                    put(&mut b, at + w, any());
                }
                let data_type = if k > 0 {
                    let t = TYPES[below(15) as usize];
                    put(&mut b, at + 40, t.0);
                    Some(t.1)
                } else {
                    None
                };
                let values = VALUES[k].iter().map(|v| word(&b, at as u64 + v).unwrap()).collect();
                m[k].push(Entry { name: String::new(), data_type, values });
                places.push((k, i, at));
            }
        }
        let strings = b.len() + below(64) as usize;
        b.resize(strings, noise);
        put(&mut b, STRINGS, (strings - entries) as u32);
        if any() {
            places.reverse();
        }
        for (k, i, at) in places {
            let name: String = match below(6) {
                0 => String::new(),
                1 => "nuVertex名".into(),
                _ => (0..below(24)).map(|_| (b'A' + below(57) as u8) as char).collect(),
            };
            let start = b.len();
            put(&mut b, at, (start - strings) as u32);
            put(&mut b, at + 4, name.len() as u32 + 1);
            b.extend(name.as_bytes());
            b.push(0);
            m[k][i].name = name;
        }
        (b, m)
    }
    pub fn same(got: &Meta, want: &Meta, b: &[u8]) {
        for k in 0..4 {
            let what = ["buffers", "uniforms", "inputs", "outputs"][k];
            assert!(got[k].len() == want[k].len(), "{} declared {what} are decoded as {}", want[k].len(), got[k].len());
            for (i, (x, y)) in got[k].iter().zip(&want[k]).enumerate() {
                assert!(x == y, "entry {i} of the {what} is {y:?} and is decoded as {x:?} ({} bytes)", b.len());
            }
        }
    }
    /// Decodes `b` and compares the outcome with what is declared.
    pub fn check(b: &[u8]) {
        let (want, taste, names) = decode(b);
        let s = crate::mem::start();
        let r = MetaData::read(&mut Cursor::new(b));
        let peak = crate::mem::peak_since(s);
        assert!(peak as u64 <= (1 << 16) + 8 * b.len() as u64 + 8 * names, "{peak} bytes of memory for a binary of {} bytes", b.len());
        match (r, want) {
            (Ok(m), Some(w)) => same(&of(&m), &w, b),
            (Ok(m), None) => panic!("a binary of {} bytes that does not hold what it declares is decoded as {m:?}", b.len()),
            (Err(e), Some(_)) => assert!(taste, "rejected: {e}"),
            (Err(_), None) => {}
        }
    }
}

/// The type a code stands for (as its discriminant).
fn want(c: u32) -> Option<u32> {
    let t = match c {
        0 => DataType::Boolean,
        4 => DataType::Int,
        7 => DataType::Unk7,
        20 => DataType::UnsignedInt,
        22 => DataType::UVec3,
        36 => DataType::Float,
        37 => DataType::Vector2,
        38 => DataType::Vector3,
        39 => DataType::Vector4,
        50 => DataType::Matrix4x4,
        67 => DataType::Sampler2d,
        68 => DataType::Sampler3d,
        69 => DataType::SamplerCube,
        73 => DataType::Sampler2dArray,
        103 => DataType::Image2d,
        _ => return None,
    };
    Some(t as u32)
}

/// A file that has an entry of `N` bytes with a name of a given length, and other bytes everywhere else.
fn entry<const N: usize>(mut b: [u8; N], name: u32) -> crate::env::SpecReader<N> {
    b[4..8].copy_from_slice(&name.to_le_bytes());
    let mut r = crate::env::SpecReader::new(1 << 40, u64::MAX, b);
    r.sure = true;
    r.endless = true;
    r.key = Some(any());
    r
}
/// The word at `at` of the entry.
fn field<const N: usize>(b: &[u8; N], at: usize) -> u32 {
    u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]])
}
/// The contract of `from_utf8_lossy` for ASCII text.
#[cfg(kani)]
fn ascii(b: &[u8]) -> std::borrow::Cow<'_, str> {
    std::borrow::Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(b) })
}
/// Whether the name is what lies at `offset` of the strings of the file.
#[cfg(feature = "hooks")]
fn named<const N: usize>(name: &str, r: &crate::env::SpecReader<N>, entries: u32, strings: u32, offset: u32) -> bool {
    let at = entries as u64 + strings as u64 + offset as u64;
    let k = r.key.unwrap();
    if cfg!(kani) {
        let n = name.as_bytes();
        n.len() == 2 && n[0] == at as u8 ^ k && n[1] == (at + 1) as u8 ^ k && r.pos == at + 2
    } else {
        name == String::from_utf8_lossy(&[at as u8 ^ k, (at + 1) as u8 ^ k])
    }
}

contracts! { kani {
    /// A buffer has the name its entry declares, read from the file's strings, and the sizes and values stored in the entry, for every entry and every place of the strings.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, ascii))]
    fn p_buffer() {
        let mut r = entry::<108>(any(), 3);
        let b = r.fixed;
        let (e, s): (u32, u32) = (any(), any());
        match verif_hooks::buffer(&mut r, e, s) {
            Ok(x) => {
                assert!(named(&x.name, &r, e, s, field(&b, 0)), "the name");
                assert!(x.used_size_in_bytes == field(&b, 40) && x.uniform_count == field(&b, 44));
                assert!(x.unk4 as u32 == field(&b, 48) && x.unk5 as u32 == field(&b, 52) && x.unk6 as u32 == field(&b, 56) && x.unk7 as u32 == field(&b, 60));
                leak(x);
            }
            Err(e) => {
                leak(e);
                panic!("rejected");
            }
        }
    }
    /// A uniform has the name and the values its entry declares, for every entry of a documented type.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, ascii))]
    fn p_uniform() {
        let mut r = entry::<164>(any(), 3);
        r.fixed[40..44].copy_from_slice(&[38, 0, 0, 0]);
        let b = r.fixed;
        let (e, s): (u32, u32) = (any(), any());
        match verif_hooks::uniform(&mut r, e, s) {
            Ok(x) => {
                assert!(named(&x.name, &r, e, s, field(&b, 0)), "the name");
                assert!(x.data_type == DataType::Vector3);
                assert!(x.buffer_index as u32 == field(&b, 44) && x.uniform_buffer_offset as u32 == field(&b, 48) && x.unk11 as u32 == field(&b, 76));
                leak(x);
            }
            Err(e) => {
                leak(e);
                panic!("rejected");
            }
        }
    }
    /// An input or output has the name, type and location its entry declares.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, ascii))]
    fn p_attribute() {
        let mut r = entry::<92>(any(), 3);
        r.fixed[40..44].copy_from_slice(&[38, 0, 0, 0]);
        let b = r.fixed;
        let (e, s): (u32, u32) = (any(), any());
        match verif_hooks::attribute(&mut r, e, s) {
            Ok(x) => {
                assert!(named(&x.name, &r, e, s, field(&b, 0)), "the name");
                assert!(x.data_type == DataType::Vector3 && x.location as u32 == field(&b, 48));
                leak(x);
            }
            Err(e) => {
                leak(e);
                panic!("rejected");
            }
        }
    }
    /// Entries follow one another at 108 bytes for buffers, 164 for uniforms and 92 for inputs and outputs.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_stride() {
        let mut r = entry::<164>(any(), 3);
        r.fixed[40..44].copy_from_slice(&[38, 0, 0, 0]);
        let (at, kind) = (r.pos, below(3) as u32);
        match verif_hooks::skip_entry(&mut r, kind) {
            Ok(()) => assert!(r.pos == at + [108, 164, 92][kind as usize]),
            Err(e) => {
                leak(e);
                panic!("rejected");
            }
        }
    }
    /// Exactly the documented data type codes are accepted, each for its own type.
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_type() {
        use binrw::BinRead;
        let b: [u8; 4] = any();
        let c = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
        let mut r = crate::env::SpecReader::new(16, u64::MAX, b);
        r.sure = true;
        match DataType::read_options(&mut r, binrw::Endian::Little, ()) {
            Ok(t) => {
                assert!(want(c) == Some(t as u32));
                reach!(c == 103, "last");
            }
            Err(e) => {
                leak(e);
                assert!(want(c).is_none());
                reach!(true, "undocumented");
            }
        }
    }
} native {
    /// [bounded: up to 5 entries of each kind, tables anywhere behind the code] every declared entry is decoded with its name and values, in order.
    fn n_decode() {
        use layout::*;
        let (b, m) = binary(5);
        let (d, taste, _) = decode(&b);
        assert!(d.as_ref() == Some(&m) && !taste, "the generated binary is wrong");
        let r = MetaData::read(&mut Cursor::new(&b)).unwrap_or_else(|e| panic!("rejected: {e}"));
        same(&of(&r), &m, &b);
        let s = ShaderBinary::read(&mut Cursor::new(&b)).unwrap();
        let code = word(&b, CODE_LENGTH as u64).unwrap() as usize;
        assert!(s.program_code == b[CODE..CODE + code], "the code is not what is stored");
    }
    /// [bounded: up to 4 shaders of up to 2 entries of each kind] every shader of a file is decoded with its own name, stage and metadata, in order.
    /// @cases=8000
    fn n_file() {
        use layout::*;
        use ssbh_lib::formats::shdr::*;
        let stages = [ShaderStage::Vertex, ShaderStage::Geometry, ShaderStage::Fragment, ShaderStage::Compute];
        let all: Vec<_> = (0..below(5))
            .map(|i| {
                let (b, m) = binary(2);
                (format!("shader{i}{}", if any() { "_long_name" } else { "" }), stages[below(4) as usize], b, m)
            })
            .collect();
        let f = Shdr::V12 {
            shaders: all
                .iter()
                .map(|(n, s, b, _)| Shader { name: n.as_str().into(), shader_stage: *s, unk3: any(), shader_binary: b.clone().into(), binary_size: b.len() as u64 })
                .collect::<Vec<_>>()
                .into(),
        };
        let mut w = Cursor::new(Vec::new());
        f.write(&mut w).unwrap();
        if !all.is_empty() && below(4) == 0 {
            // A shader without its tables makes the file an error; it is not passed over.
            let Shdr::V12 { mut shaders } = f;
            let i = below(all.len() as u64) as usize;
            shaders.elements[i].shader_binary.elements.truncate([0, 1, 288, 2896][below(4) as usize]);
            assert!(ShdrData::try_from(&Shdr::V12 { shaders }).is_err(), "a file with an incomplete shader {i} is accepted");
            return;
        }
        let d = ShdrData::read(&mut Cursor::new(w.into_inner())).unwrap_or_else(|e| panic!("rejected: {e}"));
        assert!(d.shaders.len() == all.len(), "{} shaders are read as {}", all.len(), d.shaders.len());
        for (x, (n, s, b, m)) in d.shaders.iter().zip(&all) {
            assert!(x.name == *n && x.shader_stage == *s, "{n} {s:?} is read as {} {:?}", x.name, x.shader_stage);
            same(&of(&x.meta_data), m, b);
        }
    }
    /// [bounded: up to 3 entries of each kind, one to three altered words] whatever an altered binary declares is decoded, or is an error if it does not lie inside; memory stays proportional to what is there.
    fn n_altered() {
        use layout::*;
        let (mut b, _) = binary(3);
        for _ in 0..below(3) + 1 {
            let k = below(4) as usize;
            let table = word(&b, HEADER as u64 + 4).unwrap() as usize + word(&b, COUNTS[k] as u64 + 4).unwrap_or(0) as usize;
            let at = match below(8) {
                0 => COUNTS[k],
                1 => COUNTS[k] + 4,
                2 => STRINGS,
                3 => HEADER + 4,
                4 => CODE_LENGTH,
                5 => table + SIZES[k] * below(3) as usize,
                6 => table + SIZES[k] * below(3) as usize + 4,
                _ => table + SIZES[k] * below(3) as usize + 40,
            };
            let old = word(&b, at as u64).unwrap_or(0);
            let n = b.len() as u32;
            let x = match below(9) {
                0 => any(),
                1 => old.wrapping_add(1),
                2 => old.wrapping_sub(1),
                3 => n.wrapping_sub(old),
                4 => n,
                5 => n - word(&b, HEADER as u64 + 4).unwrap().min(n),
                6 => u32::MAX - below(3) as u32,
                7 => below(200) as u32,
                _ => old.wrapping_add(below(64) as u32),
            };
            if at + 4 <= b.len() {
                put(&mut b, at, x);
            }
        }
        check(&b);
    }
    /// [bounded: up to 3 entries of each kind] a binary cut at any place is an error unless nothing that it declares is missing.
    fn n_cut() {
        use layout::*;
        let (mut b, _) = binary(3);
        let n = b.len() as u64;
        let k = match below(4) {
            0 => below(n + 1),
            1 => n - below(60),
            2 => CODE as u64 + below(n + 1 - CODE as u64),
            _ => [0, 287, 288, 395, 396, 397, 2504, 2507, 2508, 2895, 2896, 2897][below(12) as usize],
        };
        b.truncate(k as usize);
        check(&b);
    }
    /// [bounded: noise of up to 6000 bytes with up to two plausible words] arbitrary bytes give an error or what they declare.
    fn n_noise() {
        use layout::*;
        let mut b = crate::walk::bytes(below(6001) as usize);
        for at in COUNTS {
            if below(4) > 0 && b.len() > at + 4 {
                put(&mut b, at, below(4) as u32);
            }
        }
        if below(4) > 0 && b.len() > CODE {
            put(&mut b, CODE_LENGTH, below(300) as u32);
        }
        if below(4) > 0 && b.len() > CODE {
            put(&mut b, HEADER + 4, below(3000) as u32);
            for at in COUNTS {
                put(&mut b, at + 4, below(3000) as u32);
            }
        }
        check(&b);
    }
    /// [bounded: one binary of up to 400 entries of each kind, or 250 to 400 shaders] nothing is lost or moved in large files.
    /// @cases=400 @ms=6000
    fn n_long() {
        use layout::*;
        use ssbh_lib::formats::shdr::*;
        let one: bool = any();
        let all: Vec<_> = (0..if one { 1 } else { 250 + below(150) }).map(|i| (format!("shader{i}"), binary(if one { 400 } else { 1 }))).collect();
        let f = Shdr::V12 {
            shaders: all.iter().map(|(n, (b, _))| Shader { name: n.as_str().into(), shader_stage: ShaderStage::Fragment, unk3: 0, shader_binary: b.clone().into(), binary_size: b.len() as u64 }).collect::<Vec<_>>().into(),
        };
        let mut w = Cursor::new(Vec::new());
        f.write(&mut w).unwrap();
        let d = ShdrData::read(&mut Cursor::new(w.into_inner())).unwrap_or_else(|e| panic!("rejected: {e}"));
        assert!(d.shaders.len() == all.len(), "{} shaders are read as {}", all.len(), d.shaders.len());
        for (x, (n, (b, m))) in d.shaders.iter().zip(&all) {
            assert!(x.name == *n, "{n} is read as {}", x.name);
            same(&of(&x.meta_data), m, b);
        }
    }
} }
