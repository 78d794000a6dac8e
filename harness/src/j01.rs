//! J01: the JSON text of a file recreates it.
//! @bins=ssbh_lib_json,ssbh_data_json
use crate::nd::*;
use serde::de::{DeserializeOwned, Visitor};
use serde::ser::Impossible;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use ssbh_lib::{CString, Ptr64, RelPtr64, SsbhByteBuffer, SsbhString};

/// The contract of a text format, as far as the containers are concerned: null, a number or a string
/// is what it was.
#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Null,
    Num(u64),
    Text(Vec<u8>),
}
#[derive(Debug)]
pub struct No;
impl std::fmt::Display for No {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for No {}
impl serde::ser::Error for No {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        No
    }
}
impl serde::de::Error for No {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        No
    }
    fn invalid_type(_: serde::de::Unexpected<'_>, _: &dyn serde::de::Expected) -> Self {
        No
    }
}
pub struct Ser;
type Imp = Impossible<Tok, No>;
macro_rules! numbers { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<Tok, No> { Ok(Tok::Num(v as u64)) } )* } }
impl Serializer for Ser {
    type Ok = Tok;
    type Error = No;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    numbers!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
    fn serialize_f32(self, v: f32) -> Result<Tok, No> { Ok(Tok::Num(v.to_bits() as u64)) }
    fn serialize_f64(self, v: f64) -> Result<Tok, No> { Ok(Tok::Num(v.to_bits())) }
    fn serialize_str(self, v: &str) -> Result<Tok, No> { Ok(Tok::Text(v.as_bytes().to_vec())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Tok, No> { Err(No) }
    fn serialize_none(self) -> Result<Tok, No> { Ok(Tok::Null) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tok, No> { v.serialize(self) }
    fn serialize_unit(self) -> Result<Tok, No> { Ok(Tok::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, No> { Ok(Tok::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tok, No> { self.serialize_str(v) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tok, No> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, No> { Err(No) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, No> { Err(No) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, No> { Err(No) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, No> { Err(No) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, No> { Err(No) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, No> { Err(No) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, No> { Err(No) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, No> { Err(No) }
}
pub struct De(pub Tok);
impl<'de> Deserializer<'de> for De {
    type Error = No;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, No> {
        match self.0 {
            Tok::Null => v.visit_unit(),
            Tok::Num(n) => v.visit_u64(n),
            // The contracts only use ASCII text.
            Tok::Text(b) => v.visit_string(unsafe { String::from_utf8_unchecked(b) }),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, No> {
        if self.0 == Tok::Null { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, No> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn put<T: Serialize>(t: &T) -> Tok {
    match t.serialize(Ser) {
        Ok(t) => t,
        Err(e) => {
            leak(e);
            panic!("cannot be exported")
        }
    }
}
fn take<T: for<'a> Deserialize<'a>>(t: Tok) -> T {
    match T::deserialize(De(t)) {
        Ok(t) => t,
        Err(e) => {
            leak(e);
            panic!("cannot be imported")
        }
    }
}
/// The contract of `from_utf8` for ASCII text.
#[cfg(kani)]
fn ascii(b: &[u8]) -> Result<&str, std::str::Utf8Error> {
    Ok(unsafe { std::str::from_utf8_unchecked(b) })
}
/// The documented contracts of the hex crate, for two bytes.
#[cfg(kani)]
fn encode<T: AsRef<[u8]>>(t: T) -> String {
    let b = t.as_ref();
    assert!(b.len() == 2);
    unsafe { String::from_utf8_unchecked(vec![nibble(b[0] >> 4), nibble(b[0] & 15), nibble(b[1] >> 4), nibble(b[1] & 15)]) }
}
#[cfg(kani)]
fn digit(c: u8) -> u8 {
    if c < b'a' { c - b'0' } else { c - b'a' + 10 }
}
#[cfg(kani)]
fn decode<T: AsRef<[u8]>>(t: T) -> Result<Vec<u8>, hex::FromHexError> {
    let b = t.as_ref();
    assert!(b.len() == 4);
    Ok(vec![digit(b[0]) << 4 | digit(b[1]), digit(b[2]) << 4 | digit(b[3])])
}
#[allow(dead_code)]
fn nibble(n: u8) -> u8 {
    if n < 10 { b'0' + n } else { b'a' + n - 10 }
}

#[cfg(not(kani))]
mod whole {
    use super::*;
    use crate::walk::*;
    use arbitrary::{Arbitrary, Unstructured};
    use std::io::Cursor;

    /// The text format has no infinite numbers, no NaN and no text that is not UTF-8.
    pub fn expressible(dbg: &str) -> bool {
        // Debug output: numbers follow a space or a bracket.
        for w in ["NaN", "inf"] {
            for (i, _) in dbg.match_indices(w) {
                let before = dbg[..i].chars().next_back().unwrap_or(' ');
                let after = dbg[i + 3..].chars().next().unwrap_or(' ');
                if matches!(before, ' ' | '(' | '[' | '-' | '\n') && matches!(after, ' ' | ')' | ']' | ',' | '}' | '\n') {
                    return false;
                }
            }
        }
        for (i, _) in dbg.match_indices("CString([") {
            let s = &dbg[i + 9..];
            let s = &s[..s.find(']').unwrap()];
            let b: Vec<u8> = s.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            if std::str::from_utf8(&b).is_err() {
                return false;
            }
        }
        true
    }
    pub fn gen<T: for<'a> Arbitrary<'a>>() -> T {
        let n = [64, 200, 600, 1500][below(4) as usize];
        let mut b = bytes(n);
        // Mostly bytes that are text and make finite numbers.
        if below(4) != 0 {
            for x in &mut b {
                *x &= 0x7f;
            }
        }
        match T::arbitrary(&mut Unstructured::new(&b)) {
            Ok(t) => t,
            Err(_) => {
                assume(false);
                unreachable!()
            }
        }
    }
    pub fn file<T: FileType>() -> (T, Vec<u8>) {
        let v: T = gen();
        let d = format!("{v:?}");
        if !expressible(&d) || nested(&d) {
            assume(false);
        }
        let mut w = Cursor::new(Vec::new());
        if v.put(&mut w).is_err() {
            assume(false);
        }
        (v, w.into_inner())
    }
    /// A pointer to a null string, which has its own contract.
    fn nested(dbg: &str) -> bool {
        dbg.contains("RelPtr64(Some(SsbhStringN(RelPtr64(None))))") || dbg.contains("RelPtr64(Some(SsbhString(RelPtr64(None))))")
    }
    fn text<T: Serialize>(v: &T) -> String {
        if any() { serde_json::to_string(v).unwrap() } else { serde_json::to_string_pretty(v).unwrap() }
    }
    pub fn file_of<T: FileType + Serialize + DeserializeOwned>() {
        let (v, f) = file::<T>();
        let j = text(&v);
        let back: T = serde_json::from_str(&j).unwrap_or_else(|e| panic!("{}: {e}: {j}", T::NAME));
        let mut w = Cursor::new(Vec::new());
        back.put(&mut w).unwrap_or_else(|e| panic!("{}: {e}: {j}", T::NAME));
        assert!(w.into_inner() == f, "{}: another file: {v:?}\nbecomes {back:?}\nthrough {j}", T::NAME);
        // The container, whose text says which type it is.
        if TYPES.iter().any(|t| t.0 == T::NAME) {
            use ssbh_lib::prelude::SsbhFile;
            let s = SsbhFile::read(&mut Cursor::new(&f)).unwrap();
            let j = text(&s);
            let back: SsbhFile = serde_json::from_str(&j).unwrap_or_else(|e| panic!("{}: {e}: {j}", T::NAME));
            let mut w = Cursor::new(Vec::new());
            back.write(&mut w).unwrap();
            assert!(w.into_inner() == f, "{}: another container: {j}", T::NAME);
            assert!(serde_json::from_str::<ssbh_lib::prelude::MeshEx>(&j).is_err() && serde_json::from_str::<ssbh_lib::prelude::Adj>(&j).is_err());
        }
    }
    fn data_of<T: for<'a> Arbitrary<'a> + Serialize + DeserializeOwned + std::fmt::Debug>(n: &str) {
        let v: T = gen();
        let d = format!("{v:?}");
        if !expressible(&d) {
            assume(false);
        }
        let j = text(&v);
        let back: T = serde_json::from_str(&j).unwrap_or_else(|e| panic!("{n}: {e}: {j}"));
        assert!(format!("{back:?}") == d, "{n}: {d}\nbecomes {back:?}\nthrough {j}");
    }
    pub fn data() {
        use ssbh_data::prelude::*;
        match below(8) {
            0 => data_of::<MeshData>("MeshData"),
            1 => data_of::<SkelData>("SkelData"),
            2 => data_of::<AnimData>("AnimData"),
            3 => data_of::<ModlData>("ModlData"),
            4 => data_of::<MatlData>("MatlData"),
            5 => data_of::<HlpbData>("HlpbData"),
            6 => data_of::<MeshExData>("MeshExData"),
            _ => data_of::<AdjData>("AdjData"),
        }
    }
    fn tool(name: &str) -> std::process::Command {
        match std::env::var("VERIF_BINS") {
            Ok(d) if std::path::Path::new(&d).join(name).exists() => std::process::Command::new(std::path::Path::new(&d).join(name)),
            _ => {
                assume(false);
                unreachable!()
            }
        }
    }
    fn run(tool: &mut std::process::Command) {
        let o = tool.stdin(std::process::Stdio::null()).output().unwrap();
        assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    }
    const EXT: &[(&str, &str)] = &[("Hlpb", "nuhlpb"), ("Matl", "numatb"), ("Modl", "numdlb"), ("Mesh", "numshb"), ("Skel", "nusktb"), ("Anim", "nuanmb"), ("Nlst", "nulstb"), ("Nrpd", "nurpdb"), ("Nufx", "nuflxb"), ("Shdr", "nushdb"), ("MeshEx", "numshexb"), ("Adj", "adjb")];
    /// Exports and imports the file with the command line tool `name`: what comes back?
    fn cli(name: &str, f: &[u8], ext: &str) -> Vec<u8> {
        let dir = std::env::temp_dir().join(format!("verif_json_{}_{ext}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join(format!("x.{ext}"));
        std::fs::write(&p, f).unwrap();
        let q = dir.join(format!("x.{ext}.json"));
        let explicit: bool = any();
        let r = std::panic::catch_unwind(|| {
            run(tool(name).arg(&p));
            std::fs::remove_file(&p).unwrap();
            if explicit {
                run(tool(name).arg(&q).arg(&p));
            } else {
                // The name of the output follows from the text.
                let q2 = dir.join("y.json");
                std::fs::rename(&q, &q2).unwrap();
                run(tool(name).arg(&q2));
                std::fs::rename(dir.join(format!("y.{ext}")), &p).unwrap();
            }
            std::fs::read(&p).unwrap()
        });
        let _ = std::fs::remove_dir_all(&dir);
        match r {
            Ok(b) => b,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    pub fn cli_of<T: FileType + Serialize + DeserializeOwned>() {
        let (v, f) = file::<T>();
        let ext = EXT.iter().find(|e| e.0 == T::NAME).unwrap().1;
        let g = cli("ssbh_lib_json", &f, ext);
        assert!(f == g, "{}: the tools give another file: {v:?}", T::NAME);
    }
    pub fn cli_data() {
        use ssbh_data::prelude::*;
        macro_rules! of {
            ($t:ident, $ext:literal) => {{
                let v: $t = gen();
                if !expressible(&format!("{v:?}")) {
                    assume(false);
                }
                let mut w = Cursor::new(Vec::new());
                if v.write(&mut w).is_err() {
                    assume(false);
                }
                let f = w.into_inner();
                // What the data says, without the detour through text.
                let d = match $t::read(&mut Cursor::new(&f)) {
                    Ok(d) => d,
                    Err(_) => { assume(false); unreachable!() }
                };
                if !expressible(&format!("{d:?}")) {
                    assume(false);
                }
                let mut w = Cursor::new(Vec::new());
                if d.write(&mut w).is_err() {
                    assume(false);
                }
                let g = cli("ssbh_data_json", &f, $ext);
                assert!(w.into_inner() == g, "{}: the tools give another file: {d:?}", $ext);
            }};
        }
        match below(8) {
            0 => of!(MeshData, "numshb"),
            1 => of!(SkelData, "nusktb"),
            2 => of!(AnimData, "nuanmb"),
            3 => of!(ModlData, "numdlb"),
            4 => of!(MatlData, "numatb"),
            5 => of!(HlpbData, "nuhlpb"),
            6 => of!(MeshExData, "numshexb"),
            _ => of!(AdjData, "adjb"),
        }
    }
}

crate::contracts! { kani {
    /// [bounded: two bytes] a byte buffer is exported as two hexadecimal digits per byte, and imported as what it was, given the documented contracts of the hex crate.
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    #[cfg_attr(kani, kani::stub(hex::encode, encode))]
    #[cfg_attr(kani, kani::stub(hex::decode, decode))]
    fn p_buffer() {
        let (a, b): (u8, u8) = (any(), any());
        let v = SsbhByteBuffer::from_vec(vec![a, b]);
        let t = put(&v);
        assert!(matches!(&t, Tok::Text(x) if x.len() == 4 && x[0] == nibble(a >> 4) && x[1] == nibble(a & 15) && x[2] == nibble(b >> 4) && x[3] == nibble(b & 15)));
        let w: SsbhByteBuffer = take(t);
        assert!(w.elements.len() == 2 && w.elements[0] == a && w.elements[1] == b);
        leak((v, w));
    }
    /// [bounded: three ASCII characters] text is exported as it is, and imported as what it was.
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    #[cfg_attr(kani, kani::stub(std::str::from_utf8, ascii))]
    fn p_text() {
        let c: [u8; 3] = [any(), any(), any()];
        for x in c {
            assume(x > 0 && x < 128);
        }
        let v = CString::<4>::from_bytes(&c);
        let t = put(&v);
        assert!(matches!(&t, Tok::Text(x) if x.len() == 3 && x[0] == c[0] && x[1] == c[1] && x[2] == c[2]));
        let w: CString<4> = take(t);
        assert!(v == w);
        leak((v, w));
    }
    /// Pointers are exported as what they point to, or as null, and imported as what they were.
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_pointers() {
        let n: u64 = any();
        let null: bool = any();
        let t = put(&if null { RelPtr64::null() } else { RelPtr64::new(n) });
        assert!(t == if null { Tok::Null } else { Tok::Num(n) });
        let r: RelPtr64<u64> = take(t);
        assert!(*r == if null { None } else { Some(n) });
        let t = put(&if null { Ptr64::null() } else { Ptr64::new(n) });
        assert!(t == if null { Tok::Null } else { Tok::Num(n) });
        let r: Ptr64<u64> = take(t);
        assert!(*r == if null { None } else { Some(n) });
    }
    /// A string field without text is null, with empty text is the empty text.
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_string_field() {
        let t = put(&RelPtr64::<CString<4>>::null());
        assert!(t == Tok::Null);
        let r: SsbhString = take(t);
        assert!(r.to_str().is_none());
        let v = SsbhString::from("");
        let t = put(&v);
        assert!(matches!(&t, Tok::Text(x) if x.is_empty()));
        let r: SsbhString = take(t);
        assert!(r == v);
        leak((r, v));
    }
} native {
    /// [bounded: generated files of every type with finite numbers and UTF-8 text] importing the exported text gives a file with identical bytes, as the type itself and as a container.
    /// @ms=15000
    fn n_files() {
        use crate::walk::any_type;
        use ssbh_lib::prelude::*;
        use whole::file_of;
        any_type!(file_of)
    }
    /// [bounded: generated data of every type with finite numbers] importing exported data gives equal data.
    /// @ms=15000
    fn n_data() { whole::data() }
    /// [bounded: text of up to 12 characters of any kind, and numbers of any kind] text and numbers come back exactly.
    fn n_values() {
        let s: String = (0..below(13)).map(|_| match below(4) {
            0 => char::from_u32(below(0x80) as u32),
            1 => char::from_u32(below(0x800) as u32),
            2 => Some(['"', '\\', '/', '\u{7f}', '\u{2028}', '\u{ffff}', '\u{10ffff}', '\u{feff}'][below(8) as usize]),
            _ => char::from_u32(below(0x110000) as u32),
        }.unwrap_or('x')).filter(|c| *c != '\0').collect();
        let v = SsbhString::from(s.as_str());
        let j = serde_json::to_string(&v).unwrap();
        let w: SsbhString = serde_json::from_str(&j).unwrap();
        assert!(v == w && w.to_str() == Some(s.as_str()), "{s:?} becomes {w:?}");
        let f = f32::from_bits(any());
        if f.is_finite() {
            let v = ssbh_lib::Vector4::new(f, -f, 0.0, f);
            let j = serde_json::to_string(&v).unwrap();
            let w: ssbh_lib::Vector4 = serde_json::from_str(&j).unwrap();
            assert!(w.x.to_bits() == f.to_bits() && w.y.to_bits() == (-f).to_bits() && w.w.to_bits() == f.to_bits(), "{f} becomes {w:?}");
        }
        let n: u64 = any();
        let v = ssbh_lib::SsbhArray::from_vec(vec![n, n >> 1, !n]);
        let w: ssbh_lib::SsbhArray<u64> = serde_json::from_str(&serde_json::to_string(&v).unwrap()).unwrap();
        assert!(v == w);
        let b: Vec<u8> = (0..below(40)).map(|_| any()).collect();
        let v = SsbhByteBuffer::from_vec(b);
        let j = serde_json::to_string(&v).unwrap();
        assert!(j.len() == 2 * v.elements.len() + 2);
        let w: SsbhByteBuffer = serde_json::from_str(&j).unwrap();
        assert!(v == w);
    }
    /// [bounded: generated files of every type] the command line tool for files exports and imports every type without changing a byte.
    /// @cases=1500 @ms=12000
    fn n_tool() {
        use crate::walk::any_type;
        use ssbh_lib::prelude::*;
        use whole::cli_of;
        any_type!(cli_of)
    }
    /// A field that points to a null string is exported as something else than a null field.
    /// @cases=1
    fn n_nested_null() {
        use ssbh_lib::RelPtr64;
        let v: RelPtr64<SsbhString> = RelPtr64::new(serde_json::from_str("null").unwrap());
        let j = serde_json::to_string(&v).unwrap();
        let w: RelPtr64<SsbhString> = serde_json::from_str(&j).unwrap();
        assert!(v == w, "{v:?} becomes {w:?} through {j}");
    }
    /// [bounded: generated data of every type] the command line tool for data gives the file that the data makes.
    /// @cases=1500 @ms=12000
    fn n_tool_data() { whole::cli_data() }
} }
