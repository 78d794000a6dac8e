//! M01: vertex components decode to what was encoded.
use crate::env::SpecWriter;
use crate::nd::*;
#[cfg(feature = "hooks")]
use ssbh_data::mesh_data::verif_hooks::*;
use ssbh_data::mesh_data::VectorData;
#[cfg(feature = "hooks")]
use ssbh_lib::formats::mesh::{AttributeDataTypeV10, AttributeDataTypeV8};

/// `b` is the nearest of the 256 steps to the clamped value (up to float rounding at a tie).
fn nearest_step(f: f32, b: u8) -> bool {
    let c = if f > 0.0 { if f < 1.0 { f } else { 1.0 } } else { 0.0 };
    let d = b as f64 - c as f64 * 255.0;
    d <= 0.5001 && d >= -0.5001
}

/// Any `n` of two vectors, any place: every byte lies in its own vector and is the one encoded.
#[cfg(feature = "hooks")]
fn placed(size: usize, bytes: &[[u8; 16]; 2], write: impl Fn(&mut SpecWriter, u64, u64)) {
    let offset = crate::env::pos();
    let stride = crate::env::pos();
    assume(stride >= size as u64);
    let mut w = SpecWriter::at_watching(offset, if any() { near(offset) } else { near(offset + stride) });
    write(&mut w, offset, stride);
    let at = w.watch;
    let first = at >= offset && at - offset < size as u64;
    let second = at >= offset + stride && at - offset - stride < size as u64;
    if first {
        assert!(w.hits == 1 && w.val == bytes[0][(at - offset) as usize]);
    } else if second {
        assert!(w.hits == 1 && w.val == bytes[1][(at - offset - stride) as usize]);
    } else {
        assert!(w.hits == 0);
    }
    assert!(w.pos == offset + stride + size as u64);
    reach!(first && stride > size as u64, "first");
    reach!(second, "second");
}

#[cfg(feature = "hooks")]
fn f32_bytes<const N: usize>(v: &[[f32; N]; 2]) -> [[u8; 16]; 2] {
    let mut o = [[0; 16]; 2];
    for i in 0..2 {
        for j in 0..N {
            let b = v[i][j].to_bits();
            for k in 0..4 {
                o[i][4 * j + k] = (b >> (8 * k)) as u8;
            }
        }
    }
    o
}
#[cfg(feature = "hooks")]
fn f16_bytes<const N: usize>(v: &[[u16; N]; 2]) -> [[u8; 16]; 2] {
    let mut o = [[0; 16]; 2];
    for i in 0..2 {
        for j in 0..N {
            o[i][2 * j] = v[i][j] as u8;
            o[i][2 * j + 1] = (v[i][j] >> 8) as u8;
        }
    }
    o
}
#[cfg(feature = "hooks")]
fn halves<const N: usize>(v: &[[u16; N]; 2]) -> Vec<[half::f16; N]> {
    let mut o = [[half::f16::from_bits(0); N]; 2];
    for i in 0..2 {
        for j in 0..N {
            o[i][j] = half::f16::from_bits(v[i][j]);
        }
    }
    vec![o[0], o[1]]
}
#[cfg(feature = "hooks")]
macro_rules! both {
    ($v:expr, $kind:ident, $w:ident, $o:ident, $s:ident) => {
        if any() {
            VectorDataV10::$kind($v).write($w, $o, $s).unwrap()
        } else {
            VectorDataV8::$kind($v).write($w, $o, $s).unwrap()
        }
    };
}

/// A file of which the bytes of two vectors are known, at any place.
#[cfg(feature = "hooks")]
struct TwoVectors {
    pos: u64,
    offset: u64,
    stride: u64,
    bytes: [[u8; 16]; 2],
    size: usize,
    k: usize,
}
#[cfg(feature = "hooks")]
impl TwoVectors {
    fn any(size: usize) -> Self {
        let stride = crate::env::pos();
        assume(stride != 0);
        TwoVectors { pos: 0, offset: crate::env::pos(), stride, bytes: any(), size, k: 0 }
    }
}
#[cfg(feature = "hooks")]
impl std::io::Read for TwoVectors {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.read_exact(b)?;
        Ok(b.len())
    }
    fn read_exact(&mut self, b: &mut [u8]) -> std::io::Result<()> {
        // Reads are sequential within a vector.
        let (i, j) = (self.k / self.size, self.k % self.size);
        assert!(i < 2 && self.pos == self.offset + i as u64 * self.stride + j as u64 && j + b.len() <= self.size, "read at the wrong place");
        for x in 0..b.len() {
            b[x] = self.bytes[i][j + x];
        }
        self.k += b.len();
        self.pos += b.len() as u64;
        Ok(())
    }
}
#[cfg(feature = "hooks")]
impl std::io::Seek for TwoVectors {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        match p {
            std::io::SeekFrom::Start(x) => self.pos = x,
            std::io::SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as u64,
            _ => unreachable!(),
        }
        Ok(self.pos)
    }
}

#[cfg(feature = "hooks")]
fn read_f32<const N: usize>(t: AttributeDataTypeV10, t8: AttributeDataTypeV8, get: fn(&VectorData) -> Option<&Vec<[f32; N]>>) {
    let mut r = TwoVectors::any(4 * N);
    let (o, s, b) = (r.offset, r.stride, r.bytes);
    let v = if any() { read_vectors_v10(&mut r, 2, o, s, t) } else { read_vectors_v8(&mut r, 2, o, s, t8) };
    let v = match v {
        Ok(v) => v,
        Err(_) => unreachable!(),
    };
    let x = get(&v).unwrap();
    assert!(x.len() == 2);
    for i in 0..2 {
        for j in 0..N {
            let want = b[i][4 * j] as u32 | (b[i][4 * j + 1] as u32) << 8 | (b[i][4 * j + 2] as u32) << 16 | (b[i][4 * j + 3] as u32) << 24;
            assert!(x[i][j].to_bits() == want);
        }
    }
    reach!(true, "read");
    leak(v);
}
fn two(v: &VectorData) -> Option<&Vec<[f32; 2]>> {
    match v { VectorData::Vector2(v) => Some(v), _ => None }
}
fn three(v: &VectorData) -> Option<&Vec<[f32; 3]>> {
    match v { VectorData::Vector3(v) => Some(v), _ => None }
}
fn four(v: &VectorData) -> Option<&Vec<[f32; 4]>> {
    match v { VectorData::Vector4(v) => Some(v), _ => None }
}

/// Stands for the processor's conversion: an injective function of the code, so that a wrong or
/// misplaced code is seen.
#[cfg(kani)]
fn code_of(h: half::f16) -> f32 {
    f32::from_bits(h.to_bits() as u32)
}
#[cfg(all(feature = "hooks", kani))]
fn half_of(x: u16) -> u32 {
    x as u32
}
#[cfg(all(feature = "hooks", not(kani)))]
fn half_of(x: u16) -> u32 {
    half::f16::from_bits(x).to_f32_const().to_bits()
}
#[cfg(feature = "hooks")]
fn check_half<const N: usize>(v: VectorData, b: &[[u8; 16]; 2], get: fn(&VectorData) -> Option<&Vec<[f32; N]>>) {
    let x = get(&v).unwrap();
    assert!(x.len() == 2);
    for i in 0..2 {
        for j in 0..N {
            let want = half_of(b[i][2 * j] as u16 | (b[i][2 * j + 1] as u16) << 8);
            assert!(x[i][j].to_bits() == want || x[i][j].is_nan() && f32::from_bits(want).is_nan());
        }
    }
    reach!(true, "read");
    leak(v);
}
/// The other way: any function will do, as long as it is applied to the right component.
#[cfg(kani)]
fn low_bits(x: f32) -> half::f16 {
    half::f16::from_bits(x.to_bits() as u16)
}
#[cfg(all(feature = "hooks", kani))]
fn bits_of(x: f32) -> u16 {
    x.to_bits() as u16
}
#[cfg(all(feature = "hooks", not(kani)))]
fn bits_of(x: f32) -> u16 {
    half::f16::from_f32_const(x).to_bits()
}
#[cfg(feature = "hooks")]
fn eq<const N: usize>(a: &[f32; N], b: &[f32; N]) -> bool {
    (0..N).all(|i| a[i].to_bits() == b[i].to_bits())
}
#[cfg(feature = "hooks")]
fn eq16<const N: usize>(a: &[half::f16; N], b: &[f32; N]) -> bool {
    (0..N).all(|i| a[i].to_bits() == bits_of(b[i]))
}

contracts! { kani {
    /// Every float of a color is stored as the nearest of 256 steps of its clamped value, in either version, in its own component.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_color() {
        let f: f32 = any();
        let k = below(4) as usize;
        let mut c = [0.0f32, 1.0, 0.0, 1.0];
        c[k] = f;
        let v = VectorData::Vector4(vec![c]);
        let b = if any() {
            match VectorDataV10::from_colors(&v) { VectorDataV10::Byte4(x) => { assert!(x.len() == 1); let b = x[0]; leak(x); b } _ => unreachable!() }
        } else {
            match VectorDataV8::from_colors(&v) { VectorDataV8::Byte4(x) => { assert!(x.len() == 1); let b = x[0]; leak(x); b } _ => unreachable!() }
        };
        assert!(nearest_step(f, b[k]));
        let i = below(4) as usize;
        assert!(i == k || b[i] == [0, 255, 0, 255][i]);
        reach!(f > 0.3 && f < 0.4, "inside");
        leak(v);
    }
    /// [bounded: two vectors] positions, and vectors of three components, keep every float bit for bit in either version.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_exact() {
        let (a, b, c): ([[f32; 2]; 2], [[f32; 3]; 2], [[f32; 4]; 2]) = (any(), any(), any());
        let x = VectorData::Vector2(vec![a[0], a[1]]);
        let y = VectorData::Vector3(vec![b[0], b[1]]);
        let z = VectorData::Vector4(vec![c[0], c[1]]);
        macro_rules! is { ($e:expr, $p:path, $w:ident) => { match $e { $p(v) => { assert!(v.len() == 2 && eq(&v[0], &$w[0]) && eq(&v[1], &$w[1])); leak(v) } _ => unreachable!() } } }
        is!(VectorDataV10::from_positions(&x), VectorDataV10::Float2, a);
        is!(VectorDataV10::from_positions(&y), VectorDataV10::Float3, b);
        is!(VectorDataV10::from_positions(&z), VectorDataV10::Float4, c);
        is!(VectorDataV8::from_positions(&x), VectorDataV8::Float2, a);
        is!(VectorDataV8::from_positions(&y), VectorDataV8::Float3, b);
        is!(VectorDataV8::from_positions(&z), VectorDataV8::Float4, c);
        is!(VectorDataV10::from_vectors(&y), VectorDataV10::Float3, b);
        is!(VectorDataV8::from_vectors(&y), VectorDataV8::Float3, b);
        is!(VectorDataV8::from_vectors(&x), VectorDataV8::Float2, a);
        is!(VectorDataV10::from_colors(&y), VectorDataV10::Float3, b);
        is!(VectorDataV8::from_colors(&y), VectorDataV8::Float3, b);
        is!(VectorDataV8::from_colors(&x), VectorDataV8::Float2, a);
        reach!(true, "end");
        leak((x, y, z));
    }
    /// [bounded: two vectors] the 16-bit formats convert each component by itself, for every float (whatever the conversion is: it is stubbed).
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(half::f16::from_f32, low_bits))]
    fn p_halves() {
        let (a, c): ([[f32; 2]; 2], [[f32; 4]; 2]) = (any(), any());
        let x = VectorData::Vector2(vec![a[0], a[1]]);
        let z = VectorData::Vector4(vec![c[0], c[1]]);
        macro_rules! is { ($e:expr, $p:path, $w:ident) => { match $e { $p(v) => { assert!(v.len() == 2 && eq16(&v[0], &$w[0]) && eq16(&v[1], &$w[1])); leak(v) } _ => unreachable!() } } }
        is!(VectorDataV10::from_vectors(&x), VectorDataV10::HalfFloat2, a);
        is!(VectorDataV10::from_vectors(&z), VectorDataV10::HalfFloat4, c);
        is!(VectorDataV10::from_colors(&x), VectorDataV10::HalfFloat2, a);
        is!(VectorDataV8::from_vectors(&z), VectorDataV8::HalfFloat4, c);
        reach!(true, "end");
        leak((x, z));
    }
    /// [bounded: two vectors] 32-bit components are written in place for every offset, stride and value; nothing else is touched.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_write_float4() {
        let v: [[f32; 4]; 2] = any();
        placed(16, &f32_bytes(&v), |w, o, s| both!(vec![v[0], v[1]], Float4, w, o, s));
    }
    /// [bounded: two vectors] as above, three components.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_write_float3() {
        let v: [[f32; 3]; 2] = any();
        placed(12, &f32_bytes(&v), |w, o, s| both!(vec![v[0], v[1]], Float3, w, o, s));
    }
    /// [bounded: two vectors] as above, two components.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_write_float2() {
        let v: [[f32; 2]; 2] = any();
        placed(8, &f32_bytes(&v), |w, o, s| both!(vec![v[0], v[1]], Float2, w, o, s));
    }
    /// [bounded: two vectors] 16-bit components are written in place.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_write_half() {
        let v: [[u16; 4]; 2] = any();
        placed(8, &f16_bytes(&v), |w, o, s| both!(halves(&v), HalfFloat4, w, o, s));
        let v: [[u16; 2]; 2] = any();
        placed(4, &f16_bytes(&v), |w, o, s| VectorDataV10::HalfFloat2(halves(&v)).write(w, o, s).unwrap());
    }
    /// [bounded: two vectors] byte components are written in place.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_write_byte() {
        let v: [[u8; 4]; 2] = any();
        let mut b = [[0; 16]; 2];
        for i in 0..2 { for j in 0..4 { b[i][j] = v[i][j]; } }
        placed(4, &b, |w, o, s| both!(vec![v[0], v[1]], Byte4, w, o, s));
    }
    /// [bounded: two vectors] 32-bit components are read from offset and stride, bit for bit, for every offset, stride and content.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_read_float2() { read_f32::<2>(AttributeDataTypeV10::Float2, AttributeDataTypeV8::Float2, two) }
    /// [bounded: two vectors] as above, three components.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_read_float3() { read_f32::<3>(AttributeDataTypeV10::Float3, AttributeDataTypeV8::Float3, three) }
    /// [bounded: two vectors] as above, four components.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_read_float4() { read_f32::<4>(AttributeDataTypeV10::Float4, AttributeDataTypeV8::Float4, four) }
    /// [bounded: two vectors] 16-bit components are read from offset and stride (the conversion to 32 bits is stubbed).
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(half::f16::to_f32, code_of))]
    fn p_read_half() {
        let mut r = TwoVectors::any(8);
        let (o, s, b) = (r.offset, r.stride, r.bytes);
        let v = if any() { read_vectors_v10(&mut r, 2, o, s, AttributeDataTypeV10::HalfFloat4) } else { read_vectors_v8(&mut r, 2, o, s, AttributeDataTypeV8::HalfFloat4) };
        match v { Ok(v) => check_half(v, &b, four), Err(_) => unreachable!() }
        let mut r = TwoVectors::any(4);
        let (o, s, b) = (r.offset, r.stride, r.bytes);
        match read_vectors_v10(&mut r, 2, o, s, AttributeDataTypeV10::HalfFloat2) { Ok(v) => check_half(v, &b, two), Err(_) => unreachable!() }
    }
    /// [bounded: one vector] byte components are read in place and divided by 255, for every content.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_read_byte() {
        let mut r = TwoVectors::any(4);
        let (o, s, b) = (r.offset, r.stride, r.bytes);
        let v = if any() { read_vectors_v10(&mut r, 1, o, s, AttributeDataTypeV10::Byte4) } else { read_vectors_v8(&mut r, 1, o, s, AttributeDataTypeV8::Byte4) };
        let v = match v { Ok(v) => v, Err(_) => unreachable!() };
        let x = four(&v).unwrap();
        assert!(x.len() == 1);
        let (i, j) = (0, below(4) as usize);
        let want = b[i][j] as f32 / 255.0;
        assert!(x[i][j] == want);
        reach!(b[i][j] == 77, "inside");
        leak(v);
    }
    /// No data is read without a stride, and an empty attribute needs none: for every offset and count.
    #[cfg(feature = "hooks")]
    #[cfg_attr(kani, kani::unwind(6))]
    fn p_zero_stride() {
        let mut r = TwoVectors::any(4);
        r.k = 1000; // any read fails the contract
        let n: usize = any();
        let t = [AttributeDataTypeV10::Byte4, AttributeDataTypeV10::Float3, AttributeDataTypeV10::HalfFloat2][below(3) as usize];
        let v = read_vectors_v10(&mut r, n, any(), 0, t);
        assert!(v.is_ok() == (n == 0));
        reach!(n == 0, "empty");
        reach!(n > 0, "rejected");
        leak(v);
    }
} native {
    /// [bounded: all 65536 codes, and generated floats] 16-bit components decode to the exact value of the code and encode to the nearest one.
    #[cfg(feature = "hooks")]
    /// @ms=4000
    fn n_half() {
        use crate::mesh::*;
        let base = below(256) as u16 * 256;
        let codes: Vec<u16> = (base..=base + 255).collect();
        let mut f = Vec::new();
        for c in &codes { f.extend(c.to_le_bytes()); }
        let v = read_vectors_v10(&mut std::io::Cursor::new(&f), 64, 0, 8, AttributeDataTypeV10::HalfFloat4).unwrap();
        for (x, c) in flat(&v).1.iter().zip(&codes) {
            if c & 0x7c00 == 0x7c00 {
                assert!(if c & 1023 != 0 { x.is_nan() } else { x.is_infinite() && x.is_sign_negative() == (c >> 15 == 1) }, "{c:x} decodes to {x}");
            } else {
                assert!(*x as f64 == half_value(*c) && x.is_sign_negative() == (c >> 15 == 1), "{c:x} decodes to {x}");
            }
        }
        let a = f32::from_bits(any());
        let w = VectorData::Vector2(vec![[finite(), a], [half_value(any::<u16>() & 0x7bff) as f32, value()]]);
        let VectorDataV10::HalfFloat2(h) = VectorDataV10::from_vectors(&w) else { panic!("format") };
        let back = VectorData::Vector2(h.iter().map(|v| v.map(|h| if h.to_bits() & 0x7fff > 0x7c00 { f32::NAN } else if h.to_bits() & 0x7fff == 0x7c00 { f32::INFINITY * half_value(h.to_bits()).signum() as f32 } else { half_value(h.to_bits()) as f32 })).collect());
        same_vectors(&w, &back, Format::Half).unwrap();
    }
    /// [bounded: up to 12 vectors] every format of either version, written at any offset and stride and read back: the nearest value of the format, and no other byte of the buffer touched.
    #[cfg(feature = "hooks")]
    fn n_formats() {
        use crate::mesh::*;
        let n = below(13) as usize;
        let dims = 2 + below(3);
        let kind = [0, 1, 5][below(3) as usize];
        let d = vectors(dims, n, &finite);
        let offset = below(20);
        let minor = if any() { 10 } else { 8 };
        let mut w = std::io::Cursor::new(vec![0xA5; 500]);
        let f = format_of(minor, kind, dims as usize);
        let size = match f { Format::Float => 4, Format::Half => 2, Format::Byte => 1 } * dims;
        let stride = size + [0, 0, 4, 7][below(4) as usize];
        let b = if minor == 10 {
            let v = match kind { 0 => VectorDataV10::from_positions(&d), 1 => VectorDataV10::from_vectors(&d), _ => VectorDataV10::from_colors(&d) };
            v.write(&mut w, offset, stride).unwrap();
            read_vectors_v10(&mut w, n, offset, stride, v.data_type()).unwrap()
        } else {
            let v = match kind { 0 => VectorDataV8::from_positions(&d), 1 => VectorDataV8::from_vectors(&d), _ => VectorDataV8::from_colors(&d) };
            v.write(&mut w, offset, stride).unwrap();
            read_vectors_v8(&mut w, n, offset, stride, v.data_type()).unwrap()
        };
        same_vectors(&d, &b, f).unwrap_or_else(|e| panic!("{e} (1.{minor}): {d:?}"));
        for (i, x) in w.into_inner().iter().enumerate() {
            let i = i as u64;
            let inside = i >= offset && (i - offset) / stride < n as u64 && (i - offset) % stride < size;
            assert!(inside || *x == 0xA5, "byte {i} outside of the attribute is written");
        }
    }
    /// [bounded: generated meshes with arbitrary declared layouts] every attribute of every version is decoded from its buffer, offset and stride, or reported when it is not there.
    fn n_declared() {
        use crate::mesh::*;
        use ssbh_data::mesh_data::MeshData;
        use ssbh_lib::formats::mesh::*;
        use ssbh_lib::prelude::Mesh;
        let minor = VERSIONS[below(3) as usize].1;
        let d = data(minor, vec![object("o".into(), 0, 1)]);
        let mut m: Mesh = (&d).try_into().unwrap();
        let b: Vec<Vec<u8>> = (0..below(5)).map(|_| crate::walk::bytes(below(200) as usize)).collect();
        let count = below(6) as u32;
        let offsets: [u32; 4] = std::array::from_fn(|_| below(40) as u32);
        let strides: [u32; 4] = std::array::from_fn(|_| below(40) as u32);
        let mut want = vec![Vec::new(); 6];
        let mut ok = true;
        macro_rules! set {
            ($m:expr, $usages:expr, $types:expr) => {{
                let o = &mut $m.objects.elements[0];
                o.vertex_count = count;
                [o.vertex_buffer0_offset, o.vertex_buffer1_offset, o.vertex_buffer2_offset, o.vertex_buffer3_offset] = offsets;
                [o.stride0, o.stride1, o.stride2, o.stride3] = strides;
                for a in o.attributes.elements.iter_mut() {
                    let (u, t) = (below($usages.len() as u64) as usize, below($types.len() as u64) as usize);
                    a.usage = $usages[u].1;
                    a.data_type = $types[t].2;
                    a.buffer_index = if below(20) == 0 { any() } else { below(3) as u32 };
                    a.buffer_offset = if below(30) == 0 { any() } else { below(20) as u32 };
                    let (dims, size) = ($types[t].0, $types[t].1);
                    let mut v = Vec::new();
                    match b.get(a.buffer_index as usize) {
                        Some(b) if a.buffer_index < 4 => {
                            let (o, s) = (offsets[a.buffer_index as usize], strides[a.buffer_index as usize]);
                            ok &= s != 0 || count == 0;
                            for i in 0..count as usize {
                                for c in 0..dims {
                                    let p = a.buffer_offset as usize + o as usize + s as usize * i + c * size;
                                    match b.get(p..p + size) {
                                        Some(x) => v.push(match size {
                                            1 => x[0] as f32 / 255.0,
                                            2 => half_value(u16::from_le_bytes([x[0], x[1]])) as f32,
                                            _ => f32::from_le_bytes([x[0], x[1], x[2], x[3]]),
                                        }),
                                        None => ok = false,
                                    }
                                }
                            }
                        }
                        _ => ok = false,
                    }
                    want[$usages[u].0].push((dims, size, v));
                }
                $m.vertex_buffers = b.iter().map(|b| ssbh_lib::SsbhByteBuffer::from_vec(b.clone())).collect();
            }};
        }
        let u8s = [(0, AttributeUsageV8::Position), (1, AttributeUsageV8::Normal), (3, AttributeUsageV8::Tangent), (4, AttributeUsageV8::TextureCoordinate), (5, AttributeUsageV8::ColorSet)];
        let u9s = [(0, AttributeUsageV9::Position), (1, AttributeUsageV9::Normal), (2, AttributeUsageV9::Binormal), (3, AttributeUsageV9::Tangent), (4, AttributeUsageV9::TextureCoordinate), (5, AttributeUsageV9::ColorSet)];
        let t8s = [(2, 4, AttributeDataTypeV8::Float2), (3, 4, AttributeDataTypeV8::Float3), (4, 4, AttributeDataTypeV8::Float4), (4, 2, AttributeDataTypeV8::HalfFloat4), (4, 1, AttributeDataTypeV8::Byte4)];
        let t10s = [(2, 4, AttributeDataTypeV10::Float2), (3, 4, AttributeDataTypeV10::Float3), (4, 4, AttributeDataTypeV10::Float4), (4, 2, AttributeDataTypeV10::HalfFloat4), (4, 1, AttributeDataTypeV10::Byte4), (2, 2, AttributeDataTypeV10::HalfFloat2)];
        match &mut m {
            Mesh::V8(m) => set!(m, u8s, t8s),
            Mesh::V9(m) => set!(m, u9s, t8s),
            Mesh::V10(m) => set!(m, u9s, t10s),
        }
        match MeshData::try_from(&m) {
            Err(e) => assert!(!ok, "{e}: {m:?}"),
            Ok(r) => {
                assert!(ok, "data outside of the buffers is accepted: {m:?} as {r:?}");
                for (w, g) in want.iter().zip(kinds(&r.objects[0])) {
                    assert!(w.len() == g.len());
                    for ((dims, size, w), g) in w.iter().zip(g) {
                        let (gd, gv) = flat(&g.data);
                        assert!(gd == *dims && gv.len() == w.len(), "{g:?}");
                        for (a, b) in w.iter().zip(&gv) {
                            assert!(a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() || *size == 2 && a.abs() == 65536.0, "{w:?} is decoded as {gv:?}: {m:?}");
                        }
                    }
                }
            }
        }
    }
    /// [bounded: generated objects of up to 9 vertices] attributes of every kind, dimension and version keep every component to within the format.
    fn n_mesh() {
        use crate::mesh::*;
        let minor = VERSIONS[below(3) as usize].1;
        let d = data(minor, vec![object("o".into(), 0, 1 + below(9) as usize)]);
        let (_, b) = through(&d);
        same_object(minor, &d.objects[0], &b.objects[0]).unwrap_or_else(|e| panic!("{e}: {d:?}"));
    }
    /// [bounded: altered mesh files] converting whatever can be read never panics or hangs.
    fn n_altered() {
        use crate::mesh::*;
        use ssbh_lib::prelude::Mesh;
        let minor = VERSIONS[below(3) as usize].1;
        let mut o = objects(2, 4);
        for o in &mut o { influences(o); }
        let m: Mesh = (&data(minor, o)).try_into().unwrap();
        let mut w = std::io::Cursor::new(Vec::new());
        m.write(&mut w).unwrap();
        let mut f = w.into_inner();
        crate::walk::alter(&mut f, 24);
        if let Ok(m) = Mesh::read(&mut std::io::Cursor::new(&f)) {
            let s = crate::mem::start();
            let _ = ssbh_data::mesh_data::MeshData::try_from(&m);
            assert!(crate::mem::peak_since(s) < (64 << 20) + f.len() * 4096, "memory");
        } else {
            assume(false);
        }
    }
} }
