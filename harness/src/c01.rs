//! C01: offsets lead to their data; written regions never overlap.
//!
//! The writer's contract (`SsbhWrite`), stated once and proved for every container for an arbitrary
//! element that obeys it: starting with the file position `p` and the free position `dp`,
//!  * the inline part occupies exactly [p, p + size) and the writer ends behind it,
//!  * everything else lands at or beyond max(dp, p + size), aligned as its type asks,
//!  * the new free position is at or beyond everything written.
use crate::env::*;
use crate::nd::*;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;

fn max(a: u64, b: u64) -> u64 {
    if a > b {
        a
    } else {
        b
    }
}
/// byte `i` of the little endian value `v`
fn le(v: u64, i: u64) -> u8 {
    (v >> (8 * i)) as u8
}

fn relptr<const A: u64>() {
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    let v = RelPtr64::new(Child::<A>::any());
    v.ssbh_write(&mut w, &mut dp).unwrap();
    let c = v.as_ref().unwrap();
    let base = max(dp0, p + 8);
    assert!(c.calls.get() == 1);
    let tgt = c.at.get();
    assert!(is_round_up(tgt, base, A));
    assert!(c.dp_in.get() >= tgt);
    let need = max(c.end(), c.dp_out.get());
    assert!(dp >= need && dp - need < A);
    assert!(w.pos == p + 8);
    if w.watch >= p && w.watch < p + 8 {
        assert!(w.hits == 1 && w.val == le(tgt - p, w.watch - p));
    } else if !(w.watch >= base && w.watch < tgt) {
        assert!(w.hits == 0);
    }
    reach!(c.leaf, "leaf");
    reach!(!c.leaf, "node");
}

fn ptr<P, const A: u64>()
where
    P: SsbhWrite + Default + TryFrom<u64>,
{
    let n = std::mem::size_of::<P>() as u64;
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    let v = Ptr::<P, Child<A>>::new(Child::<A>::any());
    let r = v.ssbh_write(&mut w, &mut dp);
    let c = v.as_ref().unwrap();
    let base = max(dp0, p + n);
    let tgt = c.at.get();
    match r {
        Ok(()) => {
            assert!(c.calls.get() == 1);
            assert!(is_round_up(tgt, base, A));
            assert!(n == 8 || tgt < 1 << (8 * n));
            assert!(c.dp_in.get() >= tgt);
            let need = max(c.end(), c.dp_out.get());
            assert!(dp >= need && dp - need < A);
            assert!(w.pos == p + n);
            if w.watch >= p && w.watch < p + n {
                assert!(w.hits == 1 && w.val == le(tgt, w.watch - p));
            } else if !(w.watch >= base && w.watch < tgt) {
                assert!(w.hits == 0);
            }
            reach!(c.leaf, "leaf");
            reach!(!c.leaf, "node");
        }
        Err(e) => {
            // Only an address that the pointer type cannot hold may be refused.
            leak(e);
            assert!(n < 8 && base + (A - 1) >= 1 << (8 * n));
        }
    }
}

fn null<T: SsbhWrite>(v: T, n: u64) {
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    v.ssbh_write(&mut w, &mut dp).unwrap();
    assert!(v.size_in_bytes() == n);
    assert!(dp == max(dp0, p + n));
    assert!(w.pos == p + n);
    if w.watch >= p && w.watch < p + n {
        assert!(w.hits == 1 && w.val == 0);
    } else {
        assert!(w.hits == 0);
    }
    reach!(w.hits == 1, "written");
}

/// `count` elements written one after the other at `start`, their own data behind all of them.
fn elements_ok<const A: u64>(cs: &[Child<A>], start: u64, size: u64) -> u64 {
    let mut at = start;
    let end = start + size * cs.len() as u64;
    let mut need = end;
    let mut last = end;
    for c in cs {
        assert!(c.calls.get() == 1);
        assert!(c.at.get() == at);
        assert!(c.dp_in.get() >= last);
        last = c.dp_out.get();
        need = max(need, last);
        at += size;
    }
    need
}

fn same_size<const A: u64>(leaf: bool, size: u64) -> Child<A> {
    Child::with(leaf, size, pos())
}

fn array<const A: u64, const N: usize>() {
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    let (leaf, size) = (any(), pos());
    let v: Vec<Child<A>> = (0..N).map(|_| same_size::<A>(leaf, size)).collect();
    let v = SsbhArray::from_vec(v);
    v.ssbh_write(&mut w, &mut dp).unwrap();
    assert!(v.size_in_bytes() == 16);
    let base = max(dp0, p + 16);
    assert!(w.pos == p + 16);
    let off = if N == 0 {
        assert!(dp >= base && dp - base < 8);
        0
    } else {
        let tgt = v.elements[0].at.get();
        assert!(is_round_up(tgt, base, 8));
        let need = elements_ok(&v.elements, tgt, size);
        assert!(dp >= need);
        tgt - p
    };
    if w.watch >= p && w.watch < p + 16 {
        let want = if w.watch < p + 8 { le(off, w.watch - p) } else { le(N as u64, w.watch - p - 8) };
        assert!(w.hits == 1 && w.val == want);
    } else if !(N > 0 && w.watch >= base && w.watch < p + off) {
        assert!(w.hits == 0);
    }
    reach!(leaf, "leaf");
    reach!(!leaf, "node");
}

fn slice<const A: u64, const N: usize>(vec: bool) {
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    let (leaf, size) = (any(), pos());
    let v: Vec<Child<A>> = (0..N).map(|_| same_size::<A>(leaf, size)).collect();
    let total = size * N as u64;
    if vec {
        assert!(v.size_in_bytes() == total);
        v.ssbh_write(&mut w, &mut dp).unwrap();
    } else {
        assert!(v.as_slice().size_in_bytes() == total);
        v.as_slice().ssbh_write(&mut w, &mut dp).unwrap();
    }
    assert!(w.pos == p + total && w.hits == 0);
    let need = elements_ok(&v, p, size);
    assert!(dp >= need && dp >= dp0);
    if N > 0 {
        assert!(v[0].dp_in.get() >= max(dp0, p + total));
    }
}

fn enum64<const A: u64>() {
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    let v = SsbhEnum64 { data: RelPtr64::new(Tagged::<A> { child: Child::any(), tag: any() }) };
    assert!(v.size_in_bytes() == 16);
    v.ssbh_write(&mut w, &mut dp).unwrap();
    let t = v.data.as_ref().unwrap();
    let c = &t.child;
    let base = max(dp0, p + 16);
    let tgt = c.at.get();
    assert!(c.calls.get() == 1);
    assert!(is_round_up(tgt, base, A));
    assert!(c.dp_in.get() >= tgt);
    assert!(dp >= c.end() && dp >= c.dp_out.get());
    assert!(w.pos == p + 16);
    if w.watch >= p && w.watch < p + 16 {
        let want = if w.watch < p + 8 { le(tgt - p, w.watch - p) } else { le(t.tag, w.watch - p - 8) };
        assert!(w.hits == 1 && w.val == want);
    } else if !(w.watch >= base && w.watch < tgt) {
        assert!(w.hits == 0);
    }
    reach!(c.leaf, "leaf");
}

/// A byte buffer of any length (content left unspecified under the verifier).
fn any_bytes() -> Vec<u8> {
    #[cfg(kani)]
    {
        let n: usize = any();
        assume(n < (1 << 40));
        let mut v = Vec::with_capacity(n);
        unsafe { v.set_len(n) };
        v
    }
    #[cfg(not(kani))]
    {
        let n = any::<usize>() & 63;
        (0..n).map(|i| i as u8 ^ 0x5a).collect()
    }
}

fn prim<T: SsbhWrite + Copy>(v: T, bytes: &[u8]) {
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    v.ssbh_write(&mut w, &mut dp).unwrap();
    let n = bytes.len() as u64;
    assert!(v.size_in_bytes() == n && w.pos == p + n);
    assert!(dp >= dp0 && (dp == dp0 || dp == p + n));
    if w.watch >= p && w.watch < p + n {
        assert!(w.hits == 1 && w.val == bytes[(w.watch - p) as usize]);
    } else {
        assert!(w.hits == 0);
    }
    assert!(T::alignment_in_bytes() <= 16 && n % T::alignment_in_bytes() == 0);
}

// The derived writer: fields one after the other, inline data first, everything else behind it.
#[derive(SsbhWrite)]
struct Node {
    a: Child<4>,
    b: RelPtr64<Child<8>>,
    c: u32,
    d: Child<1>,
}
#[derive(SsbhWrite)]
struct Tuple(Child<4>, u16, RelPtr64<Child<16>>);
#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 6, alignment = 16)]
struct Padded {
    a: u16,
    b: RelPtr64<Child<4>>,
}
#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
struct Aligned {
    b: RelPtr64<Child<4>>,
    a: u8,
}
#[derive(SsbhWrite)]
enum Choice {
    One(Child<4>),
    Two { x: RelPtr64<Child<8>>, y: u64 },
}

/// The common part of the contract for a derived record of inline size `n`.
fn derived<T: SsbhWrite>(v: &T, n: u64) -> (u64, u64, u64, SpecWriter) {
    let p = pos();
    let dp0 = pos();
    let mut w = SpecWriter::at(p);
    let mut dp = dp0;
    assert!(v.size_in_bytes() == n);
    v.ssbh_write(&mut w, &mut dp).unwrap();
    assert!(w.pos == p + n);
    assert!(dp >= max(dp0, p + n));
    (p, max(dp0, p + n), dp, w)
}

contracts! { kani {
    /// A relative pointer (alignment 1) stores the distance to its target; the target is the first free aligned position; nothing else is written.
    fn p_relptr_align1() { relptr::<1>() }
    /// As above for alignment 4.
    fn p_relptr_align4() { relptr::<4>() }
    /// As above for alignment 8.
    fn p_relptr_align8() { relptr::<8>() }
    /// As above for alignment 16.
    fn p_relptr_align16() { relptr::<16>() }
    /// A null relative pointer is eight zero bytes and reserves nothing else.
    fn p_relptr_null() { null(RelPtr64::<Child<8>>::null(), 8) }
    /// A 64-bit absolute pointer stores the address of its target.
    fn p_ptr64() { ptr::<u64, 8>() }
    /// A 32-bit absolute pointer stores the address of its target or refuses one that does not fit.
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_ptr32() { ptr::<u32, 4>() }
    /// A 16-bit absolute pointer stores the address of its target or refuses one that does not fit.
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_ptr16() { ptr::<u16, 1>() }
    /// Null absolute pointers are zero bytes of the pointer's width.
    fn p_ptr_null() {
        null(Ptr16::<Child<8>>::null(), 2);
        null(Ptr32::<Child<8>>::null(), 4);
        null(Ptr64::<Child<8>>::null(), 8);
    }
    /// An empty array stores offset 0 and count 0.
    fn p_array_0() { array::<8, 0>() }
    /// An array of one element of any size: header, 8-aligned target, element data behind the whole array.
    fn p_array_1() { array::<1, 1>() }
    /// [bounded: array length 2] element i follows element i-1 directly; all their data lies behind the array.
    #[cfg_attr(kani, kani::unwind(4))]
    fn b_array_2() { array::<8, 2>() }
    /// [bounded: array length 3] as above.
    #[cfg_attr(kani, kani::unwind(5))]
    fn b_array_3() { array::<4, 3>() }
    /// Writing an empty slice or vector writes nothing.
    fn p_slice_0() { slice::<8, 0>(any()) }
    /// [bounded: slice length 3] elements are contiguous and reserved as a whole before the first one is written.
    #[cfg_attr(kani, kani::unwind(5))]
    fn b_slice_3() { slice::<8, 3>(any()) }
    /// A byte buffer of any length is stored behind everything reserved and reserved as a whole.
    fn p_byte_buffer() {
        let p = pos();
        let dp0 = pos();
        let mut w = SpecWriter::at(p);
        let mut dp = dp0;
        let v = SsbhByteBuffer::from_vec(any_bytes());
        let n = v.elements.len() as u64;
        v.ssbh_write(&mut w, &mut dp).unwrap();
        assert!(v.size_in_bytes() == 16);
        let base = max(dp0, p + 16);
        let tgt = base + (8 - base % 8) % 8;
        assert!(w.pos == p + 16);
        assert!(dp >= base && (n == 0 || dp >= tgt + n));
        let off = if n == 0 { 0 } else { tgt - p };
        if w.watch >= p && w.watch < p + 16 {
            let want = if w.watch < p + 8 { le(off, w.watch - p) } else { le(n, w.watch - p - 8) };
            assert!(w.hits == 1 && w.val == want);
        } else if n > 0 && w.watch >= tgt && w.watch < tgt + n {
            assert!(w.hits == 1 && w.val == v.elements[(w.watch - tgt) as usize]);
        } else if !(w.watch >= base && w.watch < tgt) {
            assert!(w.hits == 0);
        }
        reach!(n > 0 && w.hits == 1 && w.watch >= tgt, "content");
        reach!(n == 0, "empty");
        leak(v);
    }
    /// A tagged pointer stores the distance to its payload and the payload's tag.
    fn p_enum64() { enum64::<8>() }
    /// A null tagged pointer is sixteen zero bytes.
    fn p_enum64_null() { null(SsbhEnum64::<Tagged<8>> { data: RelPtr64::null() }, 16) }
    /// Integers and floats are written little endian at the current position only.
    fn p_primitives() {
        let x: u128 = any();
        let b = x.to_le_bytes();
        prim(x as u8, &b[..1]); prim(x as u16, &b[..2]); prim(x as u32, &b[..4]); prim(x as u64, &b[..8]); prim(x, &b);
        prim(x as i8, &b[..1]); prim(x as i16, &b[..2]); prim(x as i32, &b[..4]); prim(x as i64, &b[..8]); prim(x as i128, &b);
        prim(f32::from_bits(x as u32), &b[..4]);
        prim(f64::from_bits(x as u64), &b[..8]);
    }
    /// Optional values write nothing when absent, and are the value itself when present.
    fn p_option() {
        let v: Option<Child<4>> = if any() { Some(Child::node()) } else { None };
        let n = v.as_ref().map(|c| c.size).unwrap_or(0);
        let p = pos();
        let dp0 = pos();
        let mut w = SpecWriter::at(p);
        let mut dp = dp0;
        assert!(v.size_in_bytes() == n);
        v.ssbh_write(&mut w, &mut dp).unwrap();
        assert!(w.pos == p + n && w.hits == 0);
        match &v {
            Some(c) => assert!(c.at.get() == p && c.dp_in.get() >= dp0 && dp == c.dp_out.get()),
            None => assert!(dp == dp0),
        }
    }
    /// A derived record: fields in order without gaps, each field's own data behind the whole record, data of later fields behind that of earlier ones.
    fn p_derive_struct() {
        let v = Node { a: Child::node(), b: RelPtr64::new(Child::any()), c: any(), d: Child::node() };
        let n = v.a.size + 8 + 4 + v.d.size;
        let (p, base, dp, w) = derived(&v, n);
        let t = v.b.as_ref().unwrap();
        assert!(v.a.at.get() == p && v.d.at.get() == p + v.a.size + 12);
        assert!(v.a.dp_in.get() >= base);
        assert!(t.at.get() >= v.a.dp_out.get() && t.at.get() % 8 == 0);
        assert!(v.d.dp_in.get() >= t.end() && v.d.dp_in.get() >= t.dp_out.get());
        assert!(dp >= v.d.dp_out.get());
        let o = p + v.a.size;
        if w.watch >= o && w.watch < o + 8 {
            assert!(w.hits == 1 && w.val == le(t.at.get() - o, w.watch - o));
        } else if w.watch >= o + 8 && w.watch < o + 12 {
            assert!(w.hits == 1 && w.val == le(v.c as u64, w.watch - o - 8));
        } else if w.watch < base {
            assert!(w.hits == 0);
        }
    }
    /// As above for a tuple record.
    fn p_derive_tuple() {
        let v = Tuple(Child::node(), any(), RelPtr64::new(Child::any()));
        let (p, base, dp, w) = derived(&v, v.0.size + 10);
        let t = v.2.as_ref().unwrap();
        assert!(v.0.at.get() == p && v.0.dp_in.get() >= base);
        assert!(t.at.get() >= v.0.dp_out.get() && t.at.get() % 16 == 0);
        assert!(dp >= t.end() && dp >= t.dp_out.get());
        let o = p + v.0.size + 2;
        if w.watch >= o && w.watch < o + 8 {
            assert!(w.hits == 1 && w.val == le(t.at.get() - o, w.watch - o));
        }
    }
    /// Padding after a record is zero bytes that belong to the record, and pointed-to data lies behind it.
    fn p_derive_padded() {
        let v = Padded { a: any(), b: RelPtr64::new(Child::any()) };
        let (p, base, _dp, w) = derived(&v, 16);
        let t = v.b.as_ref().unwrap();
        assert!(t.at.get() >= base && t.at.get() % 4 == 0);
        assert!(Padded::alignment_in_bytes() == 16);
        if w.watch >= p + 10 && w.watch < p + 16 {
            assert!(w.hits == 1 && w.val == 0);
        } else if w.watch >= p && w.watch < p + 10 {
            assert!(w.hits == 1);
        } else if w.watch < base {
            assert!(w.hits == 0);
        }
    }
    /// A record that ends with file alignment leaves the file end aligned, adding only zero bytes at the end.
    #[cfg_attr(kani, kani::unwind(17))]
    fn p_derive_aligned() {
        let v = Aligned { b: RelPtr64::null(), a: any() };
        let p = pos();
        let dp0 = pos();
        let mut w = SpecWriter::at(p);
        let end = p + below(256);
        w.end = end;
        let mut dp = dp0;
        v.ssbh_write(&mut w, &mut dp).unwrap();
        let end = max(end, p + 9);
        assert!(is_round_up(w.end, end, 16) && w.pos == w.end && dp >= max(dp0, p + 9));
        if w.watch >= p && w.watch < p + 9 {
            assert!(w.hits == 1 && w.val == if w.watch == p + 8 { v.a } else { 0 });
        } else if w.watch >= end && w.watch < w.end {
            assert!(w.hits == 1 && w.val == 0);
        } else {
            assert!(w.hits == 0);
        }
    }
    /// A derived choice writes exactly its active alternative.
    fn p_derive_enum() {
        if any() {
            let v = Choice::One(Child::node());
            let n = if let Choice::One(c) = &v { c.size } else { 0 };
            let (p, base, dp, w) = derived(&v, n);
            if let Choice::One(c) = &v {
                assert!(c.at.get() == p && c.dp_in.get() >= base && dp >= c.dp_out.get() && w.hits == 0);
            }
        } else {
            let v = Choice::Two { x: RelPtr64::new(Child::any()), y: any() };
            let (p, base, dp, w) = derived(&v, 16);
            if let Choice::Two { x, y } = &v {
                let t = x.as_ref().unwrap();
                assert!(t.at.get() >= base && t.at.get() % 8 == 0 && dp >= t.end() && dp >= t.dp_out.get());
                if w.watch >= p && w.watch < p + 16 {
                    let want = if w.watch < p + 8 { le(t.at.get() - p, w.watch - p) } else { le(*y, w.watch - p - 8) };
                    assert!(w.hits == 1 && w.val == want);
                }
            }
        }
    }
    /// A fixed-size array of derived records keeps every record in its own place (pointers of one never land in another).
    #[cfg_attr(kani, kani::unwind(4))]
    fn p_fixed_array_of_records() {
        let v = [
            Tuple(Child::with(false, 4, pos()), any(), RelPtr64::new(Child::any())),
            Tuple(Child::with(false, 4, pos()), any(), RelPtr64::new(Child::any())),
        ];
        let (p, base, dp, _) = derived(&v, 28);
        let (t0, t1) = (v[0].2.as_ref().unwrap(), v[1].2.as_ref().unwrap());
        assert!(v[0].0.at.get() == p && v[1].0.at.get() == p + 14);
        assert!(t0.at.get() >= base);
        assert!(t1.at.get() >= t0.end() && t1.at.get() >= t0.dp_out.get());
        assert!(dp >= t1.end() && dp >= t1.dp_out.get());
    }
} native {
    /// [bounded: generated files of every type] no byte of a written file is written twice.
    fn n_no_overlap_any_file() { crate::walk::no_overlap() }
} }
