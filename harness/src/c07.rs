//! C07: enumeration codes, payload tags and flag words.
use crate::env::*;
use crate::nd::*;
use crate::tables::*;
use binrw::{BinRead, Endian};
use ssbh_lib::formats::*;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::Cursor;

const LE: Endian = Endian::Little;

fn known(table: &[(u64, &str)], code: u64) -> bool {
    if table[table.len() - 1].0 + 1 == table.len() as u64 {
        return code < table.len() as u64; // sorted and without gaps
    }
    let mut i = 0;
    while i < table.len() {
        if table[i].0 == code {
            return true;
        }
        i += 1;
    }
    false
}

/// Any number of `N` bytes is accepted iff it is a documented code, and is written back as it was.
fn codes<T, const N: usize>(table: &[(u64, &str)])
where
    T: for<'a> BinRead<Args<'a> = ()> + SsbhWrite + std::fmt::Debug,
{
    let mut b = [0u8; N];
    if cfg!(kani) || below(4) == 0 {
        b = any();
    } else {
        // near the documented codes
        let c = table[below(table.len() as u64) as usize].0 + [0, 0, 1, 2][below(4) as usize];
        b.copy_from_slice(&c.to_le_bytes()[..N]);
    }
    let mut code = 0u64;
    for i in (0..N).rev() {
        code = code << 8 | b[i] as u64;
    }
    let mut r = SpecReader::new(16, u64::MAX, b);
    r.sure = true;
    match T::read_options(&mut r, LE, ()) {
        Ok(v) => {
            assert!(known(table, code));
            reach!(true, "accepted");
            #[cfg(not(kani))]
            assert!(table.iter().any(|(c, n)| *c == code && *n == format!("{v:?}")), "{code} means {v:?}");
            let mut out = [0xAAu8; N];
            let mut w = Cursor::new(&mut out[..]);
            let mut dp = 0;
            v.ssbh_write(&mut w, &mut dp).unwrap();
            assert!(w.position() == N as u64 && v.size_in_bytes() == N as u64);
            let i = below(N as u64) as usize;
            assert!(out[i] == b[i]);
            leak(v);
        }
        Err(e) => {
            leak(e);
            assert!(!known(table, code));
            reach!(true, "rejected");
        }
    }
}

/// A tag that is not documented is rejected.
#[allow(dead_code)]
fn unknown_tag<T>(table: &[(u64, &str)])
where
    T: for<'a> BinRead<Args<'a> = (u64,)> + DataType,
{
    let tag: u64 = any();
    assume(!known(table, tag));
    let mut r = Straight { b: [0u8; 72], pos: 0 };
    match T::read_options(&mut r, LE, (tag,)) {
        Ok(v) => {
            leak(v);
            assert!(false);
        }
        Err(e) => leak(e),
    }
    reach!(true, "rejected");
}

#[cfg(not(kani))]
/// A documented tag selects the payload that is written with that tag.
/// All payload bytes are 0 except `ones` (codes that cannot be 0).
fn tag<T>(tag: u64, ones: &[usize])
where
    T: for<'a> BinRead<Args<'a> = (u64,)> + DataType + std::fmt::Debug,
{
    let mut b = [0u8; 72];
    for i in ones {
        b[*i] = 1;
    }
    let mut r = Straight { b, pos: 0 };
    match T::read_options(&mut r, LE, (tag,)) {
        Ok(v) => {
            assert!(v.data_type() == tag);
            reach!(true, "accepted");
            leak(v);
        }
        Err(e) => {
            leak(e);
            assert!(false);
        }
    }
}

#[cfg(not(kani))]
fn names<T, const N: usize>(table: &[(u64, &str)])
where
    T: for<'a> BinRead<Args<'a> = ()> + std::fmt::Debug,
{
    for code in 0..2048u64 {
        if N == 1 && code > 255 {
            break;
        }
        let got = T::read_options(&mut Cursor::new(&code.to_le_bytes()[..N]), LE, ()).ok().map(|v| format!("{v:?}"));
        let want = table.iter().find(|(c, _)| *c == code).map(|(_, n)| n.to_string());
        assert!(got == want, "{code} is read as {got:?}, documented as {want:?}");
    }
}

contracts! { kani {
    /// TrackTypeV1: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_track_type_v1() { codes::<anim::TrackTypeV1, 8>(TRACK_TYPE_V1) }
    /// TrackTypeV2: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_track_type_v2() { codes::<anim::TrackTypeV2, 1>(TRACK_TYPE_V2) }
    /// CompressionType: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_compression_type() { codes::<anim::CompressionType, 1>(COMPRESSION_TYPE) }
    /// GroupType: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_group_type() { codes::<anim::GroupType, 8>(GROUP_TYPE) }
    /// ConstraintType: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_constraint_type() { codes::<hlpb::ConstraintType, 4>(CONSTRAINT_TYPE) }
    /// ParamId: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_param_id() { codes::<matl::ParamId, 8>(PARAM_ID) }
    /// FillMode: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_fill_mode() { codes::<matl::FillMode, 4>(FILL_MODE) }
    /// CullMode: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_cull_mode() { codes::<matl::CullMode, 4>(CULL_MODE) }
    /// WrapMode: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_wrap_mode() { codes::<matl::WrapMode, 4>(WRAP_MODE) }
    /// MinFilter: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_min_filter() { codes::<matl::MinFilter, 4>(MIN_FILTER) }
    /// MagFilter: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mag_filter() { codes::<matl::MagFilter, 4>(MAG_FILTER) }
    /// FilteringType: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_filtering_type() { codes::<matl::FilteringType, 4>(FILTERING_TYPE) }
    /// MaxAnisotropy: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_max_anisotropy() { codes::<matl::MaxAnisotropy, 4>(MAX_ANISOTROPY) }
    /// BlendFactor: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(13))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_blend_factor() { codes::<matl::BlendFactor, 4>(BLEND_FACTOR) }
    /// BlendOperation: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_blend_operation() { codes::<matl::BlendOperation, 4>(BLEND_OPERATION) }
    /// DrawElementType: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_draw_element_type() { codes::<mesh::DrawElementType, 4>(DRAW_ELEMENT_TYPE) }
    /// AttributeDataTypeV10: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_attribute_data_type_v10() { codes::<mesh::AttributeDataTypeV10, 4>(ATTRIBUTE_DATA_TYPE_V10) }
    /// AttributeDataTypeV8: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_attribute_data_type_v8() { codes::<mesh::AttributeDataTypeV8, 4>(ATTRIBUTE_DATA_TYPE_V8) }
    /// AttributeUsageV9: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_attribute_usage_v9() { codes::<mesh::AttributeUsageV9, 4>(ATTRIBUTE_USAGE_V9) }
    /// AttributeUsageV8: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_attribute_usage_v8() { codes::<mesh::AttributeUsageV8, 4>(ATTRIBUTE_USAGE_V8) }
    /// UnkFormat: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(14))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unk_format() { codes::<nrpd::UnkFormat, 8>(UNK_FORMAT) }
    /// ShaderStage: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_shader_stage() { codes::<shdr::ShaderStage, 4>(SHADER_STAGE) }
    /// BillboardType: exactly the documented codes are accepted, and each is written as the code it was read from.
    #[cfg_attr(kani, kani::unwind(9))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_billboard_type() { codes::<skel::BillboardType, 1>(BILLBOARD_TYPE) }
    /// ParamV15: an undocumented tag is rejected. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_param_v15_unknown() { unknown_tag::<matl::ParamV15>(PARAM_V15) }
    /// ParamV16: an undocumented tag is rejected. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_param_v16_unknown() { unknown_tag::<matl::ParamV16>(PARAM_V16) }
    /// FrameBuffer: an undocumented tag is rejected.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_frame_buffer_unknown() { unknown_tag::<nrpd::FrameBuffer>(FRAME_BUFFER) }
    /// State: an undocumented tag is rejected.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_state_unknown() { unknown_tag::<nrpd::State>(STATE) }
    /// RenderPassData: an undocumented tag is rejected. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_render_pass_data_unknown() { unknown_tag::<nrpd::RenderPassData>(RENDER_PASS_DATA) }
    /// RenderPassUnkData: an undocumented tag is rejected.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_render_pass_unk_data_unknown() { unknown_tag::<nrpd::RenderPassUnkData>(RENDER_PASS_UNK_DATA) }
    /// UnkItem2: an undocumented tag is rejected.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_unk_item2_unknown() { unknown_tag::<nrpd::UnkItem2>(UNK_ITEM2) }
    /// Packed track flags keep all 32 bits, and each flag is its documented bit.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_transform_flags() {
        let x: u32 = any();
        let mut r = Straight { b: x.to_le_bytes(), pos: 0 };
        let f = anim::TransformFlags::read_options(&mut r, LE, ()).unwrap();
        assert!(f.override_translation() == (x & 1 != 0));
        assert!(f.override_rotation() == (x & 2 != 0));
        assert!(f.override_scale() == (x & 4 != 0));
        assert!(f.override_compensate_scale() == (x & 8 != 0));
        assert!(f.into_bytes() == x.to_le_bytes());
        let mut out = [0xAAu8; 4];
        f.ssbh_write(&mut Cursor::new(&mut out[..]), &mut 0).unwrap();
        assert!(out == x.to_le_bytes() && f.size_in_bytes() == 4);
        let (a, b, c, d) = (any(), any(), any(), any());
        let g = anim::TransformFlags::new().with_override_translation(a).with_override_rotation(b).with_override_scale(c).with_override_compensate_scale(d);
        assert!(u32::from_le_bytes(g.into_bytes()) == a as u32 | (b as u32) << 1 | (c as u32) << 2 | (d as u32) << 3);
    }
    /// Extended mesh entry flags keep all 16 bits, and each flag is its documented bit.
    #[cfg_attr(kani, kani::unwind(9))]
    fn p_entry_flag() {
        let x: u16 = any();
        let mut r = Straight { b: x.to_le_bytes(), pos: 0 };
        let f = meshex::EntryFlag::read_options(&mut r, LE, ()).unwrap();
        assert!(f.draw_model() == (x & 1 != 0));
        assert!(f.cast_shadow() == (x & 2 != 0));
        assert!(f.unk3() == (x & 8 != 0) && f.unk4() == (x & 16 != 0) && f.unk5() == (x & 32 != 0));
        assert!(f.into_bytes() == x.to_le_bytes());
        let mut out = [0xAAu8; 2];
        f.ssbh_write(&mut Cursor::new(&mut out[..]), &mut 0).unwrap();
        assert!(out == x.to_le_bytes() && f.size_in_bytes() == 2);
        let (a, b) = (any(), any());
        let g = meshex::EntryFlag::new().with_draw_model(a).with_cast_shadow(b);
        assert!(u16::from_le_bytes(g.into_bytes()) == a as u16 | (b as u16) << 1);
    }
} native {
    /// [bounded: every documented tag, one payload each] the payload read for a documented tag is written with that tag.
    fn n_tags() {
        tag::<matl::ParamV15>(1, &[]);
        tag::<matl::ParamV15>(2, &[]);
        tag::<matl::ParamV15>(5, &[]);
        tag::<matl::ParamV15>(7, &[]);
        tag::<matl::ParamV15>(11, &[]);
        tag::<matl::ParamV15>(14, &[52]);
        tag::<matl::ParamV15>(16, &[]);
        tag::<matl::ParamV15>(17, &[]);
        tag::<matl::ParamV15>(18, &[]);
        tag::<matl::ParamV16>(1, &[]);
        tag::<matl::ParamV16>(2, &[]);
        tag::<matl::ParamV16>(5, &[]);
        tag::<matl::ParamV16>(7, &[]);
        tag::<matl::ParamV16>(11, &[]);
        tag::<matl::ParamV16>(14, &[52]);
        tag::<matl::ParamV16>(16, &[]);
        tag::<matl::ParamV16>(17, &[]);
        tag::<matl::ParamV16>(18, &[]);
        tag::<nrpd::FrameBuffer>(0, &[17]);
        tag::<nrpd::FrameBuffer>(1, &[]);
        tag::<nrpd::FrameBuffer>(2, &[]);
        tag::<nrpd::FrameBuffer>(3, &[]);
        tag::<nrpd::FrameBuffer>(4, &[]);
        tag::<nrpd::State>(0, &[60]);
        tag::<nrpd::State>(1, &[]);
        tag::<nrpd::State>(2, &[]);
        tag::<nrpd::State>(3, &[]);
        tag::<nrpd::RenderPassData>(0, &[]);
        tag::<nrpd::RenderPassData>(1, &[]);
        tag::<nrpd::RenderPassData>(2, &[]);
        tag::<nrpd::RenderPassData>(3, &[]);
        tag::<nrpd::RenderPassData>(8, &[]);
        tag::<nrpd::RenderPassData>(9, &[]);
        tag::<nrpd::RenderPassData>(10, &[]);
        tag::<nrpd::RenderPassData>(12, &[]);
        tag::<nrpd::RenderPassData>(13, &[]);
        tag::<nrpd::RenderPassData>(14, &[]);
        tag::<nrpd::RenderPassData>(15, &[]);
        tag::<nrpd::RenderPassData>(16, &[]);
        tag::<nrpd::RenderPassData>(17, &[]);
        tag::<nrpd::RenderPassData>(18, &[]);
        tag::<nrpd::RenderPassData>(19, &[]);
        tag::<nrpd::RenderPassUnkData>(0, &[]);
        tag::<nrpd::RenderPassUnkData>(3, &[]);
        tag::<nrpd::UnkItem2>(0, &[]);
        tag::<nrpd::UnkItem2>(1, &[]);
        tag::<nrpd::UnkItem2>(2, &[29]);
        tag::<nrpd::UnkItem2>(4, &[]);
    }
    /// [bounded: every number below 2048 for every enumeration] each documented number has its documented meaning, all others are rejected.
    fn n_meanings() {
        names::<anim::TrackTypeV1, 8>(TRACK_TYPE_V1);
        names::<anim::TrackTypeV2, 1>(TRACK_TYPE_V2);
        names::<anim::CompressionType, 1>(COMPRESSION_TYPE);
        names::<anim::GroupType, 8>(GROUP_TYPE);
        names::<hlpb::ConstraintType, 4>(CONSTRAINT_TYPE);
        names::<matl::ParamId, 8>(PARAM_ID);
        names::<matl::FillMode, 4>(FILL_MODE);
        names::<matl::CullMode, 4>(CULL_MODE);
        names::<matl::WrapMode, 4>(WRAP_MODE);
        names::<matl::MinFilter, 4>(MIN_FILTER);
        names::<matl::MagFilter, 4>(MAG_FILTER);
        names::<matl::FilteringType, 4>(FILTERING_TYPE);
        names::<matl::MaxAnisotropy, 4>(MAX_ANISOTROPY);
        names::<matl::BlendFactor, 4>(BLEND_FACTOR);
        names::<matl::BlendOperation, 4>(BLEND_OPERATION);
        names::<mesh::DrawElementType, 4>(DRAW_ELEMENT_TYPE);
        names::<mesh::AttributeDataTypeV10, 4>(ATTRIBUTE_DATA_TYPE_V10);
        names::<mesh::AttributeDataTypeV8, 4>(ATTRIBUTE_DATA_TYPE_V8);
        names::<mesh::AttributeUsageV9, 4>(ATTRIBUTE_USAGE_V9);
        names::<mesh::AttributeUsageV8, 4>(ATTRIBUTE_USAGE_V8);
        names::<nrpd::UnkFormat, 8>(UNK_FORMAT);
        names::<shdr::ShaderStage, 4>(SHADER_STAGE);
        names::<skel::BillboardType, 1>(BILLBOARD_TYPE);
    }
} }
