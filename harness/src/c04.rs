//! @fs=300
//! C04: every record is read back as it was written and occupies the bytes it declares.
//!
//! The pointed-to data of a record is under the container contracts of C01 and C02; here all inline
//! bytes of every record type are covered: for every content, with the pointers null.
use crate::env::*;
use crate::nd::*;
use binrw::{BinRead, Endian};
use ssbh_lib::formats::*;
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::Cursor;

const LE: Endian = Endian::Little;

/// A record of `N` bytes. `nulls`: (offset, length) of its pointer fields. `pads`: bytes the reader
/// skips and the writer zeroes. `extra`: zero bytes the writer adds behind it.
fn record<T, A, const N: usize, const M: usize>(args: A, nulls: &[(usize, usize)], pads: &[(usize, usize)], extra: usize)
where
    T: for<'a> BinRead<Args<'a> = A> + SsbhWrite,
{
    let mut b: [u8; N] = content();
    for (at, n) in nulls {
        b[*at..at + n].copy_from_slice(&[0; 16][..*n]);
    }
    let mut r = Straight { b, pos: 0 };
    let v = match T::read_options(&mut r, LE, args) {
        Ok(v) => v,
        Err(e) => {
            leak(e);
            return;
        }
    };
    reach!(true, "accepted");
    assert!(r.pos == N);
    assert!(v.size_in_bytes() == (N + extra) as u64);
    // The place of the record in the file does not matter (C01); 16 keeps every alignment.
    let mut out = [0xAAu8; M];
    let mut w = Cursor::new(&mut out[..]);
    w.set_position(16);
    let mut dp = 0;
    v.ssbh_write(&mut w, &mut dp).unwrap();
    assert!(w.position() == (16 + N + extra) as u64);
    // One arbitrary byte stands for all of them.
    let i = below(M as u64) as usize;
    let mut want = if i < 16 || i >= 16 + N + extra {
        0xAA
    } else if i >= 16 + N {
        0
    } else {
        b[i - 16]
    };
    for (at, n) in pads {
        if i >= 16 + *at && i < 16 + at + n {
            want = 0;
        }
    }
    assert!(out[i] == want);
    leak(v);
}

/// Any bytes; generated ones are mostly small numbers, so that enumerations accept them.
fn content<const N: usize>() -> [u8; N] {
    if cfg!(kani) {
        return any();
    }
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        let w: [u8; 4] = match below(6) {
            0 => any(),
            1 => [any::<u8>() % 10, 0, 0, 0],
            2 => [0, any::<u8>() % 10, any::<u8>() % 3, 0],
            _ => [any::<u8>() % 3, 0, 0, 0],
        };
        let n = if N - i < 4 { N - i } else { 4 };
        b[i..i + n].copy_from_slice(&w[..n]);
        i += 4;
    }
    b
}

contracts! { kani {
    /// Three-component vectors and 3x3 matrices: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_vec3() {
        record::<Vector3, _, 12, 44>((), &[], &[], 0);
        record::<Matrix3x3, _, 36, 68>((), &[], &[], 0);
    }
    /// Four-component vectors and colors: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_vec4() {
        record::<Vector4, _, 16, 48>((), &[], &[], 0);
        record::<Color4f, _, 16, 48>((), &[], &[], 0);
    }
    /// 4x4 matrices: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mat4() {
        record::<Matrix4x4, _, 64, 96>((), &[], &[], 0);
    }
    /// Animation tracks: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_anim_track() {
        record::<anim::TrackV2, _, 32, 64>((), &[(0, 8)], &[(10, 2)], 0);
    }
    /// Animation groups, nodes, properties: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_anim_records() {
        record::<anim::Group, _, 24, 56>((), &[(8, 16)], &[], 0);
        record::<anim::Node, _, 24, 56>((), &[(0, 8), (8, 16)], &[], 0);
        record::<anim::TrackV1, _, 32, 64>((), &[(0, 8), (16, 16)], &[], 0);
        record::<anim::Property, _, 16, 48>((), &[(0, 8)], &[], 0);
        record::<anim::UnkData, _, 32, 64>((), &[(0, 16), (16, 16)], &[], 0);
        record::<anim::UnkItem1, _, 24, 56>((), &[(8, 16)], &[], 0);
        record::<anim::UnkItem2, _, 24, 56>((), &[(0, 8), (8, 16)], &[], 0);
        record::<anim::UnkSubItem, _, 8, 40>((), &[], &[], 0);
    }
    /// Animation file bodies of every version: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_anim_file() {
        record::<anim::Anim, _, 56, 88>((1, 2), &[(0, 8), (24, 16), (40, 16)], &[], 0);
        record::<anim::Anim, _, 48, 80>((2, 0), &[(8, 8), (16, 16), (32, 16)], &[], 0);
        record::<anim::Anim, _, 80, 96>((2, 1), &[(8, 8), (16, 16), (32, 16), (48, 16), (64, 16)], &[], 0);
    }
    /// Helper bone file bodies: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_hlpb_file() {
        record::<hlpb::Hlpb, _, 64, 96>((1, 1), &[(0, 16), (16, 16), (32, 16), (48, 16)], &[], 0);
    }
    /// Aim constraints: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_hlpb_aim() {
        record::<hlpb::AimConstraint, _, 144, 176>((), &[(0, 8), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (48, 8)], &[], 0);
    }
    /// Orient constraints: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_hlpb_orient() {
        record::<hlpb::OrientConstraint, _, 112, 144>((), &[(0, 8), (8, 8), (16, 8), (24, 8), (32, 8)], &[], 0);
    }
    /// Material file bodies and entries: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_matl_file() {
        record::<matl::Matl, _, 16, 48>((1, 5), &[(0, 16)], &[], 0);
        record::<matl::Matl, _, 16, 48>((1, 6), &[(0, 16)], &[], 0);
        record::<matl::MatlEntryV15, _, 32, 64>((), &[(0, 8), (8, 16), (24, 8)], &[], 0);
        record::<matl::MatlEntryV16, _, 32, 64>((), &[(0, 8), (8, 16), (24, 8)], &[], 0);
    }
    /// Material attributes (1.5): any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_matl_attribute15() {
        record::<matl::AttributeV15, _, 24, 56>((), &[(8, 16)], &[], 0);
    }
    /// Material attributes (1.6): any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_matl_attribute16() {
        record::<matl::AttributeV16, _, 24, 56>((), &[(8, 16)], &[], 0);
    }
    /// Rasterizer states and UV transforms: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_matl_raster() {
        record::<matl::RasterizerStateV15, _, 4, 36>((), &[], &[], 0);
        record::<matl::RasterizerStateV16, _, 24, 60>((), &[], &[], 4);
        record::<matl::UvTransform, _, 20, 52>((), &[], &[], 0);
    }
    /// Samplers: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_matl_sampler() {
        record::<matl::Sampler, _, 56, 88>((), &[], &[], 0);
    }
    /// Blend states (1.5): any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_matl_blend15() {
        record::<matl::BlendStateV15, _, 44, 76>((), &[], &[], 0);
    }
    /// Blend states (1.6): any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_matl_blend16() {
        record::<matl::BlendStateV16, _, 40, 80>((), &[], &[], 8);
    }
    /// Mesh file bodies (1.8): any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_file8() {
        record::<mesh::Mesh, _, 200, 232>((1, 8), &[(0, 8), (112, 16), (128, 16), (152, 16), (168, 16), (184, 16)], &[], 16);
    }
    /// Mesh file bodies (1.9): any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_file9() {
        record::<mesh::Mesh, _, 200, 232>((1, 9), &[(0, 8), (112, 16), (128, 16), (152, 16), (168, 16), (184, 16)], &[], 16);
    }
    /// Mesh file bodies (1.10): any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_file10() {
        record::<mesh::Mesh, _, 200, 232>((1, 10), &[(0, 8), (112, 16), (128, 16), (152, 16), (168, 16), (184, 16)], &[], 16);
    }
    /// Mesh objects (1.8): any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_object8() {
        record::<mesh::MeshObject<mesh::AttributeV8>, _, 208, 240>((), &[(0, 8), (16, 8), (192, 16)], &[(90, 2)], 0);
    }
    /// Mesh objects (1.10): any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_object10() {
        record::<mesh::MeshObject<mesh::AttributeV10>, _, 208, 240>((), &[(0, 8), (16, 8), (192, 16)], &[(90, 2)], 0);
    }
    /// Bounding information: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_bounding() {
        record::<mesh::BoundingInfo, _, 100, 132>((), &[], &[], 0);
    }
    /// Vertex attribute descriptions: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_attributes() {
        record::<mesh::AttributeV8, _, 20, 52>((), &[], &[], 0);
        record::<mesh::AttributeV9, _, 48, 80>((), &[(24, 8), (32, 16)], &[], 0);
        record::<mesh::AttributeV10, _, 48, 80>((), &[(24, 8), (32, 16)], &[], 0);
    }
    /// Skin weight records: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_mesh_rigging() {
        record::<mesh::RiggingFlags, _, 8, 40>((), &[], &[(2, 6)], 0);
        record::<mesh::BoneBuffer<SsbhByteBuffer>, _, 24, 56>((), &[(0, 8), (8, 16)], &[], 0);
        record::<mesh::RiggingGroup<SsbhByteBuffer>, _, 40, 72>((), &[(0, 8), (24, 16)], &[(18, 6)], 0);
        record::<mesh::RiggingGroup<SsbhArray<mesh::VertexWeightV8>>, _, 40, 72>((), &[(0, 8), (24, 16)], &[(18, 6)], 0);
        record::<mesh::VertexWeightV8, _, 8, 40>((), &[], &[], 0);
    }
    /// Extended mesh records: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_meshex() {
        record::<meshex::MeshEntry, _, 16, 48>((), &[], &[], 0);
        record::<meshex::AllData, _, 24, 56>((), &[(16, 8)], &[], 0);
        record::<meshex::MeshObjectGroup, _, 32, 64>((), &[(16, 8), (24, 8)], &[], 0);
        record::<meshex::EntryFlag, _, 2, 34>((), &[], &[], 0);
    }
    /// Model records: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_modl() {
        record::<modl::Modl, _, 64, 96>((1, 7), &[(0, 8), (8, 8), (16, 16), (32, 8), (40, 8), (48, 16)], &[], 0);
        record::<modl::ModlEntry, _, 24, 56>((), &[(0, 8), (16, 8)], &[], 0);
    }
    /// Render pass file bodies and file lists: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_file() {
        record::<nrpd::Nrpd, _, 152, 184>((1, 6), &[(0, 16), (16, 16), (32, 16), (48, 16), (64, 16), (80, 16), (128, 8)], &[], 0);
        record::<nlst::Nlst, _, 16, 48>((1, 0), &[(0, 16)], &[], 0);
    }
    /// Frame buffers: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_buffers() {
        record::<nrpd::Framebuffer0, _, 32, 64>((), &[(0, 8)], &[], 0);
        record::<nrpd::Framebuffer1, _, 32, 64>((), &[(0, 8)], &[], 0);
        record::<nrpd::UniformBuffer, _, 24, 56>((), &[(0, 8)], &[], 0);
        record::<nrpd::Framebuffer3, _, 32, 64>((), &[(0, 8)], &[], 0);
        record::<nrpd::Framebuffer4, _, 24, 56>((), &[(0, 8)], &[], 0);
    }
    /// Render pass samplers: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_sampler() {
        record::<nrpd::NrpdSampler, _, 72, 104>((), &[(0, 8)], &[], 0);
    }
    /// Render pass states: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_states() {
        record::<nrpd::NrpdRasterizerState, _, 32, 64>((), &[(0, 8)], &[], 0);
        record::<nrpd::NrpdBlendState, _, 48, 80>((), &[(0, 8)], &[], 0);
        record::<nrpd::DepthState, _, 64, 96>((), &[(0, 8)], &[], 0);
    }
    /// Render pass data: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_pass1() {
        record::<nrpd::RenderPassData0, _, 24, 56>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nrpd::RenderPassData1, _, 16, 48>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nrpd::RenderPassData2, _, 48, 80>((), &[(0, 8), (8, 8), (16, 8), (32, 8)], &[], 0);
        record::<nrpd::RenderPassData3, _, 48, 80>((), &[(0, 8), (8, 8), (16, 8), (32, 8)], &[], 0);
        record::<nrpd::RenderPassData8, _, 48, 80>((), &[(0, 8), (8, 8), (16, 8), (32, 8)], &[], 0);
        record::<nrpd::RenderPassData13, _, 48, 80>((), &[(0, 8), (8, 8), (16, 8), (32, 8)], &[], 0);
    }
    /// Render pass data: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_pass2() {
        record::<nrpd::RenderPassData19, _, 16, 48>((), &[(0, 8)], &[], 0);
        record::<nrpd::Unk8Data, _, 8, 40>((), &[], &[], 0);
        record::<nrpd::ColorClear, _, 32, 64>((), &[(0, 8)], &[], 0);
        record::<nrpd::DepthStencilClear, _, 16, 48>((), &[(0, 8)], &[], 0);
        record::<nrpd::Viewport, _, 40, 72>((), &[(0, 8)], &[], 0);
    }
    /// Render passes: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_container() {
        record::<nrpd::RenderPassContainer, _, 64, 96>((), &[(0, 8), (8, 16), (24, 16), (40, 16)], &[(56, 8)], 0);
    }
    /// Render pass items: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_items() {
        record::<nrpd::Unk3Data, _, 32, 64>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nrpd::StringPair, _, 16, 48>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nrpd::UnkItem1, _, 24, 56>((), &[(0, 8), (8, 16)], &[], 0);
        record::<nrpd::UnkItem20, _, 16, 48>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nrpd::UnkItem21, _, 24, 56>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nrpd::UnkItem24, _, 40, 72>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nrpd::UnkItem3, _, 16, 48>((), &[(0, 8), (8, 8)], &[], 0);
    }
    /// Render pass items with a format: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nrpd_item22() {
        record::<nrpd::UnkItem22, _, 40, 72>((), &[(0, 8), (8, 8)], &[], 0);
    }
    /// Shader programs: any inline bytes that are accepted are written back in place, in exactly the declared size. @tier=thorough
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nufx_programs() {
        record::<nufx::Nufx, _, 32, 64>((1, 0), &[(0, 16), (16, 16)], &[], 0);
        record::<nufx::Nufx, _, 32, 64>((1, 1), &[(0, 16), (16, 16)], &[], 0);
        record::<nufx::ShaderStages, _, 48, 80>((), &[(0, 8), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8)], &[], 0);
        record::<nufx::ShaderProgramV0, _, 80, 112>((), &[(0, 8), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (48, 8), (56, 8), (64, 16)], &[], 0);
        record::<nufx::ShaderProgramV1, _, 96, 128>((), &[(0, 8), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (48, 8), (56, 8), (64, 16), (80, 16)], &[], 0);
    }
    /// Shader program records: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_nufx_records() {
        record::<nufx::VertexAttribute, _, 16, 48>((), &[(0, 8), (8, 8)], &[], 0);
        record::<nufx::MaterialParameter, _, 24, 56>((), &[(8, 8)], &[(16, 8)], 0);
        record::<nufx::UnkItem, _, 24, 56>((), &[(0, 8), (8, 16)], &[], 0);
    }
    /// Shader records: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_shdr() {
        record::<shdr::Shdr, _, 16, 48>((1, 2), &[(0, 16)], &[], 0);
        record::<shdr::Shader, _, 56, 88>((), &[(0, 8), (16, 16)], &[(40, 16)], 0);
    }
    /// Skeleton records: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_skel() {
        record::<skel::Skel, _, 80, 112>((1, 0), &[(0, 16), (16, 16), (32, 16), (48, 16), (64, 16)], &[], 0);
        record::<skel::SkelBoneEntry, _, 16, 48>((), &[(0, 8)], &[(14, 2)], 0);
    }
    /// Adjacency entries: any inline bytes that are accepted are written back in place, in exactly the declared size.
    #[cfg_attr(kani, kani::unwind(17))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::env::no_format))]
    fn p_adj() {
        record::<adj::AdjEntry, _, 8, 40>((), &[], &[], 0);
    }
} native {
    /// [bounded: generated files of every type, up to about 1500 generator bytes] a written file is read back equal, and writing it again gives identical bytes.
    fn n_any_file() { crate::walk::roundtrip() }
} }
