use crate::nd::*;
use ssbh_lib::{formats::mesh::*, *};

/// A mesh object of which only the parts concerning the buffers matter.
pub fn object() -> MeshObject<AttributeV10> {
    let v = Vector3::new(0.0, 0.0, 0.0);
    MeshObject {
        name: SsbhString::from_bytes(&[]),
        subindex: any(),
        parent_bone_name: SsbhString::from_bytes(&[]),
        vertex_count: any(),
        vertex_index_count: 0,
        unk2: any(),
        vertex_buffer0_offset: any(),
        vertex_buffer1_offset: any(),
        vertex_buffer2_offset: any(),
        vertex_buffer3_offset: any(),
        stride0: any(),
        stride1: any(),
        stride2: any(),
        stride3: any(),
        index_buffer_offset: 0,
        unk8: any(),
        draw_element_type: DrawElementType::UnsignedShort,
        use_vertex_skinning: any(),
        sort_bias: any(),
        depth_flags: DepthFlags { disable_depth_write: any(), disable_depth_test: any() },
        bounding_info: BoundingInfo {
            bounding_sphere: BoundingSphere { center: v, radius: 0.0 },
            bounding_volume: BoundingVolume { min: v, max: v },
            oriented_bounding_box: OrientedBoundingBox { center: v, transform: Matrix3x3::identity(), size: v },
        },
        attributes: SsbhArray::new(),
    }
}
