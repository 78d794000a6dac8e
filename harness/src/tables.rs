//! The documented numeric codes of every enumerated field: (code, meaning).
//! Written down once from the format documentation in the sources; never regenerated by a check.
pub const TRACK_TYPE_V1: &[(u64, &str)] = &[
    (0, "Transform"),
    (2, "UvTransform"),
    (5, "Visibility"),
];
pub const TRACK_TYPE_V2: &[(u64, &str)] = &[
    (1, "Transform"),
    (2, "UvTransform"),
    (3, "Float"),
    (5, "PatternIndex"),
    (8, "Boolean"),
    (9, "Vector4"),
];
pub const COMPRESSION_TYPE: &[(u64, &str)] = &[
    (1, "Direct"),
    (2, "ConstTransform"),
    (4, "Compressed"),
    (5, "Constant"),
];
pub const GROUP_TYPE: &[(u64, &str)] = &[
    (1, "Transform"),
    (2, "Visibility"),
    (4, "Material"),
    (5, "Camera"),
];
pub const CONSTRAINT_TYPE: &[(u64, &str)] = &[
    (0, "Aim"),
    (1, "Orient"),
];
pub const PARAM_ID: &[(u64, &str)] = &[
    (0, "Diffuse"),
    (1, "Specular"),
    (2, "Ambient"),
    (3, "BlendMap"),
    (4, "Transparency"),
    (5, "DiffuseMapLayer1"),
    (6, "CosinePower"),
    (7, "SpecularPower"),
    (8, "Fresnel"),
    (9, "Roughness"),
    (10, "EmissiveScale"),
    (11, "EnableDiffuse"),
    (12, "EnableSpecular"),
    (13, "EnableAmbient"),
    (14, "DiffuseMapLayer2"),
    (15, "EnableTransparency"),
    (16, "EnableOpacity"),
    (17, "EnableCosinePower"),
    (18, "EnableSpecularPower"),
    (19, "EnableFresnel"),
    (20, "EnableRoughness"),
    (21, "EnableEmissiveScale"),
    (22, "WorldMatrix"),
    (23, "ViewMatrix"),
    (24, "ProjectionMatrix"),
    (25, "WorldViewMatrix"),
    (26, "ViewInverseMatrix"),
    (27, "ViewProjectionMatrix"),
    (28, "WorldViewProjectionMatrix"),
    (29, "WorldInverseTransposeMatrix"),
    (30, "DiffuseMap"),
    (31, "SpecularMap"),
    (32, "AmbientMap"),
    (33, "EmissiveMap"),
    (34, "SpecularMapLayer1"),
    (35, "TransparencyMap"),
    (36, "NormalMap"),
    (37, "DiffuseCubeMap"),
    (38, "ReflectionMap"),
    (39, "ReflectionCubeMap"),
    (40, "RefractionMap"),
    (41, "AmbientOcclusionMap"),
    (42, "LightMap"),
    (43, "AnisotropicMap"),
    (44, "RoughnessMap"),
    (45, "ReflectionMask"),
    (46, "OpacityMask"),
    (47, "UseDiffuseMap"),
    (48, "UseSpecularMap"),
    (49, "UseAmbientMap"),
    (50, "UseEmissiveMap"),
    (51, "UseTranslucencyMap"),
    (52, "UseTransparencyMap"),
    (53, "UseNormalMap"),
    (54, "UseDiffuseCubeMap"),
    (55, "UseReflectionMap"),
    (56, "UseReflectionCubeMap"),
    (57, "UseRefractionMap"),
    (58, "UseAmbientOcclusionMap"),
    (59, "UseLightMap"),
    (60, "UseAnisotropicMap"),
    (61, "UseRoughnessMap"),
    (62, "UseReflectionMask"),
    (63, "UseOpacityMask"),
    (64, "DiffuseSampler"),
    (65, "SpecularSampler"),
    (66, "NormalSampler"),
    (67, "ReflectionSampler"),
    (68, "SpecularMapLayer2"),
    (69, "NormalMapLayer1"),
    (70, "NormalMapBc5"),
    (71, "NormalMapLayer2"),
    (72, "RoughnessMapLayer1"),
    (73, "RoughnessMapLayer2"),
    (74, "UseDiffuseUvTransform1"),
    (75, "UseDiffuseUvTransform2"),
    (76, "UseSpecularUvTransform1"),
    (77, "UseSpecularUvTransform2"),
    (78, "UseNormalUvTransform1"),
    (79, "UseNormalUvTransform2"),
    (80, "ShadowDepthBias"),
    (81, "ShadowMap0"),
    (82, "ShadowMap1"),
    (83, "ShadowMap2"),
    (84, "ShadowMap3"),
    (85, "ShadowMap4"),
    (86, "ShadowMap5"),
    (87, "ShadowMap6"),
    (88, "ShadowMap7"),
    (89, "CastShadow"),
    (90, "ReceiveShadow"),
    (91, "ShadowMapSampler"),
    (92, "Texture0"),
    (93, "Texture1"),
    (94, "Texture2"),
    (95, "Texture3"),
    (96, "Texture4"),
    (97, "Texture5"),
    (98, "Texture6"),
    (99, "Texture7"),
    (100, "Texture8"),
    (101, "Texture9"),
    (102, "Texture10"),
    (103, "Texture11"),
    (104, "Texture12"),
    (105, "Texture13"),
    (106, "Texture14"),
    (107, "Texture15"),
    (108, "Sampler0"),
    (109, "Sampler1"),
    (110, "Sampler2"),
    (111, "Sampler3"),
    (112, "Sampler4"),
    (113, "Sampler5"),
    (114, "Sampler6"),
    (115, "Sampler7"),
    (116, "Sampler8"),
    (117, "Sampler9"),
    (118, "Sampler10"),
    (119, "Sampler11"),
    (120, "Sampler12"),
    (121, "Sampler13"),
    (122, "Sampler14"),
    (123, "Sampler15"),
    (124, "CustomBuffer0"),
    (125, "CustomBuffer1"),
    (126, "CustomBuffer2"),
    (127, "CustomBuffer3"),
    (128, "CustomBuffer4"),
    (129, "CustomBuffer5"),
    (130, "CustomBuffer6"),
    (131, "CustomBuffer7"),
    (132, "CustomMatrix0"),
    (133, "CustomMatrix1"),
    (134, "CustomMatrix2"),
    (135, "CustomMatrix3"),
    (136, "CustomMatrix4"),
    (137, "CustomMatrix5"),
    (138, "CustomMatrix6"),
    (139, "CustomMatrix7"),
    (140, "CustomMatrix8"),
    (141, "CustomMatrix9"),
    (142, "CustomMatrix10"),
    (143, "CustomMatrix11"),
    (144, "CustomMatrix12"),
    (145, "CustomMatrix13"),
    (146, "CustomMatrix14"),
    (147, "CustomMatrix15"),
    (148, "CustomMatrix16"),
    (149, "CustomMatrix17"),
    (150, "CustomMatrix18"),
    (151, "CustomMatrix19"),
    (152, "CustomVector0"),
    (153, "CustomVector1"),
    (154, "CustomVector2"),
    (155, "CustomVector3"),
    (156, "CustomVector4"),
    (157, "CustomVector5"),
    (158, "CustomVector6"),
    (159, "CustomVector7"),
    (160, "CustomVector8"),
    (161, "CustomVector9"),
    (162, "CustomVector10"),
    (163, "CustomVector11"),
    (164, "CustomVector12"),
    (165, "CustomVector13"),
    (166, "CustomVector14"),
    (167, "CustomVector15"),
    (168, "CustomVector16"),
    (169, "CustomVector17"),
    (170, "CustomVector18"),
    (171, "CustomVector19"),
    (172, "CustomColor0"),
    (173, "CustomColor1"),
    (174, "CustomColor2"),
    (175, "CustomColor3"),
    (176, "CustomColor4"),
    (177, "CustomColor5"),
    (178, "CustomColor6"),
    (179, "CustomColor7"),
    (180, "CustomColor8"),
    (181, "CustomColor9"),
    (182, "CustomColor10"),
    (183, "CustomColor11"),
    (184, "CustomColor12"),
    (185, "CustomColor13"),
    (186, "CustomColor14"),
    (187, "CustomColor15"),
    (188, "CustomColor16"),
    (189, "CustomColor17"),
    (190, "CustomColor18"),
    (191, "CustomColor19"),
    (192, "CustomFloat0"),
    (193, "CustomFloat1"),
    (194, "CustomFloat2"),
    (195, "CustomFloat3"),
    (196, "CustomFloat4"),
    (197, "CustomFloat5"),
    (198, "CustomFloat6"),
    (199, "CustomFloat7"),
    (200, "CustomFloat8"),
    (201, "CustomFloat9"),
    (202, "CustomFloat10"),
    (203, "CustomFloat11"),
    (204, "CustomFloat12"),
    (205, "CustomFloat13"),
    (206, "CustomFloat14"),
    (207, "CustomFloat15"),
    (208, "CustomFloat16"),
    (209, "CustomFloat17"),
    (210, "CustomFloat18"),
    (211, "CustomFloat19"),
    (212, "CustomInteger0"),
    (213, "CustomInteger1"),
    (214, "CustomInteger2"),
    (215, "CustomInteger3"),
    (216, "CustomInteger4"),
    (217, "CustomInteger5"),
    (218, "CustomInteger6"),
    (219, "CustomInteger7"),
    (220, "CustomInteger8"),
    (221, "CustomInteger9"),
    (222, "CustomInteger10"),
    (223, "CustomInteger11"),
    (224, "CustomInteger12"),
    (225, "CustomInteger13"),
    (226, "CustomInteger14"),
    (227, "CustomInteger15"),
    (228, "CustomInteger16"),
    (229, "CustomInteger17"),
    (230, "CustomInteger18"),
    (231, "CustomInteger19"),
    (232, "CustomBoolean0"),
    (233, "CustomBoolean1"),
    (234, "CustomBoolean2"),
    (235, "CustomBoolean3"),
    (236, "CustomBoolean4"),
    (237, "CustomBoolean5"),
    (238, "CustomBoolean6"),
    (239, "CustomBoolean7"),
    (240, "CustomBoolean8"),
    (241, "CustomBoolean9"),
    (242, "CustomBoolean10"),
    (243, "CustomBoolean11"),
    (244, "CustomBoolean12"),
    (245, "CustomBoolean13"),
    (246, "CustomBoolean14"),
    (247, "CustomBoolean15"),
    (248, "CustomBoolean16"),
    (249, "CustomBoolean17"),
    (250, "CustomBoolean18"),
    (251, "CustomBoolean19"),
    (252, "UvTransform0"),
    (253, "UvTransform1"),
    (254, "UvTransform2"),
    (255, "UvTransform3"),
    (256, "UvTransform4"),
    (257, "UvTransform5"),
    (258, "UvTransform6"),
    (259, "UvTransform7"),
    (260, "UvTransform8"),
    (261, "UvTransform9"),
    (262, "UvTransform10"),
    (263, "UvTransform11"),
    (264, "UvTransform12"),
    (265, "UvTransform13"),
    (266, "UvTransform14"),
    (267, "UvTransform15"),
    (268, "DiffuseUvTransform1"),
    (269, "DiffuseUvTransform2"),
    (270, "SpecularUvTransform1"),
    (271, "SpecularUvTransform2"),
    (272, "NormalUvTransform1"),
    (273, "NormalUvTransform2"),
    (274, "DiffuseUvTransform"),
    (275, "SpecularUvTransform"),
    (276, "NormalUvTransform"),
    (277, "UseDiffuseUvTransform"),
    (278, "UseSpecularUvTransform"),
    (279, "UseNormalUvTransform"),
    (280, "BlendState0"),
    (281, "BlendState1"),
    (282, "BlendState2"),
    (283, "BlendState3"),
    (284, "BlendState4"),
    (285, "BlendState5"),
    (286, "BlendState6"),
    (287, "BlendState7"),
    (288, "BlendState8"),
    (289, "BlendState9"),
    (290, "BlendState10"),
    (291, "RasterizerState0"),
    (292, "RasterizerState1"),
    (293, "RasterizerState2"),
    (294, "RasterizerState3"),
    (295, "RasterizerState4"),
    (296, "RasterizerState5"),
    (297, "RasterizerState6"),
    (298, "RasterizerState7"),
    (299, "RasterizerState8"),
    (300, "RasterizerState9"),
    (301, "RasterizerState10"),
    (302, "ShadowColor"),
    (303, "EmissiveMapLayer1"),
    (304, "EmissiveMapLayer2"),
    (305, "AlphaTestFunc"),
    (306, "AlphaTestRef"),
    (307, "Texture16"),
    (308, "Texture17"),
    (309, "Texture18"),
    (310, "Texture19"),
    (311, "Sampler16"),
    (312, "Sampler17"),
    (313, "Sampler18"),
    (314, "Sampler19"),
    (315, "CustomVector20"),
    (316, "CustomVector21"),
    (317, "CustomVector22"),
    (318, "CustomVector23"),
    (319, "CustomVector24"),
    (320, "CustomVector25"),
    (321, "CustomVector26"),
    (322, "CustomVector27"),
    (323, "CustomVector28"),
    (324, "CustomVector29"),
    (325, "CustomVector30"),
    (326, "CustomVector31"),
    (327, "CustomVector32"),
    (328, "CustomVector33"),
    (329, "CustomVector34"),
    (330, "CustomVector35"),
    (331, "CustomVector36"),
    (332, "CustomVector37"),
    (333, "CustomVector38"),
    (334, "CustomVector39"),
    (335, "CustomVector40"),
    (336, "CustomVector41"),
    (337, "CustomVector42"),
    (338, "CustomVector43"),
    (339, "CustomVector44"),
    (340, "CustomVector45"),
    (341, "CustomVector46"),
    (342, "CustomVector47"),
    (343, "CustomVector48"),
    (344, "CustomVector49"),
    (345, "CustomVector50"),
    (346, "CustomVector51"),
    (347, "CustomVector52"),
    (348, "CustomVector53"),
    (349, "CustomVector54"),
    (350, "CustomVector55"),
    (351, "CustomVector56"),
    (352, "CustomVector57"),
    (353, "CustomVector58"),
    (354, "CustomVector59"),
    (355, "CustomVector60"),
    (356, "CustomVector61"),
    (357, "CustomVector62"),
    (358, "CustomVector63"),
    (359, "UseBaseColorMap"),
    (360, "UseMetallicMap"),
    (361, "BaseColorMap"),
    (362, "BaseColorMapLayer1"),
    (363, "MetallicMap"),
    (364, "MetallicMapLayer1"),
    (365, "DiffuseLightingAoOffset"),
];
pub const FILL_MODE: &[(u64, &str)] = &[
    (0, "Line"),
    (1, "Solid"),
];
pub const CULL_MODE: &[(u64, &str)] = &[
    (0, "Back"),
    (1, "Front"),
    (2, "Disabled"),
];
pub const WRAP_MODE: &[(u64, &str)] = &[
    (0, "Repeat"),
    (1, "ClampToEdge"),
    (2, "MirroredRepeat"),
    (3, "ClampToBorder"),
];
pub const MIN_FILTER: &[(u64, &str)] = &[
    (0, "Nearest"),
    (1, "LinearMipmapLinear"),
    (2, "LinearMipmapLinear2"),
];
pub const MAG_FILTER: &[(u64, &str)] = &[
    (0, "Nearest"),
    (1, "Linear"),
    (2, "Linear2"),
];
pub const FILTERING_TYPE: &[(u64, &str)] = &[
    (0, "Default"),
    (1, "Default2"),
    (2, "AnisotropicFiltering"),
];
pub const MAX_ANISOTROPY: &[(u64, &str)] = &[
    (1, "One"),
    (2, "Two"),
    (4, "Four"),
    (8, "Eight"),
    (16, "Sixteen"),
];
pub const BLEND_FACTOR: &[(u64, &str)] = &[
    (0, "Zero"),
    (1, "One"),
    (2, "SourceAlpha"),
    (3, "DestinationAlpha"),
    (4, "SourceColor"),
    (5, "DestinationColor"),
    (6, "OneMinusSourceAlpha"),
    (7, "OneMinusDestinationAlpha"),
    (8, "OneMinusSourceColor"),
    (9, "OneMinusDestinationColor"),
    (10, "SourceAlphaSaturate"),
];
pub const BLEND_OPERATION: &[(u64, &str)] = &[
    (0, "Add"),
    (1, "Subtract"),
    (2, "ReverseSubtract"),
    (3, "Minimum"),
    (4, "Maximum"),
];
pub const DRAW_ELEMENT_TYPE: &[(u64, &str)] = &[
    (0, "UnsignedShort"),
    (1, "UnsignedInt"),
];
pub const ATTRIBUTE_DATA_TYPE_V10: &[(u64, &str)] = &[
    (0, "Float3"),
    (2, "Byte4"),
    (4, "Float4"),
    (5, "HalfFloat4"),
    (7, "Float2"),
    (8, "HalfFloat2"),
];
pub const ATTRIBUTE_DATA_TYPE_V8: &[(u64, &str)] = &[
    (820, "Float3"),
    (1024, "Byte4"),
    (1076, "Float4"),
    (1077, "HalfFloat4"),
    (1079, "Float2"),
];
pub const ATTRIBUTE_USAGE_V9: &[(u64, &str)] = &[
    (0, "Position"),
    (1, "Normal"),
    (2, "Binormal"),
    (3, "Tangent"),
    (4, "TextureCoordinate"),
    (5, "ColorSet"),
];
pub const ATTRIBUTE_USAGE_V8: &[(u64, &str)] = &[
    (0, "Position"),
    (1, "Normal"),
    (3, "Tangent"),
    (4, "TextureCoordinate"),
    (8, "ColorSet"),
];
pub const UNK_FORMAT: &[(u64, &str)] = &[
    (256, "UnkFormat0"),
    (308, "UnkFormat1"),
    (324, "UnkFormat2"),
    (528, "UnkFormat3"),
    (532, "UnkFormat4"),
    (582, "UnkFormat5"),
    (801, "UnkFormat6"),
    (836, "UnkFormat7"),
    (1024, "UnkFormat8"),
    (1025, "UnkFormat9"),
    (1029, "UnkFormat10"),
    (1088, "UnkFormat11"),
];
pub const SHADER_STAGE: &[(u64, &str)] = &[
    (0, "Vertex"),
    (3, "Geometry"),
    (4, "Fragment"),
    (5, "Compute"),
];
pub const BILLBOARD_TYPE: &[(u64, &str)] = &[
    (0, "Disabled"),
    (1, "XAxisViewPointAligned"),
    (2, "YAxisViewPointAligned"),
    (3, "Unk3"),
    (4, "XYAxisViewPointAligned"),
    (6, "YAxisViewPlaneAligned"),
    (8, "XYAxisViewPlaneAligned"),
];
pub const PARAM_V15: &[(u64, &str)] = &[
    (1, "Float"),
    (2, "Boolean"),
    (5, "Vector4"),
    (7, "Unk7"),
    (11, "String"),
    (14, "Sampler"),
    (16, "UvTransform"),
    (17, "BlendState"),
    (18, "RasterizerState"),
];
pub const PARAM_V16: &[(u64, &str)] = &[
    (1, "Float"),
    (2, "Boolean"),
    (5, "Vector4"),
    (7, "Unk7"),
    (11, "String"),
    (14, "Sampler"),
    (16, "UvTransform"),
    (17, "BlendState"),
    (18, "RasterizerState"),
];
pub const FRAME_BUFFER: &[(u64, &str)] = &[
    (0, "Framebuffer0"),
    (1, "Framebuffer1"),
    (2, "UniformBuffer"),
    (3, "Framebuffer3"),
    (4, "Framebuffer4"),
];
pub const STATE: &[(u64, &str)] = &[
    (0, "Sampler"),
    (1, "RasterizerState"),
    (2, "DepthState"),
    (3, "BlendState"),
];
pub const RENDER_PASS_DATA: &[(u64, &str)] = &[
    (0, "FramebufferRtp"),
    (1, "PassUnk1"),
    (2, "UnkTexture1"),
    (3, "UnkLight"),
    (8, "Unk8"),
    (9, "ColorClear"),
    (10, "DepthStencilClear"),
    (12, "Viewport"),
    (13, "Sampler"),
    (14, "BlendState"),
    (15, "RasterizerState"),
    (16, "DepthStencilState"),
    (17, "FramebufferRenderTarget"),
    (18, "FramebufferDepthStencil"),
    (19, "UnkTexture2"),
];
pub const RENDER_PASS_UNK_DATA: &[(u64, &str)] = &[
    (0, "UnkDataUnk0"),
    (3, "UnkDataUnk3"),
];
pub const UNK_ITEM2: &[(u64, &str)] = &[
    (0, "UnkItem20"),
    (1, "UnkItem21"),
    (2, "UnkItem22"),
    (4, "UnkItem24"),
];
