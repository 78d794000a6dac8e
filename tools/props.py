#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a table here so that it stays reviewable)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, hook=None, over=("inputs",), state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Written offsets lead to their data and written regions never overlap",
  "Whenever a value containing pointers, arrays, strings or byte buffers is written, every stored offset is the exact distance (or absolute address) to where its data was written, that data starts at the alignment its type requires, and null or empty values store a zero offset. No byte of the output is ever written for two different fields, and after the write the next free position lies beyond everything written.",
  "every start position, every current end-of-data position, every element size, growth and alignment, null and non-null, every array length",
  "Tests write a handful of fixed values at position 0 and compare hex; they cannot range over all start positions, free-space positions, element sizes and nestings, where a wrong reservation silently overlaps data.",
  ["ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs", "ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/enums.rs", "ssbh_lib/src/strings.rs"],
  [("write_rel_ptr_aligned_specify_alignment / round_up", "ssbh_lib/src/lib.rs"), ("SsbhArray, SsbhByteBuffer writer", "ssbh_lib/src/arrays.rs"), ("SsbhEnum64 writer", "ssbh_lib/src/enums.rs"), ("slice/tuple/primitive writers", "ssbh_write/src/lib.rs"), ("derived writer", "ssbh_write_derive/src/lib.rs")],
  state=[("data_ptr", "next free position of the output; everything below it is reserved", "ssbh_write/src/lib.rs")])
p("C02", "Reading follows each offset and resumes right after the field",
  "Reading a pointer, array, byte buffer or tagged pointer takes its content from exactly the address its stored offset denotes, treats a zero offset as null (or empty), and yields as many elements as the stored count. Afterwards reading resumes directly behind the field itself, so the fields that follow are never affected by where the data lies.",
  "every field position, every stored offset and count, every file content and length",
  "Tests read a few fixed byte strings; they cannot range over all positions, offsets and contents or over all combinations of following fields.",
  ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/enums.rs"],
  [("RelPtr64 / Ptr / Offset readers, absolute_offset_checked", "ssbh_lib/src/lib.rs"), ("read_ssbh_array, read_elements, read_buffer", "ssbh_lib/src/arrays.rs"), ("SsbhEnum64 reader", "ssbh_lib/src/enums.rs")])
p("C03", "Malformed files produce errors, never panics or runaway memory use",
  "Reading any byte sequence as any supported file type returns a value or an error: it never panics and never overflows arithmetic, and a declared length never causes an allocation beyond a fixed limit plus the data really present. In particular offsets past the end of the file or wrapping the address space, counts larger than the file, unknown tags, invalid enumeration values and truncated data are all reported as errors.",
  "every byte sequence given to every reader; every stored offset, count, tag and length",
  "The malformed inputs in the tests are single examples per type; the guarantee is about all byte sequences.",
  ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/enums.rs", "ssbh_lib/src/strings.rs", "ssbh_lib/src/formats"],
  [("absolute_offset_checked", "ssbh_lib/src/lib.rs"), ("capacity limits in read_elements / read_buffer", "ssbh_lib/src/arrays.rs"), ("Ssbh magic and Versioned dispatch", "ssbh_lib/src/lib.rs")])
p("C04", "Every file record survives being written and read back unchanged",
  "For every supported file type, every record the writer emits is read back as an equal value, and re-writing what was read gives identical bytes. Each record occupies exactly the number of bytes it declares, so adjacent records in an array never shift or clobber each other.",
  "every file type and version, every field value, null and non-null pointers, arrays of any length",
  "Tests round-trip a few values per primitive; most records of the formats (and every combination of optional and version-dependent fields) are never round-tripped.",
  ["ssbh_lib/src/formats", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs", "ssbh_lib/src/vectors.rs"],
  [("derived size_in_bytes / ssbh_write, pad_after, align_after, alignment attributes", "ssbh_write_derive/src/lib.rs"), ("record definitions", "ssbh_lib/src/formats")])
p("C05", "File type and version are recorded on write and decide the read",
  "A written file starts with the container signature, the four-character type code and the major and minor version of the value, and is read back as that same type and version. Reading a file as a different type, with an unknown signature, type code or version is an error, never a misinterpretation.",
  "every file type, every version pair, every signature and type code",
  "Tests read one or two headers; the guarantee ranges over all 2^32 type codes and version pairs for every type.",
  ["ssbh_lib/src/lib.rs"],
  [("Ssbh magic dispatch, write_ssbh_file, write_ssbh_header_and_data, Versioned", "ssbh_lib/src/lib.rs"), ("ssbh_read_write_impl", "ssbh_lib/src/lib.rs")])
p("C06", "Strings are null terminated and text survives unchanged",
  "Every string without an embedded null character is written as its exact bytes followed by a terminator, occupies at least its type's minimum size, starts at its type's alignment, and is read back as the same text. Reading stops at the first null byte and never includes bytes behind it.",
  "every string content and length (including empty), every start position",
  "Tests use two or three ASCII strings; emptiness, alignment, length and content are universally quantified.",
  ["ssbh_lib/src/strings.rs"],
  [("CString reader and writer, SsbhString, SsbhString8", "ssbh_lib/src/strings.rs")])
p("C07", "Enumeration codes and flag words convert to their meaning and back",
  "Every enumerated field accepts exactly its documented numeric codes, maps different meanings to different codes, and writes the code it was read from; any other number is rejected as an error. Packed flag words keep every bit through reading and writing, and a tagged value is always written with the tag its payload is read back with.",
  "every integer of the field's width, every variant, every flag combination",
  "Tests cover a few variants; the guarantee ranges over all numeric codes and all flag words.",
  ["ssbh_lib/src/formats/matl.rs", "ssbh_lib/src/formats/anim.rs", "ssbh_lib/src/formats/mesh.rs", "ssbh_lib/src/formats/skel.rs", "ssbh_lib/src/formats/meshex.rs", "ssbh_lib/src/formats/hlpb.rs", "ssbh_lib/src/formats/nrpd.rs", "ssbh_lib/src/formats/shdr.rs", "ssbh_lib/src/enums.rs"],
  [("ssbh_enum tags, repr enums, bitfields", "ssbh_lib/src/formats")])

p("F01", "Success means everything was transferred",
  "Whatever a value is written to or read from: if any operation on the destination or the source fails, writing or reading reports an error (or, for reading, still gives the value stored); success means everything was transferred. A destination that takes its bytes, or a source that delivers them, in pieces of any size gives the same file and the same value as one that takes or delivers them at once. Writing to a path gives the bytes written to memory, whatever the path held before, reading from a path gives what it holds, and a full disk or a missing folder is an error.",
  "every value, every operation that fails, every division into pieces, every earlier content of the path",
  "Tests use memory buffers that never fail and take everything at once; faults and short transfers happen at every operation.",
  ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/strings.rs", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs", "ssbh_data/src/lib.rs"],
  [("container readers and writers, from_file, write_to_file", "ssbh_lib/src/lib.rs"), ("arrays and byte buffers", "ssbh_lib/src/arrays.rs"), ("strings", "ssbh_lib/src/strings.rs"), ("primitive writers", "ssbh_write/src/lib.rs"), ("from_file, write_to_file", "ssbh_data/src/lib.rs")])

p("A01", "Bit-packed animation values are read back exactly as written",
  "Any sequence of values written to a packed bit stream with given bit widths is read back as the same values with the same widths, in order, and a stream of n bits takes exactly the smallest number of whole bytes. Reading past the end of the stream is an error, never a made-up value.",
  "every sequence of values, widths 1 to 32, every bit offset",
  "Tests use three hand-picked streams; the guarantee ranges over all widths, offsets and values.",
  ["ssbh_data/src/anim_data/bitutils.rs"],
  [("BitReader, BitWriter", "ssbh_data/src/anim_data/bitutils.rs")], hook="ssbh_data::anim_data::verif_hooks (cfg ssbh_verif)")
p("A02", "Quantized animation values stay in range and keep their end points",
  "Compressing a number in a range of finite width and decompressing it gives a value that never leaves the range, differs from the original by no more than one quantization step plus the rounding of 32-bit float arithmetic, maps the smallest and largest value to themselves and keeps the order of values. A component whose width is zero or whose range is empty decompresses to its default or constant value.",
  "every value, range and bit width that the writer emits or a file declares",
  "Tests check a few ranges and values; rounding at the edges of the range depends on every bit of the inputs.",
  ["ssbh_data/src/anim_data/compression.rs"],
  [("compress_f32, decompress_f32, bit_mask, F32Compression", "ssbh_data/src/anim_data/compression.rs")], hook="ssbh_data::anim_data::verif_hooks (cfg ssbh_verif)")
p("A03", "Compressed animation tracks decode every component of every frame",
  "For every track type, writing frames with compression and reading them gives the same number of frames in the same order (a track whose frames are all equal may come back as one frame), each component within its quantization step of the original, booleans exact, and the sign of each rotation's last component preserved with the rotation normalized. Each frame occupies exactly the number of bits its header declares, so no frame is read at another frame's position.",
  "every track type, frame count, component value, constant/varying component combination, scale option",
  "Tests cover one or two frames per type with fixed ranges; a bit-accounting slip shows only in particular combinations of constant and varying components.",
  ["ssbh_data/src/anim_data/compression.rs", "ssbh_data/src/anim_data/buffers.rs"],
  [("CompressedData impls, calculate_rotation_w", "ssbh_data/src/anim_data/compression.rs"), ("write_compressed, read_compressed_inner", "ssbh_data/src/anim_data/buffers.rs")], hook="ssbh_data::anim_data::verif_hooks (cfg ssbh_verif)")
p("A04", "Malformed animation data is reported as an error",
  "Reading a track whose flags, frame count, header or buffer are inconsistent with each other, or whose offset and size do not lie inside the animation buffer, returns an error. It never panics, never overflows and never reads other tracks' data.",
  "every flag word, frame count, buffer content, offset and size, in every animation version",
  "Tests contain a few hand-made malformed buffers; the guarantee is about all of them.",
  ["ssbh_data/src/anim_data.rs", "ssbh_data/src/anim_data/buffers.rs", "ssbh_data/src/anim_data/compression.rs", "ssbh_data/src/anim_data/bitutils.rs"],
  [("read_track_values, read_compressed_inner", "ssbh_data/src/anim_data/buffers.rs"), ("create_track_data_v12, create_track_data_v20", "ssbh_data/src/anim_data.rs")], hook="ssbh_data::anim_data::verif_hooks (cfg ssbh_verif)")
p("A05", "Uncompressed and constant animation tracks are lossless",
  "Writing a track without compression, or a track with a single frame, and reading it back returns exactly the original frames for every value type. The scale flag that applies to a whole transform track is kept.",
  "every track type, every frame value, frame counts from 1",
  "Tests use one or two fixed frames per type.",
  ["ssbh_data/src/anim_data/buffers.rs", "ssbh_data/src/anim_data.rs"],
  [("TrackValues::write, read_uncompressed", "ssbh_data/src/anim_data/buffers.rs")], hook="ssbh_data::anim_data::verif_hooks (cfg ssbh_verif)")
p("A06", "Animation files keep every group, node and track in place",
  "Converting animation data to a file and back keeps the version, the final frame index and every group type, node name and track name in order, and gives every track back its own values, type and flags. Each track's offset and size delimit exactly its own bytes in the shared buffer, the declared frame count is the number of frames of the track, and a negative final frame index, one before the last frame of the longest track, and unsupported versions are rejected.",
  "every list of groups, nodes and tracks of any type and length, every supported version",
  "Tests build single-node animations; cross-talk between tracks in the shared buffer needs several tracks of different sizes.",
  ["ssbh_data/src/anim_data.rs", "ssbh_data/src/anim_data/buffers.rs"],
  [("create_anim, create_anim_track_v20, read_anim_groups", "ssbh_data/src/anim_data.rs")])

p("M01", "Vertex components decode to what was encoded, within the format's precision",
  "Every vector written in a vertex format is read back unchanged in a 32-bit float format, as the nearest representable value in a 16-bit float format, and as the nearest of 256 steps of the clamped value in a byte format. Every stored vertex element is read from its declared offset and stride, with missing components never invented from neighbouring data.",
  "every component value, every vertex format, every stride and offset",
  "Tests use a few values per format; rounding and clamping are properties of all values.",
  ["ssbh_data/src/mesh_data/vector_data.rs"],
  [("VectorDataV8/V9/V10 write, VectorData::read, get_u8_clamped, get_f16", "ssbh_data/src/mesh_data/vector_data.rs")], hook="ssbh_data::mesh_data::verif_hooks (cfg ssbh_verif)")
p("M02", "Mesh vertex attributes keep their values, order and place in every version",
  "Converting mesh data to a file and back keeps each object's names, depth flags and, for every attribute kind, the number, order, name and values of the attributes to within the precision of the stored format (version 1.8 stores neither attribute names nor binormals). Attributes of one object never overlap another's in the shared vertex buffers: every stride and offset delimits exactly one object's data.",
  "every set of objects, every combination of attributes and vertex counts, versions 1.8, 1.9 and 1.10",
  "Tests convert single objects with a fixed attribute list; overlap and mix-ups need several attributes and objects of different sizes.",
  ["ssbh_data/src/mesh_data.rs", "ssbh_data/src/mesh_data/mesh_attributes.rs"],
  [("create_mesh, create_vertex_buffers, calculate_offset_stride", "ssbh_data/src/mesh_data.rs"), ("create_attributes_v8/v9/v10", "ssbh_data/src/mesh_data/mesh_attributes.rs")])
p("M03", "Vertex indices are kept exactly and inconsistent meshes are rejected",
  "Every accepted object gets back exactly its vertex indices, in order, whatever width they are stored with, and each object's index data lies in its own part of the index buffer. Meshes whose index count is not a multiple of three, whose attributes have different lengths, whose indices refer to missing vertices, or whose version is unsupported are rejected with an error instead of being written.",
  "every index list, every vertex count, every attribute length combination",
  "Tests check one example per error and small index values; the 16/32-bit boundary and multi-object offsets are universally quantified.",
  ["ssbh_data/src/mesh_data.rs"],
  [("convert_indices, read_vertex_indices, validation in create_mesh_objects", "ssbh_data/src/mesh_data.rs")])
p("M04", "Skin weights stay with their vertex and bone",
  "Converting a mesh to a file and back keeps, for every object, each bone's list of vertex indices and weights exactly and in order, attached to the same object name and sub-index, and stores these groups in ascending order of name and sub-index. The stored maximum influence count is the largest number of bones influencing any vertex, and weights or counts that the version cannot represent are rejected.",
  "every list of influences and weights, every version, several objects",
  "Tests use at most two influences on one object.",
  ["ssbh_data/src/mesh_data.rs"],
  [("create_rigging_buffers, read_rigging_data, VertexWeights", "ssbh_data/src/mesh_data.rs")])
p("M05", "Bounding volumes enclose every vertex they are computed from",
  "The bounding sphere and bounding box computed for a mesh object contain every vertex position, an axis aligned box is the tightest one, and the oriented box equals the axis aligned one in centre and extents. Transforming points or vectors by a matrix gives the matrix product, with the translation applied to points only.",
  "every list of positions with finite coordinates, every matrix",
  "Tests use four or five points with small coordinates.",
  ["ssbh_data/src/mesh_data.rs", "ssbh_data/src/meshex_data.rs"],
  [("calculate_bounding_sphere, calculate_aabb, transform_inner", "ssbh_data/src/mesh_data.rs")])
p("T01", "Materials keep every parameter, texture, sampler and state",
  "Converting material data to a file and back keeps every entry with its labels and, for each parameter, its identifier and exact value, in the order of its own kind. Parameters of one kind are never turned into another kind, and each writable version (1.6) keeps its number while other versions are rejected with an error when writing; version 1.5 can be read.",
  "every list of materials and parameters of every kind, every parameter value",
  "Tests convert one entry per direction; loss or cross-talk between parameter kinds needs mixtures of them.",
  ["ssbh_data/src/matl_data.rs", "ssbh_lib/src/formats/matl.rs"],
  [("MatlEntryData conversions, ParamData conversions", "ssbh_data/src/matl_data.rs")])
p("K01", "Skeletons keep their hierarchy and their world transforms",
  "Converting a skeleton to a file and back keeps every bone's name, transform, parent and billboard type in order. The world transform of a bone is the product of all transforms from the root down to it, the stored world, inverse and inverse world matrices agree with it, a parent index outside the list ends the chain like a root, and a hierarchy with a cycle, or one the file cannot hold (another version, a parent index above 32767), gives an error instead of hanging or writing something else. The transform relative to a parent is the one that multiplied onto the parent's world transform gives the bone's world transform.",
  "every list of bones, every parent assignment including cyclic and out of range ones, every transform",
  "Tests use chains of two or three bones; cycles, shared parents and depth are universally quantified.",
  ["ssbh_data/src/skel_data.rs"],
  [("calculate_world_transform, calculate_single_bind, TryFrom<&SkelData> for Skel", "ssbh_data/src/skel_data.rs")])
p("G01", "Model, helper bone, extended mesh and adjacency data convert without loss",
  "Converting model, helper-bone, extended-mesh or adjacency data of the supported version, with indices that fit the file's fields, to its file form and back keeps every entry, name, index and flag in order. Extended-mesh groups and entries keep their grouping by object name and their counts, and adjacency entries keep their own slice of the shared index buffer.",
  "every list of entries and every field value",
  "Tests convert one or two entries; mix-ups between entries need several with different sizes.",
  ["ssbh_data/src/modl_data.rs", "ssbh_data/src/hlpb_data.rs", "ssbh_data/src/meshex_data.rs", "ssbh_data/src/adj_data.rs"],
  [("From<&Modl>/From<&Hlpb>/From<&MeshEx>/TryFrom<&Adj> and their inverses", "ssbh_data/src")])
p("G02", "Triangle adjacency lists exactly the triangles that share the vertex",
  "For every triangle list over at most 32768 vertices the adjacency computed for a vertex consists of the other two vertices of each triangle using it, in triangle order and winding, cut to the fixed limit and padded with -1. Vertices at equal positions on seams are treated the same way, and nothing outside the vertex range is referenced.",
  "every triangle list and vertex count",
  "Tests use at most a few triangles.",
  ["ssbh_data/src/adj_data.rs"],
  [("triangle_adjacency", "ssbh_data/src/adj_data.rs")])
p("S01", "Shader metadata keeps every declared entry and malformed shaders are errors",
  "Decoding a shader binary yields every buffer, uniform, input and output its tables declare, in order, with the names, types, locations and sizes stored there. Tables, names or code that do not lie inside the binary, and counts or lengths larger than it, are reported as errors without panicking or allocating the declared size.",
  "every table size, offset, name length and byte of a shader binary",
  "There are no tests of shader decoding at all.",
  ["ssbh_data/src/shdr_data.rs"],
  [("MetaData::new, read_string, ShaderBinary", "ssbh_data/src/shdr_data.rs")])
p("J01", "Exported JSON recreates the same file or data",
  "Exporting a file or decoded data to the JSON text format and importing the text recreates it: the library types give a file with identical bytes, the data types equal data, and the command line tools the same file. This holds for every type whose numbers are finite and whose text is UTF-8. Null pointers are null, byte buffers of the library types are two lower-case hexadecimal digits per byte, and text is exported as it is.",
  "every file and data value of every type with finite numbers and UTF-8 text",
  "Tests have no JSON round trip.",
  ["ssbh_lib/src", "ssbh_lib_json/src", "ssbh_data_json/src"],
  [("serde derives, serialize_hex, serialize_str_bytes", "ssbh_lib/src"), ("main", "ssbh_lib_json/src/main.rs"), ("main", "ssbh_data_json/src/main.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
