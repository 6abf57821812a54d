#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
L="ssbh_lib/src/"; D="ssbh_data/src/"
p("C01","Writing any file value and reading it back returns the same value",
  "For every supported format and version (Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr, MeshEx, Adj), writing any value the types can express and reading the bytes back gives an equal value: same variants, same counts, floats bit for bit, null pointers distinct from empty contents. Writing the value that was read gives the identical bytes again.",
  ["inputs"],"every value of every format/version type: any nesting, counts 0..n, null/empty/unaligned-length strings, all enum variants, any float bits",
  "The unit tests write and read a handful of hand-picked small values of the primitive types; no test round-trips a whole file of most formats, and the fuzz targets are not run by the suite.",
  [L+"lib.rs",L+"arrays.rs",L+"strings.rs",L+"enums.rs",L+"formats",  "ssbh_write/src/lib.rs","ssbh_write_derive/src/lib.rs"],
  [("SsbhWrite / BinRead derives on every format type","ssbh_write_derive/src/lib.rs, ssbh_lib/src/formats/*.rs"),("data pointer discipline",L+"lib.rs write_rel_ptr_aligned_specialized")],
  ["<Format>::write + <Format>::read","SsbhFile::write/read"])
p("C02","Files are written and read exactly as the format's binary layout prescribes",
  "For every format and version, the bytes written for a value are exactly the documented layout: the 16 byte HBSS header, the type magic, the major and minor version, then every field little endian in order with its documented width, enumeration code, padding and pointer target position. Conversely a file laid out that way is read as exactly the value it encodes.",
  ["inputs"],"every value of every format/version, against an independent description of each format's fields, enumeration codes and padding",
  "Read and write code are derived from the same definition, so a round-trip test passes with a swapped field or changed enum code; existing byte-level tests cover only primitive containers.",
  [L+"formats",L+"lib.rs",L+"vectors.rs",L+"enums.rs","ssbh_offsets.md"],
  [("field order, repr and pad attributes of each format",L+"formats/*.rs"),("header and magic writing",L+"lib.rs write_ssbh_header, write_ssbh_file")],
  ["bytes produced by <Format>::write","values returned by <Format>::read"])
p("C03","Offsets are forward, aligned, packed and non-overlapping for any type",
  "For any type composed from the provided pointer, array, string, byte buffer and enum types through the write derive (including user-defined types), every written offset is measured from its own position, points past its containing structure to the smallest correctly aligned free position, increases in field order and never overlaps other data. Null pointers are written as 0, empty arrays as offset 0 with count 0, empty strings as alignment-many zero bytes, and declared sizes, padding and alignment of a type are respected wherever it is nested.",
  ["programs","inputs"],"arbitrarily nested structures, tuple structs, enums, generics, pointers and arrays with every combination of padding and alignment attributes, and arbitrary contents",
  "Tests fix the expected bytes of a few compositions; offset errors only appear for particular nestings, lengths and alignments.",
  ["ssbh_write/src/lib.rs","ssbh_write_derive/src/lib.rs",L+"lib.rs",L+"arrays.rs",L+"strings.rs",L+"enums.rs","ssbh_offsets.md"],
  [("size_in_bytes / alignment_in_bytes / data_ptr","ssbh_write/src/lib.rs, ssbh_write_derive/src/lib.rs")],
  ["SsbhWrite::write output of harness-defined and format types","SsbhWrite::size_in_bytes"])
p("C04","Reading depends only on what offsets point at; rewriting is canonical",
  "A file that encodes a value with its pointed-to data placed anywhere in the file (reordered, with gaps, shared between several pointers, or with arbitrary bytes in the unused header and padding areas) is read as the same value as the canonical file. Writing the value read from any readable file gives the canonical bytes, which read back equal and rewrite identically.",
  ["inputs"],"all placements of pointed-to data, sharing, gaps and garbage in unused bytes, for every format and version; and all files that parse after arbitrary mutation",
  "Tests only parse canonical layouts; real files by other tools may order data differently.",
  [L+"lib.rs",L+"arrays.rs",L+"strings.rs",L+"enums.rs",L+"formats"],
  [("seek to the target, read, seek back",L+"lib.rs RelPtr64/Ptr BinRead, arrays.rs read_ssbh_array, enums.rs SsbhEnum64 BinRead")],
  ["<Format>::read on non-canonical layouts","<Format>::write of the result"])
p("C05","No input bytes can crash or exhaust memory when read",
  "Reading any byte sequence through any reading entry point of the file level or high level libraries (every format, either directly or converted to the editable form) returns either a value or an error. It never panics, aborts or overflows, and never requests memory out of proportion to the input beyond the documented 100 MB initial buffer limit.",
  ["inputs"],"all byte sequences, in particular valid files with corrupted offsets, counts, lengths, sizes, types and truncations",
  "Tests cover four hand-made corrupt arrays; crashes depend on specific combinations of corrupt fields in otherwise valid files.",
  [L+"arrays.rs",L+"lib.rs",L+"enums.rs",L+"strings.rs",D+"anim_data",D+"mesh_data.rs",D+"mesh_data",D+"shdr_data.rs",D+"adj_data.rs",D+"meshex_data.rs",D+"matl_data.rs",D+"skel_data.rs"],
  [("checked offset addition and capped initial capacity",L+"lib.rs absolute_offset_checked, arrays.rs"),("errors instead of unwraps when decoding buffers",D+"mesh_data.rs, anim_data/*.rs, shdr_data.rs")],
  ["<Format>::read, SsbhFile::read, <Format>Data::read"])
p("C06","Wrong type, version, code or a cut-off file is an error, never a value",
  "Each typed reader accepts only files of its own type and reports a mismatched type as such; the untyped reader yields the variant named by the file's magic. Unsupported version numbers, unknown magics, undefined enumeration or data type codes and files cut short of data they refer to are always reported as errors.",
  ["inputs"],"all pairs of reader and file type, all 16-bit version pairs, all undefined codes at every enumeration field, and truncation of any file at any byte that holds referenced data",
  "Two tests check one wrong-type and version case; codes and truncation points are unbounded.",
  [L+"lib.rs",L+"enums.rs",L+"formats"],
  [("magic/pre_assert/repr checks",L+"lib.rs Ssbh, Versioned; formats/*.rs"),("InvalidSsbhType",L+"lib.rs ssbh_read_write_impl")],
  ["<Format>::read / SsbhFile::read result","ReadSsbhError variant"])
p("C07","Reading and writing by path equals reading and writing in memory",
  "For every format and both libraries, saving to a path leaves a file with exactly the bytes an in-memory write produces (also when it replaces a longer file), loading from a path returns what reading those bytes returns, and missing or unwritable paths are reported as errors. Values read from a cursor over the file's bytes and from the path agree for valid and invalid files alike. Data that is refused before writing leaves an existing file at the path as it was.",
  ["inputs","histories"],"all values and all files, sequences of saves of different sizes to the same path",
  "No test writes a file to disk through these entry points for most formats.",
  [L+"lib.rs",D+"lib.rs"],
  [("write_buffered, from_file",L+"lib.rs"),("SsbhData impls",D+"lib.rs")],
  ["from_file / write_to_file against read / write"])
p("C08","I/O failures reach the caller; short transfers change nothing",
  "If the reader keeps failing while data still has to be read, reading returns an error; a single failed operation gives an error or the unaffected value, never another one. If the writer or its seeks fail at any operation, writing returns an error: a failed transfer is never reported as success and never panics. Readers that return fewer bytes per call or interrupt, and writers that accept fewer bytes per call, give exactly the same value or bytes as ordinary ones.",
  ["fault_sequences","inputs"],"a fault injected at every read, seek and write operation, and arbitrary short transfer sizes, for every format",
  "Tests use in-memory cursors that never fail.",
  [L+"lib.rs",L+"arrays.rs",L+"strings.rs","ssbh_write/src/lib.rs",D+"lib.rs"],
  [("? propagation and write_all/read_exact",L+"lib.rs, ssbh_write/src/lib.rs")],
  ["read/write over fault-injecting Read/Write/Seek"])
p("C09","File-level JSON converts back to the identical file",
  "Converting any file value with finite floats and UTF-8 text to JSON and back gives an equal value, so converting a binary file to JSON and the unedited JSON back to binary reproduces the file's canonical bytes, both through serde and through the ssbh_lib_json command line tool with its extension handling. Text edited to contain NUL characters still yields a file that reads back as written.",
  ["inputs"],"all finite-float, UTF-8 values of every format and version; with hex and plain byte encodings; all supported extensions and explicit or inferred output paths",
  "Tests serialize only isolated strings, arrays and pointers.",
  [L+"strings.rs",L+"arrays.rs",L+"lib.rs",L+"formats","ssbh_lib_json/src/main.rs"],
  [("serde derives and custom byte/string serializers",L+"arrays.rs, strings.rs"),("CLI extension dispatch","ssbh_lib_json/src/main.rs")],
  ["serde_json round trip","ssbh_lib_json process: binary->JSON->binary"])
p("C10","High-level JSON converts back to the identical data",
  "Converting any high-level value (mesh, skel, anim, modl, matl, hlpb, adj, meshex data) with finite floats to JSON and back gives an equal value. Through the ssbh_data_json tool, a binary file turned into JSON and back is the same file the library itself produces by loading and saving it, and a JSON document of each type is saved as that type's format. Material documents that lack the later fields (UV transforms, sampler and blend state settings, null anisotropy) are read with the documented defaults.",
  ["inputs"],"all finite-float values of every high-level type, through serde and through the command line tool",
  "No test serializes the high-level types or runs the tool.",
  [D+"mesh_data.rs",D+"anim_data.rs",D+"skel_data.rs",D+"modl_data.rs",D+"matl_data.rs",D+"hlpb_data.rs",D+"adj_data.rs",D+"meshex_data.rs","ssbh_data_json/src/main.rs"],
  [("serde derives, defaults for added fields",D+"*.rs"),("type detection by trial order","ssbh_data_json/src/main.rs")],
  ["serde_json round trip","ssbh_data_json process"])
p("C11","Mesh geometry survives saving within the version's precision",
  "For versions 1.8, 1.9 and 1.10, mesh data that is accepted for saving reads back with the same objects in the same order and per object the same name, subindex, parent bone, sort bias, depth and skinning settings, vertex indices and the same attributes in order with the same element counts and component values: positions, normals (and other float-stored vectors) exactly, half-precision vectors to half precision, 8-bit colors to 1/255. Attribute names are kept where the version stores names, and attribute kinds the version cannot store are the only omissions.",
  ["inputs"],"all valid mesh data: any objects, attribute sets, vector widths, vertex counts, index values up to 32 bit, and all three versions",
  "Unit tests convert single attributes or one small object per version; no test saves and reloads a whole multi-object mesh.",
  [D+"mesh_data.rs",D+"mesh_data/mesh_attributes.rs",D+"mesh_data/vector_data.rs"],
  [("attribute buffer layout and conversion",D+"mesh_data/mesh_attributes.rs, vector_data.rs"),("object reading",D+"mesh_data.rs")],
  ["MeshData -> Mesh -> bytes -> MeshData"])
p("C12","Saved meshes are self-consistent and decode by the stated layout",
  "In every saved mesh, each attribute of each object can be decoded independently from its recorded buffer index, buffer offset, stride and data type into the vertex data that was given, all attribute, vertex and index ranges lie inside the buffers and do not overlap another object's data, and recorded vertex counts, index counts, index width, polygon index size and buffer sizes equal the actual data. Index width is 16 bit exactly when every index fits, and the attributes of one usage are numbered in order. Conversely a mesh file with any other layout (shared buffers, gaps, other strides, orders and storable data types) loads as exactly the data its descriptors locate, and data that is missing is an error.",
  ["inputs"],"all valid mesh data of any number of objects and attributes for all versions",
  "Tests check strides and offsets of a few fixed attribute lists.",
  [D+"mesh_data.rs",D+"mesh_data/mesh_attributes.rs"],
  [("stride/offset bookkeeping",D+"mesh_data/mesh_attributes.rs, mesh_data.rs create_mesh_objects"),("index conversion",D+"mesh_data.rs convert_indices")],
  ["fields and buffers of the created Mesh, via an independent decoder"])
p("C13","Invalid mesh data is refused with the right error, valid data accepted",
  "Saving mesh data fails with the corresponding error exactly when an object's attribute lengths disagree, its index count is not a multiple of three, a vertex index refers past its vertices, two objects share name and subindex, an influence's vertex index exceeds the 16-bit limit of version 1.10, or the version is unsupported (data with several faults may be reported with any of their errors). All other mesh data is accepted, and no mesh data makes the conversion panic.",
  ["inputs"],"all mesh data, valid and invalid in each way, in every position of multi-object lists",
  "One or two examples per error kind are tested.",
  [D+"mesh_data.rs"],
  [("validation before buffer creation",D+"mesh_data.rs")],
  ["TryFrom<MeshData> for Mesh result and error variant"])
p("C14","Recalculated bounding volumes enclose all vertices",
  "The bounding sphere, axis-aligned volume and oriented box stored for each object and for the whole mesh after saving enclose every position (of the first position attribute) of that object or of all objects up to floating point rounding, with the axis-aligned bounds exactly the componentwise minimum and maximum and no sphere larger than its farthest point requires. Bounding data of mesh groups in MeshEx data encloses the group's positions and the overall sphere encloses all group spheres.",
  ["inputs"],"all finite position sets including empty, single, 2-, 3- and 4-component positions, for all objects and groups",
  "Tests check a few fixed point sets.",
  [D+"mesh_data.rs",D+"meshex_data.rs"],
  [("calculate_bounding_info",D+"mesh_data.rs"),("group and all-data spheres",D+"meshex_data.rs")],
  ["bounding_info of Mesh and its objects","MeshExData::from_mesh_objects, MeshEx::from"])
p("C15","Skinning weights are kept exactly and attached to the right object",
  "After saving and reloading a mesh, every object has exactly its own bone influences: the same bones in order with the same vertex indices and bit-identical weights, independent of the order of objects and also when several objects share a name. The stored rigging groups are sorted by name and subindex, one per object, and record each object's true maximum number of influences per vertex (255 where the 8-bit field can hold no more).",
  ["inputs"],"all influence lists over all objects, shared names with different subindices, versions storing weights as arrays or packed bytes",
  "Tests cover two-object examples.",
  [D+"mesh_data.rs"],
  [("rigging group creation and lookup",D+"mesh_data.rs create_rigging_groups, read_rigging_groups")],
  ["bone_influences after round trip","rigging_buffers of the created Mesh"])
p("C16","Vector transforms and normal/tangent calculation match their definition",
  "Transforming points or vectors applies the column-major matrix to each element with w = 1 or w = 0 respectively (a four component vector's own w is passed through unchanged) and keeps the component count. Calculated smooth normals and tangents give one value per vertex equal to the mathematical definition computed in higher precision within tolerance: a smooth normal is the normalised sum of the cross products of the faces using the vertex (zero if the sum is zero; no normals at all without faces or positions), a tangent is the normalised sum of the faces' texture-space directions, with w only ever +1 or -1 for their handedness and the X axis where there is no direction. Mismatched lengths and partial triangles are errors of the tangent calculation.",
  ["inputs"],"all vectors of every width, all (invertible, scaled, sheared) matrices, all triangle lists with valid indices",
  "A few fixed matrices and one triangle are tested.",
  [D+"mesh_data.rs",D+"mesh_data/vector_data.rs"],
  [("transform_points/transform_vectors/normals",D+"mesh_data.rs"),("calculate_smooth_normals / calculate_tangents",D+"mesh_data.rs")],
  ["public functions of ssbh_data::mesh_data"])
p("C17","Animation values survive saving, exactly or within the compression error",
  "For versions 2.0 and 2.1, saving and reloading animation data keeps every group, node and track and every value of every frame: tracks stored uncompressed (and booleans, and constant tracks) come back bit for bit, compressed tracks of finite values within the quantisation step of their own per-component value range (rotations up to the reconstructed fourth component). Every track keeps its frame count, except that a compressed track whose frames are all the same may come back as that one value.",
  ["inputs"],"all tracks of all value types, lengths 0..n, constant or varying per component, any finite values and ranges, any track/node/group structure",
  "Tests encode fixed short tracks per type.",
  [D+"anim_data.rs",D+"anim_data/buffers.rs",D+"anim_data/compression.rs",D+"anim_data/bitutils.rs"],
  [("compression choice and bit packing",D+"anim_data/buffers.rs, compression.rs")],
  ["AnimData -> Anim -> bytes -> AnimData"])
p("C18","Stored animation tracks decode by the format's bit-level definition",
  "Any well-formed track buffer (direct, constant, constant-transform or compressed with any per-component bit counts, ranges, defaults and flag combinations) decodes to exactly the values its definition gives: components with zero bits use the default, others interpolate between minimum and maximum, uniform or missing scale, rotation and translation follow the header flags, and the rotation's fourth component is the non-negative or sign-flagged root. Decoding a malformed buffer is an error.",
  ["inputs"],"all track headers, bit widths 0..32, flags, frame counts and payload bits for every value type",
  "About forty recorded buffers from game files are tested, covering the combinations those files use.",
  [D+"anim_data/buffers.rs",D+"anim_data/compression.rs",D+"anim_data/bitutils.rs"],
  [("BitReader and UncompressedData",D+"anim_data/bitutils.rs, compression.rs, buffers.rs")],
  ["AnimData::try_from(Anim) on independently encoded buffers"])
p("C19","Animation structure is kept and invalid animations are refused",
  "A saved animation's track descriptors index disjoint in-range slices of the data buffer in order, carry the actual frame count and value type, and its header keeps the final frame index; reading them returns groups, nodes, tracks, names, types and transform flags in the original order. Saving fails exactly when the final frame index is not a number, negative or smaller than the last frame of some track, or when the version cannot be stored, and reading fails when a descriptor refers outside the buffer.",
  ["inputs"],"all group/node/track trees, all final frame indices including non-finite, all buffer offsets and sizes",
  "Single-track examples are tested.",
  [D+"anim_data.rs"],
  [("create_anim_v20/v21, read_anim_groups",D+"anim_data.rs")],
  ["fields of created Anim; AnimData after reload; error variants"])
p("C20","Skeleton matrices follow the parent hierarchy",
  "In every saved skeleton each bone's world matrix is its parents' transforms multiplied down to its own, the inverse matrices invert the corresponding matrices, and reloading returns the same bones with names, parents, billboard types and bit-identical transforms; a relative transform composed with its parent transform restores the world transform. A version or a parent index that cannot be stored (above 32767) is refused. Cyclic hierarchies are reported as errors for every bone reaching the cycle and always terminate.",
  ["inputs"],"all forests of bones in any order, cyclic graphs, out-of-range parents, all invertible matrices",
  "A three bone chain and two cycles are tested.",
  [D+"skel_data.rs"],
  [("calculate_world_transform, inv_transform, calculate_relative_transform",D+"skel_data.rs")],
  ["Skel::try_from(SkelData), SkelData::from(Skel), calculate_world_transform, calculate_relative_transform"])
p("C21","Material parameters survive saving and loading in every type",
  "Saving material data and reloading it keeps every entry, label and every parameter of every kind with its identifier, order within its kind and exact value; loading a material file groups each stored parameter under its own kind and drops none of the supported kinds. Sampler filtering and anisotropy, blend, rasterizer, boolean and texture values are translated consistently in both directions, and unsupported versions are errors.",
  ["inputs"],"all parameter lists of all kinds, all enumeration values, all identifiers, versions 1.5 and 1.6",
  "Tests convert one value of each parameter kind.",
  [D+"matl_data.rs"],
  [("ToParam conversions and get_attributes",D+"matl_data.rs")],
  ["MatlData -> Matl -> bytes -> MatlData and Matl -> MatlData"])
p("C22","Model and helper-bone data convert without loss in both directions",
  "Model (Modl) and helper bone (Hlpb) data survive saving and reloading unchanged, and every file of these types converted to data and back keeps every name, optional file name, entry, constraint and value, with the helper-bone index and type lists enumerating all aim then all orient constraints. Missing and empty names stay distinguishable where the data type can express it.",
  ["inputs"],"all data values and all file values of both formats",
  "One fixed example per format is tested.",
  [D+"modl_data.rs",D+"hlpb_data.rs"],
  [("From conversions",D+"modl_data.rs, hlpb_data.rs")],
  ["ModlData/HlpbData <-> Modl/Hlpb"])
p("C23","MeshEx group data keeps groups, flags and names across saving",
  "Saving and reloading MeshEx data keeps every group with names, bounding sphere and the per-object flags in order, with one entry and flag per object pointing at its group and the file length and counts matching the file. Building it from mesh objects makes one group per run of equally named objects with one default flag per object and a short name that drops the Shape suffix or everything from the first visibility tag.",
  ["inputs"],"all group lists (empty groups, empty names), all flag combinations, all object name sequences",
  "Two fixed examples are tested.",
  [D+"meshex_data.rs",L+"formats/meshex.rs"],
  [("From<&MeshExData>, from_mesh_objects, strip_mesh_name_tags",D+"meshex_data.rs"),("count consistency check on write",L+"formats/meshex.rs")],
  ["MeshExData -> MeshEx -> bytes -> MeshExData; MeshExData::from_mesh_objects"])
p("C24","Adjacency data round-trips and lists exactly the adjacent vertices",
  "Adjacency data survives saving and reloading entry by entry, object indices that do not fit 32 bits are refused, and inconsistent offsets in a file are errors. Adjacency computed from triangles lists for every vertex the other two vertices, in winding order, of each face touching the vertex or any vertex at the same position (those vertices in index order, the faces of each in face order), padded with -1 or cut to exactly 18 values (vertex numbers are the format's signed 16-bit values).",
  ["inputs"],"all entry lists, all triangle lists and duplicate-position patterns",
  "Small fixed meshes are tested.",
  [D+"adj_data.rs",L+"formats/adj.rs"],
  [("offset bookkeeping, triangle_adjacency",D+"adj_data.rs")],
  ["AdjData <-> Adj; AdjEntryData::from_*"])
p("C25","Shader metadata is read from the binary exactly as stored",
  "For any shader binary laid out by the format, the reported buffers, uniforms, inputs and outputs are exactly those stored, in order, with their names, types, locations, offsets and sizes, for any counts and any placement of tables and strings. A binary whose tables, names or code lie outside of it, or whose type codes are undefined, is refused, whatever numbers it holds; any other is read as its numbers say. Every shader of a file is reported with its own name and stage.",
  ["inputs"],"all metadata tables, counts, string placements and shader lists",
  "There are no tests of this module.",
  [D+"shdr_data.rs",L+"formats/shdr.rs"],
  [("UnkPtr, read_string, MetaData::new",D+"shdr_data.rs")],
  ["ShdrData::read/try_from, MetaData::read"])
p("C26","Conversions between file and editable forms never crash on any value",
  "Converting any file-level value to its editable form, and any editable value to its file-level form, for mesh, skel, anim, matl, modl, hlpb, adj and meshex, returns a value or an error and never panics, whatever buffers, offsets, counts, indices, flags, floats (NaN and infinities included) or versions the value holds. Whatever editable data is accepted for conversion can be written and read again.",
  ["inputs"],"all values of the file-level and editable types, consistent or not",
  "The repository has fuzz targets for these conversions but does not run them; unit tests use consistent values.",
  [D+"mesh_data.rs",D+"anim_data.rs",D+"anim_data",D+"skel_data.rs",D+"matl_data.rs",D+"modl_data.rs",D+"adj_data.rs",D+"meshex_data.rs",D+"hlpb_data.rs","ssbh_data/fuzz"],
  [("error returns in conversions",D+"*.rs")],
  ["TryFrom/From in both directions for every type"])
p("C27","Loading and saving a second time changes nothing",
  "Once a file of any supported high-level type has been saved from editable data, loading and saving it again reproduces it byte for byte, and the loaded data is equal to what was loaded before, for every version that can be saved (version 1.8 mesh objects with no attribute but binormals, which it cannot store, excepted). (Compressed animation tracks are compressed anew: their values stay within the compression error and everything else about the animation stays the same.) Saving the same data twice always gives the same bytes.",
  ["inputs","histories"],"all editable values and all repeated load/save histories",
  "No test performs load/save histories; instability appears only for particular values (compression, half floats, recalculated data).",
  [D+"lib.rs",D+"mesh_data.rs",D+"anim_data.rs",D+"anim_data",D+"skel_data.rs",D+"matl_data.rs",D+"modl_data.rs",D+"hlpb_data.rs",D+"adj_data.rs",D+"meshex_data.rs"],
  [("SsbhData read/write",D+"lib.rs")],
  ["bytes of repeated read/write cycles"])
p("C28","The building blocks hold and convert exactly the value they are given",
  "The types every file is made of keep what they are given. A string made in any way (bytes, text, parse, From) holds the bytes before the first NUL, is written as those bytes with the documented termination, reads back equal, and is distinct from a missing string. Vectors, colours and matrices convert to and from arrays and tuples component by component; min and max work per component; identity values are the identity. Arrays, byte buffers and pointers behave as the list, bytes or optional value they hold under any sequence of edits. By-value conversions of single parts (constraints, model entries, samplers, blend and rasterizer states) keep every documented field. Track and vector data report the length of the list they hold and widen to four components without changing the given ones.",
  ["inputs","histories"],"all strings (NUL, non-UTF-8), all component values (NaN, signed zero, infinities), all edit sequences of the containers, all values of the convertible parts",
  "The unit tests check a few literal strings and vectors; most conversions and container operations have no test.",
  [L+"strings.rs",L+"vectors.rs",L+"arrays.rs",L+"lib.rs",D+"anim_data.rs",D+"mesh_data/vector_data.rs",D+"matl_data.rs",D+"hlpb_data.rs",D+"modl_data.rs"],
  [("CString, SsbhString, SsbhString8",L+"strings.rs"),("Vector3/Vector4/Color4f/Matrix3x3/Matrix4x4",L+"vectors.rs"),("SsbhArray, SsbhByteBuffer",L+"arrays.rs"),("RelPtr64, Ptr16/32/64",L+"lib.rs")],
  ["public constructors, conversions, iterators and Deref of the primitive types"])
p("C29","The optional features make valid values and list the right names",
  "With the arbitrary feature, every value the library generates of a file or editable type is a real value: a file value is written, read back equal and stored as the format prescribes; an editable value is refused or saved and loaded again, and never crashes. With the strum feature, every enumeration lists exactly its values once, and names and numbers convert to each other exactly as the stored codes do, anything else being refused.",
  ["inputs"],"all byte inputs to the generators, all names and numbers",
  "The suite builds the features but has no test of them.",
  [L+"formats",L+"arrays.rs",L+"strings.rs",L+"lib.rs",D+"lib.rs"],
  [("Arbitrary impls and derives",L+"arrays.rs, strings.rs, lib.rs"),("strum derives",L+"formats")],
  ["Arbitrary::arbitrary, FromStr/Display/FromRepr/EnumIter of the enumerations"])
p("C30","The batch tester names exactly the files that are not reproduced",
  "Run on a folder, ssbh_test checks every file below it, at any depth, whose extension is numatb, numdlb, numshb, nusktb, nurpdb, nufxlb, nuanmb, nuhlpb or nushdb (as SSBH file of any type), numshexb or adjb. It prints one 'Error reading' line for each of them that cannot be read and one 'Read/write not 1:1' line for each that is read but written back with other bytes, each naming the file, says nothing about the others or about files with other extensions, changes no file and ends normally; how the folder is spelled (absolute, nested, with dots or slashes at its end) makes no difference.",
  ["inputs"],"all folder trees of readable regular files with any contents",
  "The tool has no tests.",
  ["ssbh_test/src/main.rs",L+"lib.rs"],
  [("finding the files by extension","ssbh_test/src/main.rs main"),("comparing what is read and written","ssbh_test/src/main.rs check_read_write_ssbh, check_read_write_meshex, check_read_write_adj")],
  ["running ssbh_test on a folder"])
p("C31","What an operation gives depends on nothing but its arguments",
  "Reading, writing, loading, saving and converting (files, editable data, JSON, bounds, adjacency, world transforms) have no memory: whatever other operations ran before, succeeded or failed half way (malformed input, refused data, failing writers), and whatever other threads do at the same time, the same arguments give the same bytes, the same value or the same error.",
  ["inputs","histories","schedules"],"all sequences and concurrent schedules of operations on any inputs, with failures at any point",
  "Each test runs single operations; none repeats one after others or in parallel.",
  [L+"lib.rs",L+"formats",L+"arrays.rs",D+"lib.rs",D+"anim_data.rs",D+"mesh_data.rs",D+"adj_data.rs",D+"meshex_data.rs",D+"skel_data.rs"],
  [("every public entry point",L+"lib.rs, "+D+"lib.rs")],
  ["results of repeated operations"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
