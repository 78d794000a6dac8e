# executed by manifest.py: C[property] = (level, technique, note); NOT[property] = reason
NOT = {}
B = " Contracts labelled [bounded ...] hold for the stated shape only; contracts executed on generated inputs are bounded stand-ins and never counted as proved."
C["C01"] = ("proof", KANI, "Every container writer and the derived writer are proved against the writer contract for every position, free position, element size and growth; whole files of every type are executed within bounds." + B)
C["C02"] = ("proof", KANI, "Every generic reader is proved for every offset, count within the stated array shapes, file length and element behaviour." + B)
C["C03"] = ("proof", KANI, "The generic readers are proved free of panics and overflow for every offset, count and end of file; complete file types are executed on altered, cut and generated files with a memory meter." + B)
C["C04"] = ("proof", KANI, "All inline bytes of every record type are proved to survive a read/write round trip with null pointers (pointed-to data is covered by C01 and C02); whole files are executed within bounds. Records whose proof is too slow are proved in the thorough tier only." + B)
C["C05"] = ("proof", KANI, "Acceptance of exactly the documented versions is proved per type for all version words; headers, type codes and path functions are executed within bounds." + B)
C["C06"] = ("proof", KANI, "Writing is proved for text of every length and content; reading is proved for short text and executed for longer text." + B)
C["C07"] = ("proof", KANI, "Every enumeration, tag and flag word is proved for all codes against the documented table." + B)
C["F01"] = ("proof", KANI, "Every container writer and every pointer reader is proved to report a failure of the file at whichever operation it happens; whole files and data of every type are executed within bounds on failing files, on files that transfer in pieces and on paths." + B)
C["A01"] = ("proof", KANI, "Reading and writing a value of any width is proved for streams of every length and every bit position (the stream of bits is the object state); sequences and whole tracks are executed within bounds." + B)
C["A02"] = ("other", KANI, "Widths, integer codes, booleans and empty ranges are proved for all inputs; the floating-point bounds for general ranges are executed within bounds because the solver does not finish on symbolic float division (the thorough tier proves the unit range)." + B)
C["A03"] = ("proof", KANI, "Component order, widths and bit accounting of one frame of every track type are proved for all widths, ranges and values over the contracts of A01 and A02; whole tracks are executed within bounds." + B)
C["A04"] = ("other", KANI, "Decoding one component from a stream of any length is proved; buffers of bounded size are proved for any frame count; headers and whole files are executed on altered data." + B)
C["A05"] = ("proof", KANI, "Every frame layout is proved to survive writing and reading for all values; tracks of a few frames are proved for the stated lengths and longer ones executed." + B)
C["A06"] = ("other", KANI, "Version and flag decisions are proved for all inputs; files of several groups, nodes and tracks are executed within bounds." + B)
C["M01"] = ("proof", KANI, "Every vertex format's encoding, decoding, offset and stride is proved for all component values over the reader and writer contracts (half precision conversion is assumed as specified by the half crate and executed)." + B)
C["M02"] = ("other", KANI, "Where an attribute of an object lies is proved for all objects, buffers and offsets; the attribute lists of whole meshes are executed within bounds." + B)
C["M03"] = ("other", KANI, "Writing and reading index lists is proved for any values and offsets of short lists, counting vertices and placing an object in the buffers for attributes of every length and any positions and strides; whole meshes, including the 65536 vertex boundary and rejected ones, are executed within bounds." + B)
C["M04"] = ("other", KANI, "Writing and reading the weights of version 1.10 is proved for any values of short lists, and that every object gets its own group and influence count for any two subindices and counts; whole meshes of several objects and bones are executed within bounds." + B)
C["M05"] = ("other", KANI, "Transforming is proved to be exactly one matrix product per vector with the right fourth component, and the stored bounds to be those of all points, over trusted contracts of glam and geometry_tools; that these enclose the points is executed within bounds." + B)
C["T01"] = ("proof", KANI, "The parameter structures (sampler, blend state, rasterizer) are proved to survive both ways for all values and codes; whole materials are executed within bounds." + B)
C["K01"] = ("other", KANI, "World transforms are proved to be the ordered product along the chain for every parent assignment of 4 bones, over an abstract matrix product; stored matrices, parents and versions are proved per bone; larger skeletons are executed within bounds." + B)
C["G01"] = ("other", KANI, "The entry flags are proved for all words, splitting the adjacency buffer for any offsets; lists of entries are executed within bounds." + B)
C["G02"] = ("other", KANI, "No contract within reach of the verifier decides this function (vectors of growing vectors at symbolic indices): it is enumerated completely for up to 3 triangles over 3 vertices and executed on larger generated lists. Nothing of it counts as proved." + B)
C["S01"] = ("other", KANI, "The data type codes, the sizes of the entries and the decoding of one entry of each kind with its name (two bytes long) are proved for all entry bytes and all places of the strings; tables and complete shader binaries, altered and cut, are executed within bounds with a memory meter." + B)
C["J01"] = ("other", KANI, "The hand-written export and import of pointers, strings and byte buffers is proved against an abstract text format (null, number, text) and the documented contract of the hex crate; whole files and data of every type, and the command line tools, are executed within bounds through serde_json." + B)
