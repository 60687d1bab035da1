"""Properties and manifest entries (properties.jsonl and MANIFEST.json are generated from here by gen.py)."""
M = []
def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    M.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or ["public API"], hook_needed=None), _note=note))
NA = []
P("C01", "Bit-packed fields keep every bit at every width and alignment",
  "A sequence of bit fields written one after another reads back exactly, for every field width up to 64 bits, every starting bit offset, and whether fields are read singly, bit by bit, in pairs or in triples. The bytes produced are the fields most significant bit first, zero padded to a whole byte. Reading past the end of the data is an error, never a made-up value.",
  ["inputs", "histories"], "all field contents; widths 0..64; every alignment; any split of the source into short reads",
  "The tests round-trip random values at a few widths; width 32 and 64, mixed widths and short reads were never reached (three of these were broken at the pinned commit).",
  ["src/unaligned_rw.rs"], [("writer", "src/unaligned_rw.rs write_unaligned, write_bit, Drop"), ("reader", "src/unaligned_rw.rs read_unaligned, read2_unaligned, read3_unaligned, read_pair_unaligned, read_bit")],
  "Every path of up to 3 fields (4 thorough) of all widths 0..64 with symbolic contents is decided against an independent reference layout; bounds on the number of fields.")
P("C02", "Index arrays survive saving exactly",
  "Every vertex, normal, UV and tangent index array comes back from a save and load with the same length, order and values, for arbitrary 32-bit indices. This holds whichever arrays are present, whether they are equal to each other or not, and when the encoder splits or merges them. An absent array stays absent.",
  ["inputs"], "all 32 bit index values up to the stated lengths; every combination of equal and unequal arrays; arrays long enough to be split",
  "Tests only save a handful of models whose indices are small; the encoder picks widths, offsets, splits and merges from the values.",
  ["src/vertices.rs", "src/tmf_exporter.rs", "src/tmf_importer.rs", "src/tmf.rs"], [("delta from the minimum at a derived width", "src/vertices.rs save_triangles"), ("split", "src/tmf_exporter.rs opt_tris"), ("merge", "src/tmf_exporter.rs merge_segments"), ("decode", "src/tmf_importer.rs read_default_triangles")],
  "Symbolic 32 bit indices for short arrays, sparse symbolic indices in long arrays; bounded lengths.")
P("C03", "Vertices come back in place, within the requested precision",
  "A vertex array comes back from a save and load with the same length and order, and every vertex lies within the precision the save asked for (an absolute deviation, or one relative to the shortest edge) plus single precision rounding of its coordinates. This holds for every box of coordinates, also flat, tiny, large, offset and single point ones, and for every precision from coarse to finer than single precision. Saving finite coordinates never panics.",
  ["inputs", "configurations"], "coordinates, precision modes and precisions on grids of symbolic bits; lengths 0..20",
  "The tests save one or two OBJ models at a few precisions and compare by a loose average.",
  ["src/vertices.rs", "src/tmf_exporter.rs", "src/tmf_importer.rs"], [("quantisation", "src/vertices.rs save_tmf_vertices"), ("dequantisation", "src/vertices.rs read_tmf_vertices"), ("precision", "src/vertices.rs VertexPrecisionMode, src/utilis.rs")],
  "Symbolic grid coordinates through the real save and load, compared with the documented bound; coordinates between grid points are outside the bound.")
P("C04", "Normals come back as unit vectors within the requested deviation",
  "A normal array comes back from a save and load with the same length and order; every normal has length one and points within the requested angle of the original (plus single precision rounding). This holds in all octants and on the axes, for the exact and the fast trigonometry build. A normal which is the zero vector or not finite never makes saving panic.",
  ["inputs", "configurations"], "directions on a grid of symbolic azimuth and height in all eight octants; deviations in steps; both builds",
  "The tests encode random normals with a slack bound and never the whole sphere; the exact deviation of the two angles and of the octant signs follows from the values.",
  ["src/normals.rs", "src/tmf_exporter.rs"], [("encode", "src/normals.rs normal_to_encoding"), ("decode", "src/normals.rs normal_from_encoding"), ("width", "src/normals.rs NormalPrecisionMode::bits_for_mode")],
  "Grids of directions (64 azimuths a quarter turn, 1024 heights) decided exactly; near the poles the format itself misses the documented deviation (known finding).")
P("C05", "UV coordinates come back within the requested precision",
  "A UV array comes back from a save and load with the same length and order, and each coordinate within [0,1] is off by no more than the requested fraction of a texel at the requested texture resolution. Coordinates outside that range never make saving panic, and never disturb their neighbours.",
  ["inputs", "configurations"], "coordinates on grids of symbolic bits in [0,1], arbitrary bit patterns for the safety part, resolutions and precisions on grids",
  "The tests round-trip one model; rounding at 0, 1 and the half steps depends on the value and the width.",
  ["src/uv.rs", "src/tmf_exporter.rs", "src/tmf_importer.rs"], [("encode and decode", "src/uv.rs save_uvs, read_uvs"), ("precision", "src/uv.rs UvPrecisionMode")],
  "Grid coordinates through the real save and load against the documented bound.")
P("C06", "Tangents keep direction, handedness and order",
  "A tangent array comes back from a save and load with the same length and order, every direction within the requested deviation (as for normals), and the sign of the handedness kept. This holds in all octants and on the axes and for arrays of any length.",
  ["inputs", "configurations"], "directions on a grid of symbolic azimuth and height in all octants, handedness any 32 bit float",
  "The tests encode random tangents with a slack bound.",
  ["src/tangents.rs", "src/normals.rs"], [("encode", "src/tangents.rs save_tangents, tangent_to_encoding"), ("decode", "src/tangents.rs read_tangents")],
  "As C04; the same known finding near the poles.")
P("C07", "Custom data keeps names, kinds, order and values",
  "Every named custom data array (indices, integers, floats, colours) comes back from a save and load under the same name, as the same kind, in the order it was added, and with the same length. Integers and indices come back exactly, floats and colour channels within the precision the array was created with. A name too long for the format is refused with an error, not stored damaged.",
  ["inputs", "configurations"], "arbitrary 32 bit integers, floats and colours on symbolic grids, symbolic names and name lengths, several arrays in one mesh",
  "The tests store one array of each kind with fixed names; order, clamping, span ends and long names were never reached (order was broken at the pinned commit).",
  ["src/custom_data.rs", "src/tmf_exporter.rs", "src/tmf_importer.rs"], [("names", "src/custom_data.rs CustomDataName"), ("floats and colours", "src/custom_data.rs save_custom_floats, save_color"), ("order", "src/tmf_importer.rs")],
  "Symbolic contents of short arrays; bounded lengths and name lengths.")
P("C08", "A file of several meshes keeps their number, order, names and parts",
  "Saving a list of named meshes and loading the file gives the same number of meshes in the same order, with the same names and with exactly the parts each one had. No part of one mesh ever appears in another. Names and part counts the format cannot hold are refused with an error, and names which are not UTF-8 are refused on reading.",
  ["inputs", "configurations"], "symbolic names, every combination of present parts, name lengths around the field limits, up to four meshes",
  "The tests save one or two meshes with fixed short names; lengths at field limits and the 512 part combinations are never reached.",
  ["src/tmf.rs", "src/tmf_exporter.rs", "src/tmf_importer.rs", "src/lib.rs"], [("mesh headers", "src/tmf_exporter.rs"), ("reading", "src/tmf_importer.rs")],
  "Bounded number of meshes; the 65535 segment limit itself is too slow to encode.")
P("C09", "Reading arbitrary bytes never panics, and accepts only what the layout says",
  "Reading any sequence of bytes as a TMF file returns an error or meshes, and never panics, loops or makes values up. What is accepted is exactly what the published layout describes: each array has the declared number of elements and the values stored; everything else is an error. One changed byte in a good file has no worse effect.",
  ["inputs"], "arbitrary bytes in every position of one segment of each kind, of a mesh header, of a short file; any single byte of a full file replaced",
  "The tests only ever read files the library itself wrote.",
  ["src/tmf_importer.rs", "src/vertices.rs", "src/normals.rs", "src/uv.rs", "src/tangents.rs", "src/custom_data.rs", "src/utilis.rs"], [("segment reader", "src/tmf_importer.rs"), ("bit reader", "src/unaligned_rw.rs")],
  "All byte values up to the stated sizes, decided against an independent description of the layout; huge declared counts (memory) are outside.")
P("C10", "The version gate lets in exactly the readable files, old layouts included",
  "A file is refused when its magic is wrong or when it requires a newer reader than this one, and otherwise read; files in the older layouts (wide segment headers, indices without an offset) are read exactly. A compressed segment with a compression this reader lacks is an error, never garbage.",
  ["inputs", "configurations"], "every 11 byte header, every compression code, every segment kind in each of the layouts with free stored values",
  "The tests never read an old file, nor a wrong header.",
  ["src/tmf_importer.rs", "src/tmf.rs"], [("gate", "src/tmf_importer.rs TMFImportContext"), ("segment header", "src/tmf_importer.rs, src/tmf.rs CompressionType")],
  "All headers and codes; short arrays.")
P("C11", "A truncated file or segment is an error",
  "Reading a file which was cut anywhere gives an error, never a mesh with missing or invented parts. The same holds for a segment whose payload ends early while the file continues.",
  ["crash_points", "inputs"], "every cut position of a two mesh file with all kinds of parts; every cut position of a payload of each kind with free contents",
  "No test reads a cut file.",
  ["src/tmf_importer.rs", "src/unaligned_rw.rs", "src/utilis.rs"], [("bounded reads", "src/tmf_importer.rs, src/unaligned_rw.rs")],
  "Every cut of the stated files; the payload contents are free.")
P("C12", "The integrity check passes exactly the sound meshes",
  "Checking a mesh succeeds exactly when every index of each array refers to an existing element of the kind it indexes, all UV coordinates lie in [0,1], and all normals are unit vectors. When it fails, the error names the failing part. It never panics.",
  ["inputs"], "arbitrary 32 bit indices into arrays of 0..8, UVs of arbitrary bits, normals around the unit length and of special values, combinations of all parts",
  "The tests only check that a good model passes; an index equal to the length, and NaN, passed at the pinned commit.",
  ["src/verify.rs", "src/lib.rs"], [("checks", "src/verify.rs verify_tmf_mesh")],
  "Symbolic contents of short arrays; sizes bounded.")
P("C13", "Reordering data keeps every corner's data",
  "Reordering the data of a sound mesh leaves every corner of every face with the same vertex, normal and UV as before, lays the elements out in the order of their first use, and keeps exactly the ones in use. Parts without indices, parts which are absent, tangents and custom data do not change. Doing it again changes nothing.",
  ["inputs", "histories"], "all index patterns of up to 6 corners over up to 5 elements, long arrays with a free corner",
  "The tests reorder one model and check almost nothing about it.",
  ["src/lib.rs", "src/utilis.rs"], [("reorder", "src/lib.rs reorder_data, src/utilis.rs optimize_triangle_indices, fast_prune")],
  "Every index pattern within the bounds.")
P("C14", "Unifying index data keeps every corner's data under one index array",
  "After unifying, all index arrays which are present are equal, and each corner of each face has the same vertex, normal, UV and tangent as before, in the same order. Equal corners share one entry, so that no combination is stored twice. Parts without indices, absent parts and custom data do not change.",
  ["inputs"], "all index patterns of up to 4 corners over 2 or 3 elements, all subsets of the four kinds",
  "The tests run it on one model without comparing corners.",
  ["src/unify_data.rs", "src/lib.rs"], [("unify", "src/lib.rs unify_index_data, src/unify_data.rs smart_merge_data_4")],
  "Every index pattern within the bounds; equal lengths assumed (documented by an assertion).")
P("C15", "OBJ files are imported as written",
  "Importing an OBJ file gives every face corner the vertex, normal and texture coordinate its (one based) indices name, with the written values, faces in file order, and every object which has faces with its name in order; words may be separated by any number of blanks and tabs, and lines end in a line feed with or without a carriage return; lines of no interest are skipped. A vector line with too few or malformed numbers, or a face which is no triangle, is an error. No text makes the import panic.",
  ["inputs"], "symbolic digits, indices, line contents and whole short files of arbitrary bytes",
  "The tests import a handful of fixed files.",
  ["src/obj.rs", "src/model_importer.rs"], [("lines", "src/obj.rs parse_line"), ("faces", "src/obj.rs load_face, src/model_importer.rs push_face, next_mesh")],
  "Bounded text lengths and face sizes; every value within them.")
P("C16", "OBJ export and import are inverse for fully indexed meshes",
  "Exporting meshes to OBJ and importing them again gives the same faces: every corner has the same vertex, normal and UV, bit for bit, in the same order, and mesh order and names (of letters, digits and the like, without blanks and slashes, at which OBJ readers cut them) are kept, however many meshes and point clouds share the file. A mesh with only some kinds of indices is exported with exactly those, and one whose index arrays do not fit together is refused with an error.",
  ["inputs", "configurations"], "all index patterns of three corners over two or three elements, several meshes per file with point clouds, sixteen special coordinates in all positions",
  "The tests round-trip one or two models and compare counts.",
  ["src/obj.rs", "src/model_importer.rs"], [("export", "src/obj.rs save_obj, write_obj"), ("import", "src/obj.rs read_from_obj")],
  "Every index pattern within the bounds; coordinates from a list of special values.")
P("C17", "Triangulating a polygon uses its own corners and covers convex ones",
  "Importing a polygon of n corners with the triangulation build gives n-2 triangles of that polygon's corners which together form a triangulation of it: an exact cover with the same winding when the polygon is convex, each corner keeping its own normal and UV. Other faces in the file are unaffected, and degenerate polygons do not panic or hang. A polygon with a dangling vertex is an error.",
  ["inputs"], "polygons of 3 to 8 corners on grids; polygons of up to 7 corners with all corner angles arbitrary",
  "The tests triangulate one model; a wrong neighbour index was there at the pinned commit.",
  ["src/triangulation.rs", "src/model_importer.rs"], [("ear clipping", "src/triangulation.rs triangulate")],
  "Corner angles as free numbers for every ear order; coordinates on small grids.")
P("C18", "Setting, appending and reading mesh data keeps contents",
  "Each part of a mesh which is set is read back as it was; appending adds at the end without disturbing what was there and works on absent parts. The expanded buffers contain, corner by corner, the element each index refers to, and a dangling index gives nothing instead of a panic. Parts do not influence each other.",
  ["inputs", "histories"], "arbitrary 32 bit contents of up to 3 elements, sequences of set and append, buffers of arbitrary indices",
  "The tests read back a loaded model only.",
  ["src/lib.rs"], [("accessors", "src/lib.rs set_*, get_*, append_*"), ("buffers", "src/lib.rs get_vertex_buffer, get_normal_buffer, get_uv_buffer")],
  "Symbolic contents of short arrays.")
P("C19", "Normalising gives unit vectors in the same direction",
  "Normalising a mesh makes each non-zero normal a unit vector in the same direction, in the same order, from small to large lengths. Zero normals stay zero and those which are not numbers become zero; nothing else in the mesh changes.",
  ["inputs"], "vectors on symbolic grids at four scales and of special components",
  "No test normalises small, large or zero vectors.",
  ["src/lib.rs", "src/normals.rs"], [("normalise", "src/lib.rs normalize_normals, src/normals.rs")],
  "Grids of directions and scales.")
P("C20", "I/O faults surface as errors, short reads and writes change nothing",
  "When the sink or source fails at any byte, saving or loading returns that error and never reports success, nor panics. When it delivers or takes only part of what was asked, or interrupts calls, the result is exactly the same bytes and the same meshes.",
  ["fault_sequences"], "failure after every byte count with six kinds of error, short transfers of 1..9 bytes, any subset of the first 8 calls interrupted",
  "Tests only use buffers which never fail.",
  ["src/tmf_exporter.rs", "src/tmf_importer.rs", "src/unaligned_rw.rs", "src/obj.rs"], [("write errors", "src/tmf_exporter.rs, src/lib.rs write_tmf"), ("read errors", "src/tmf_importer.rs")],
  "All fault positions in the stated files.")
P("C21", "Files follow the published layout, both ways",
  "What is written is a file of the documented version 0.2 layout: header, mesh headers, segments with their type, length and compression, and packed payloads which decode by that description to the data saved. Every payload built from the description is read with the described values. So files exchanged with other versions and implementations mean the same.",
  ["inputs", "configurations"], "files with all parts and symbolic contents; payloads of every segment kind with every stored value free",
  "Round-trip tests cannot see a change made to writer and reader alike.",
  ["src/tmf_exporter.rs", "src/tmf_importer.rs", "src/vertices.rs", "src/normals.rs", "src/uv.rs", "src/tangents.rs", "src/custom_data.rs"], [("writer", "src/tmf_exporter.rs"), ("reader", "src/tmf_importer.rs")],
  "An independent description of the layout in the harness; short arrays.")
P("C22", "Segments of unknown kinds are skipped without harm",
  "A file with segments of kinds this version does not know is read as if they were not there, whatever they contain. The known parts before and after them come back exactly.",
  ["inputs", "configurations"], "every undefined type code, payloads of up to 40 arbitrary bytes, in each layout",
  "No test has a file with unknown segments.",
  ["src/tmf_importer.rs", "src/tmf.rs"], [("type codes", "src/tmf.rs SectionHeader"), ("skip", "src/tmf_importer.rs")],
  "All codes; payload lengths 0, 1, 5 and 40.")
P("C23", "Any sequence of operations keeps every corner's data",
  "However reordering, unifying, normalising, saving and loading, appending, cloning, exporting to OBJ and importing follow one another on a mesh, every face corner has the same vertex, normal, UV and tangent as at the start, within the precision the saves asked for, and the faces stay in order. Appended faces join at the end, custom data is kept, and the mesh passes the integrity check after each step. Only the OBJ format itself drops tangents and custom data.",
  ["histories", "inputs"], "every sequence of three or four of nine operations on meshes with free corners, a free coordinate and free custom data",
  "The tests apply at most two of the operations to a model, and compare counts.",
  ["src/lib.rs", "src/unify_data.rs", "src/utilis.rs", "src/tmf_exporter.rs", "src/tmf_importer.rs", "src/obj.rs"], [("operations", "src/lib.rs reorder_data, unify_index_data, normalize, append_*, set_*"), ("save and load", "src/tmf_exporter.rs write_mesh, src/tmf_importer.rs")],
  "All sequences of the stated length; one shape of mesh with free corners.")
P("C24", "A sound mesh stays sound when saved and loaded at any precision",
  "A mesh which passes the integrity check passes it again after it was saved, at whatever precisions, and loaded, any number of times. Element counts and indices are the same, loaded normals have length one, UVs are within 0 to 1, and finite positions stay inside their bounding box up to rounding. Normals and UVs read from a file are so whatever bits are stored, at every width a save can choose.",
  ["inputs", "configurations", "histories"], "stored values of 1 to 63 bits, 36 pairs of precisions per two kinds, two saves in a row",
  "The tests check one model at the default precision.",
  ["src/normals.rs", "src/uv.rs", "src/vertices.rs", "src/tangents.rs", "src/verify.rs"], [("decode", "src/normals.rs normal_from_encoding, src/uv.rs read_uvs, src/tangents.rs read_tangents"), ("widths", "src/normals.rs from_deg_dev, src/uv.rs form_texture_resolution")],
  "Symbolic stored values through the real reader and the real integrity check; precisions from a list of six.")
P("C25", "Saved data takes no more bits than its contents and precision need",
  "Each stored index takes at most as many bits as the largest index of its segment has; indices of one bit length are stored as one segment, and an index array shared by vertices and normals is stored once. Normals, tangents, UVs and vertices take at most the smallest number of bits which meets the deviation asked for. A segment is its header and its packed values, nothing more.",
  ["inputs", "configurations"], "arbitrary indices; deviations, precisions and extents of symbolic grids",
  "The tests never look at sizes, so a change which doubles the size of all files passes them.",
  ["src/vertices.rs", "src/tmf_exporter.rs", "src/normals.rs", "src/uv.rs", "src/tangents.rs", "src/tmf.rs"], [("index width", "src/vertices.rs save_triangles, calc_prec"), ("split and merge", "src/tmf_exporter.rs opt_tris, merge_segments"), ("width of values", "src/normals.rs from_deg_dev, src/uv.rs form_texture_resolution, src/vertices.rs save_tmf_vertices")],
  "Measured on the bytes written, parsed by the independent description of the layout.")
P("C26", "All ways to save and load agree",
  "The calls for one mesh and for several, synchronous and asynchronous, return the same meshes and names or the same kind of error for every file, sound or damaged; the ones for one mesh refuse files with none or several. What is written for a mesh depends on the mesh, its name and the settings only: not on its neighbours in the file, its position or earlier saves; each setting changes the bytes of its own kind of data only. A reader takes exactly the bytes of its file. OBJ calls for one mesh agree with those for several.",
  ["inputs", "configurations", "histories"], "damaged files with a free byte, files and texts of arbitrary bytes, free neighbours, names and settings, two files in a stream",
  "The tests use each call on a few sound files and never compare them.",
  ["src/lib.rs", "src/tmf_importer.rs", "src/tmf_exporter.rs", "src/obj.rs"], [("calls", "src/lib.rs read_tmf, read_tmf_async, read_tmf_one, read_tmf_one_async, write_tmf, write_tmf_one, read_from_obj_one, write_obj_one")],
  "Every byte value at every place of files with all kinds of segments, short arbitrary files.")
NA += []
