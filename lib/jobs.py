"""What is run for each property: harness entry, arguments, limits."""
class Job:
    def __init__(s, entry, *args, tier="quick", quick_only=False, feat=False, covers=(1,), timeout=600, max_alloc=1 << 26, crosscheck=0, query_timeout=60000, cost=1, note="", opaque=False):
        s.entry, s.args, s.tier, s.feat, s.covers, s.timeout, s.max_alloc = entry, list(args), tier, feat, list(covers), timeout, max_alloc
        s.crosscheck, s.query_timeout, s.cost, s.note, s.opaque, s.quick_only = crosscheck, query_timeout, cost, note, opaque, quick_only
        if tier == "thorough" and timeout == 600: s.timeout = 3000
    def label(s): return "%s(%s)%s" % (s.entry, ",".join(map(str, s.args)), "+feat" if s.feat else "")
class Prop:
    def __init__(s, jobs, bounds, outside, assumptions=()):
        s.jobs, s.bounds, s.outside, s.assumptions = jobs, bounds, outside, list(assumptions)
ENGINE_ASSUMPTIONS = [
    "the LLVM IR rustc 1.99.1 emits (release optimisation without vectorisation, overflow checks on, panic=abort) is what is decided; the compiler's code generation below IR is trusted",
    "the engine symex (symbolic interpreter, simplifier, bit blaster, SAT solver) is trusted; it is self-tested against brute force on each build, satisfiable answers are evaluated on the expression, and solver witnesses are replayed on the native build in every run",
    "futures::executor::block_on runs single threaded (the default build); the tokio runtime is not encoded",
]
T = "thorough"
PROPS = {}
PROPS["C01"] = Prop([
    Job("h_bits_fields", 1, 0, 64), Job("h_bits_fields", 2, 1, 64), Job("h_bits_fields", 3, 1, 16), Job("h_bits_fields", 3, 7, 9), Job("h_bits_fields", 3, 56, 64),
    Job("h_bits_fields", 3, 1, 40, tier=T, cost=30), Job("h_bits_fields", 4, 1, 12, tier=T, cost=30),
    Job("h_bits_multi", 0, 0, 64, 0), Job("h_bits_multi", 0, 0, 64, 5), Job("h_bits_multi", 1, 0, 64, 0), Job("h_bits_multi", 1, 0, 64, 3), Job("h_bits_multi", 1, 0, 64, 63),
    Job("h_bits_pair", 0, 64, 0), Job("h_bits_pair", 0, 64, 3, cost=3), Job("h_bits_pair", 0, 64, 61),
    Job("h_bits_bits", 5, 0), Job("h_bits_bits", 33, 5), Job("h_bits_bits", 64, 7), Job("h_bits_bits", 64, 0),
    Job("h_bits_chunks", 2, 30, 36, cost=3), Job("h_bits_chunks", 3, 6, 11), Job("h_bits_chunks", 2, 62, 64, tier=T, cost=20),
    Job("h_bits_eof", 0, 1, 3), Job("h_bits_eof", 3, 1, 13), Job("h_bits_eof", 5, 12, 20), Job("h_bits_eof", 9, 20, 30), Job("h_bits_eof", 8, 21, 22), Job("h_bits_eof", 9, 1, 64, tier=T, cost=30),
    Job("h_bits_long", 8190, 3, 1, 24, cost=4), Job("h_bits_long", 8191, 0, 1, 12, cost=3), Job("h_bits_long", 16383, 7, 9, 11, cost=3), Job("h_bits_long", 8190, 3, 25, 64, tier=T, cost=9),
], "1 to 3 consecutive fields (4 in thorough) of every width 0..64 with arbitrary contents, any bit alignment, single bits, fields across the 8 KiB buffer of the writer, sources which return arbitrary short reads, end of data after 0..9 bytes",
 "longer sequences of fields; sources which return errors")

def J(entry, *args, **k): return Job(entry, *args, **k)
PROPS["C02"] = Prop([
    *[Job("h_idx", k, n, cost=n * n) for k in range(4) for n in (0, 1, 2, 3)],
    Job("h_idx", 0, 4, cost=40), Job("h_idx", 2, 4, tier=T, cost=40), Job("h_idx", 0, 5, tier=T, cost=500),
    Job("h_idx_shared", 2, cost=40), Job("h_idx_shared", 1, tier=T, cost=40), Job("h_idx_shared", 3, tier=T, cost=40),
    *[Job("h_idx_equal", m, 2, cost=3) for m in (3, 5, 6, 7, 11, 15)], Job("h_idx_equal", 7, 3, cost=5), Job("h_idx_equal", 15, 0), Job("h_idx_equal", 7, 1),
    *[Job("h_idx_pair", a, b, 3, 2) for a in range(4) for b in range(4) if a < b], Job("h_idx_pair", 0, 1, 4, 3, tier=T, cost=20),
    Job("h_idx_long", 0, 64, 3, 3, 0, 1, covers=(1, 2), cost=8), Job("h_idx_long", 0, 64, 40, 5, 4, 2, covers=(1, 2), cost=8), Job("h_idx_long", 1, 64, 3, 3, 0, 4, cost=8),
    Job("h_idx_long", 2, 40, 3, 30, 5, 1, covers=(1, 2), cost=10), Job("h_idx_long", 3, 64, 3, 3, 0, 7, cost=8), Job("h_idx_long", 4, 64, 3, 3, 0, 3, cost=8), Job("h_idx_long", 5, 24, 3, 3, 0, 8, cost=8),
    Job("h_idx_long", 6, 64, 3, 3, 0, 1, cost=8), Job("h_idx_long", 7, 24, 3, 3, 0, 8, covers=(1, 2), cost=8), Job("h_idx_long", 0, 120, 90, 90, 0, 15, cost=20),
    Job("h_idx_long", 2, 64, 3, 3, 0, 8, tier=T, cost=30), Job("h_idx_long", 5, 64, 3, 3, 0, 1, tier=T, cost=30), Job("h_idx_long", 7, 64, 3, 3, 0, 1, tier=T, cost=60), Job("h_idx_long", 0, 200, 150, 150, 0, 15, tier=T, cost=30),
    *[Job("h_lay_blocks", *c) for c in ((12, 21, 112, 0), (12, 12, 21, 21), (123, 132, 213, 321), (321, 312, 123, 23), (143, 341, 134, 431), (1212, 2121, 12, 0), (2, 21, 2, 12), (11, 11, 1, 1), (3, 13, 31, 3))],
    Job("h_idx_long", 0, 400, 300, 300, 0, 1, tier=T, cost=60), Job("h_idx_long", 4, 200, 100, 7, 8, 4, tier=T, cost=60),
    Job("h_idx_huge", 0, 7001, 6999, 8, 1, cost=3), Job("h_idx_huge", 0, 20011, 20010, 12, 6, cost=6), Job("h_idx_huge", 1, 7001, 5000, 3, 2, cost=3), Job("h_idx_huge", 1, 66001, 66000, 3, 8, cost=9), Job("h_idx_huge", 3, 7001, 5000, 3, 7, cost=40), Job("h_idx_huge", 2, 3001, 2500, 3, 3, cost=20), Job("h_idx_huge", 2, 7001, 5000, 3, 3, tier=T, cost=60), Job("h_idx_huge", 0, 140003, 140000, 12, 1, tier=T, cost=60),
], "arrays of 0..4 (5 in thorough) arbitrary 32 bit indices of each kind; every combination of absent, equal, nearly equal and own arrays over the four kinds; equal arrays of up to 3 arbitrary elements; pairs of arrays whose equality is left open; arrays of 7001 to 66001 (140003) elements with one free; arrays of 24 to 400 elements in eight patterns (steps up and down, ramps, constants, powers of two) with one arbitrary 32 bit element and a second of a few bits, so that the encoder splits them and merges them; arrays of the four kinds made of the same blocks in different order",
 "long arrays with more than two free elements")
FULLNRM = [(p, t) for p in range(5) for t in (0, 1, 2)]
PROPS["C03"] = Prop([
    *[Job("h_vtx_axis", a, p, 12, cost=3) for a in range(3) for p in range(5)],
    Job("h_vtx_free", 2, 0, 3), Job("h_vtx_free", 1, 0, 4), Job("h_vtx_free", 2, 4, 2),
    *[Job("h_vtx_box", a, p, 2, 7, cost=5) for a in range(3) for p in (0, 3)],
    *[Job("h_vtx_scale", a, s, 0, 12) for a in range(3) for s in (1, 50, 1000, 123456, 100000000)],
    *[Job("h_vtx_edge", p, 4, r, cost=5) for p in (0, 3) for r in range(3)],
    Job("h_vtx_faces", 3, cost=5), Job("h_vtx_faces", 4, cost=8), Job("h_vtx_faces", 2), Job("h_vtx_faces", 0),
    *[Job("h_vtx_many", 16, q, 10, s) for q, s in ((5, 0), (29, 0), (15, 0), (20, 1), (3, 1), (16, 1), (0, 0), (31, 1))], *[Job("h_vtx_many", 32, q, 10, s) for q, s in ((40, 2), (6, 2), (33, 0), (12, 1))],
    Job("h_vtx_many", 100, 150, 10, 0, tier=T, cost=9), Job("h_vtx_many", 100, 7, 10, 1, tier=T, cost=9), Job("h_vtx_many", 200, 350, 10, 2, tier=T, cost=9),
    *[Job("h_vtx_fine", a, 0, 10, 8, cost=3) for a in range(3)], *[Job("h_vtx_fine", a, 0, 10, 12, tier=T, cost=9) for a in range(3)],
    Job("h_vtx_single", 0, 12), Job("h_vtx_single", 1, 12), Job("h_vtx_single", 2, 5),
    *[Job("h_slow", 0, 40, f) for f in range(3)], Job("h_vtx_many", 8193, 7, 10, 0, cost=3), Job("h_vtx_many", 8193, 16385, 10, 1, cost=3), Job("h_vtx_many", 35001, 35000, 10, 2, cost=9),
], "one coordinate on a grid of 2^12 in fixed boxes for five precisions, up to two points with all coordinates free on grids of 2^3, boxes whose ends and whose third point are free, sizes from 10^-4 to 10^4, boxes of eleven sizes from 10^-7 to 10^20 along one axis with five precisions from 10^-8 to 1 (up to the widest fields), right triangles with free legs (degenerate included) in every corner order, faces naming any vertex (dangling and incomplete included), and 32 to 70002 vertices which the encoder splits with a free one at chosen places",
 "coordinates between the grid points, several free vertices among many")
PROPS["C04"] = Prop([
    *[Job("h_nrm", p, 0, 8, 1, 6, 0, 15, 16, 6, feat=f, cost=10) for p in range(8) for f in (False, True)], Job("h_nrm", 0, 0, 8, 8, 6, 0, 15, 16, 6, cost=20), Job("h_nrm", 5, 0, 8, 8, 6, 0, 15, 16, 6, cost=20),
    *[Job("h_nrm_axes", p, 0, feat=f) for p in range(8) for f in (False, True)],
    Job("h_nrm_many", 3, 0, 0, 0, 4), Job("h_nrm_many", 5, 4, 0, 0, 4), Job("h_nrm_many", 9, 3, 1, 0, 4), Job("h_nrm_many", 9, 8, 2, 0, 4), Job("h_nrm_many", 20, 13, 3, 0, 8),
    Job("h_nrm_mode", 0, 9, 0), Job("h_nrm_mode", 10, 40, 0), Job("h_nrm_mode", 0, 40, 0, feat=True),
    *[Job("h_nrm", p, 0, 8, 64, 6, 0, 31, 32, 6, tier=T, feat=f, cost=99) for p in range(8) for f in (False, True)],
    *[Job("h_slow", 1, 40, f, feat=g) for f in range(3) for g in (False, True)], Job("h_data_huge", 1, 5001, 5000, cost=3), Job("h_data_huge", 1, 70001, 69999, cost=30),
], "directions in all eight octants: 64 azimuths per quarter turn (512 for two deviations; 4096 in thorough) times 1024 heights (2048 in thorough), at eight deviations from 30 to 0.00002 degrees, with the default and the fast_trig code; the 26 axes and diagonals; deviations 0.05 to 20 degrees in steps of 1/32 degree; arrays of 3 to 70001 with one free direction",
 "directions between the grid points")
PROPS["C05"] = Prop([
    *[Job("h_uv", m, 12, 0) for m in range(12)], *[Job("h_uv", m, 0, 12) for m in range(12)], *[Job("h_uv", m, 6, 6) for m in range(12)],
    Job("h_uv_corner", 0, 11), Job("h_uv_mode", 1, 16, 6), Job("h_uv_mode", 17, 64, 4), Job("h_uv_many", 3, 1, 0, 6), Job("h_uv_many", 9, 8, 1, 6), Job("h_uv_many", 20, 0, 0, 6), *[Job("h_slow", 2, 40, f) for f in range(3)], Job("h_uv_wild", 0), Job("h_uv_wild", 1), Job("h_uv_wild", 3),
    Job("h_uv_mode", 1, 64, 6, tier=T, cost=30),
    Job("h_data_huge", 2, 5001, 5000, cost=3), Job("h_data_huge", 2, 70001, 69999, cost=20),
], "one pair on grids of 2^12 per coordinate (2^6 by 2^6 together) for twelve combinations of resolution and deviation (0 to 63 bits), resolutions and deviations on a grid, arrays of 3 to 70001 pairs with one free, 40 pairs in slow drift of free speed, pairs of arbitrary 32 bit patterns (no panic, neighbours unharmed)",
 "coordinates between the grid points")
PROPS["C06"] = Prop([
    *[Job("h_nrm", p, t, 8, 1, 6, 0, 15, 16, 6, cost=10) for p in range(8) for t in (1, 2)], *[Job("h_nrm", p, 1, 8, 1, 6, 0, 15, 16, 6, feat=True, cost=10) for p in range(8)],
    *[Job("h_nrm_axes", p, 1, feat=f) for p in range(8) for f in (False, True)],
    Job("h_nrm_many", 3, 0, 0, 1, 4), Job("h_nrm_many", 5, 4, 0, 2, 4), Job("h_nrm_many", 9, 3, 1, 1, 4), Job("h_nrm_many", 20, 13, 3, 1, 8),
    Job("h_nrm_mode", 0, 9, 1), Job("h_nrm_mode", 10, 40, 1),
    *[Job("h_nrm", p, 1, 8, 64, 6, 0, 31, 32, 6, tier=T, feat=f, cost=99) for p in range(8) for f in (False, True)],
    *[Job("h_slow", 3, 40, f, feat=g) for f in range(3) for g in (False, True)], Job("h_data_huge", 3, 5001, 5000, cost=3), Job("h_data_huge", 3, 70001, 69999, cost=30),
], "as C04 (arrays of up to 70001), with handedness any 32 bit float", "directions between the grid points")
PROPS["C07"] = Prop([
    *[Job("h_cf", p, a, b, 12) for p in (0, 1, 2, 6, 7, 8) for a, b in ((0, 8), (0xfffffff8, 24), (16, 16))],
    Job("h_cf_span", 6, 5), Job("h_cf_len", 0, 0), Job("h_cf_len", 5, 0), *[Job("h_cc", p, 8) for p in (0, 1, 2, 3, 6, 7, 8)], Job("h_cc_prec", 0, 6, 5), Job("h_cc_prec", 3, 6, 5), Job("h_cc_len", 0, 0), Job("h_cc_len", 3, 0),
    *[Job("h_ci", k, n) for k in range(2) for n in range(4)], Job("h_ci_max", 0, 0, 20), Job("h_ci_max", 1, 0, 20),
    Job("h_cname", 2, 1, 2, covers=(1, 3)), Job("h_cname", 2, 2, 2, covers=(1, 2, 3)), Job("h_cname_len", 0, 3, covers=(1, 2)), Job("h_cname_len", 254, 257, covers=(1, 3)), Job("h_cname_utf8", 0), Job("h_cname_utf8", 1), Job("h_call"),
    Job("h_ci", 0, 4, tier=T, cost=20), Job("h_ci", 1, 4, tier=T, cost=20), Job("h_cname_len", 0, 300, tier=T, covers=(1, 2, 3), cost=20),
    *[Job("h_slow", k, 40, f) for k in (4, 5) for f in range(3)], *[Job("h_cname_twin", a, b, s) for a, b in ((1, 3), (8, 9), (14, 18), (30, 34), (62, 66), (126, 130), (254, 255)) for s in (0, 1)], *[Job("h_data_huge", k, 5001, 4999, cost=3) for k in (4, 5, 6)], *[Job("h_data_huge", k, 70001, 70000, cost=20) for k in (4, 5, 6)],
], "floats on a grid of 2^12 in three spans, free spans and precisions on grids, colours with 8 bits per channel in turn, indices and integers of up to 3 (4 in thorough) arbitrary 32 bit values, declared maxima 0..20, symbolic names of 1 or 2 bytes, names of 0..3 and 254..257 bytes (0..300 in thorough); pairs of names of 1 to 255 bytes which differ in one free byte, or not at all; arrays of 5001 and 70001 elements with one free",
 "floats between the grid points; spans beyond the grids")
PROPS["C08"] = Prop([
    Job("h_meshes", 0, 2), Job("h_meshes", 1, 2), Job("h_meshes", 1, 4), Job("h_meshes", 2, 2, cost=3), Job("h_meshes", 3, 1, cost=5), Job("h_meshes", 4, 1, tier=T, cost=50), Job("h_meshes", 3, 2, tier=T, cost=50),
    Job("h_name_len", 0, 4), Job("h_name_len", 65534, 65537, covers=(1, 2)), Job("h_name_len", 250, 260), Job("h_name_utf8", 0),
    *[Job("h_name_utf8", n, covers=(1, 2)) for n in (1, 2, 3, 4)], Job("h_name_utf8", 5, tier=T, covers=(1, 2), cost=20),
    Job("h_presence", 0, cost=5), Job("h_presence", 1, cost=5), Job("h_seg_limit", 0, 5), Job("h_seg_limit", 255, 257),
    Job("h_meshes_many", 66000, 65999, 0, cost=20), Job("h_meshes_many", 66000, 65535, 1, cost=20), Job("h_meshes_many", 300, 256, 0), Job("h_meshes_many", 1025, 1024, 0, cost=2),
], "0 to 3 meshes (4 in thorough) with names of up to 2 symbolic ASCII bytes and one arbitrary index each; all 2^9 combinations of present arrays before and after another mesh; names of 0..4, 250..260 and 65534..65537 bytes; names of up to 4 arbitrary bytes on reading; 0..5 and 255..257 segments; files of up to 66000 meshes with one in use",
 "the limit of 65535 segments itself (the encoder compares segments pairwise, too slow to encode); more than three meshes")
SEGS = [2, 4, 6, 10, 25]
PROPS["C09"] = Prop([
    *[Job("h_any_seg", m, t, n, 3, covers=(2,) if n < h else (1, 2)) for m in (1, 2) for t, h in ((2, 9 + 8 * (m == 2)), (4, 9 + 8 * (m == 2)), (6, 9 + 8 * (m == 2)), (10, 9 + 8 * (m == 2)), (25, 10 + 8 * (m == 2))) for n in (h - 1, h, h + 2)],
    *[Job("h_any_seg", 2, t, n, 3, covers=(2,) if n < h else (1, 2)) for t, h in ((3, 9), (5, 9), (9, 9), (15, 18), (24, 18), (16, 26), (23, 10)) for n in (0, h - 1, h, h + 1, h + 3)],
    *[Job("h_any_seg", m, 1, n, 3, covers=(1, 2), cost=3) for m in (0, 2) for n in (59, 60, 63)], Job("h_any_seg", 2, 1, 8, 3, covers=(2,)), Job("h_any_seg", 2, 1, 58, 3, covers=(2,)),
    Job("h_any_box", 0), Job("h_any_box", 2),
    *[Job("h_any_mesh", m, 1, n, covers=(1, 2), cost=3) for m in (1, 2) for n in (4, 8, 12)], Job("h_any_mesh", 2, 0, 3, covers=(1,)), Job("h_any_mesh", 2, 1, 3, covers=(2,)), Job("h_any_mesh", 2, 2, 8, covers=(1, 2)), Job("h_any_mesh", 2, 1, 14, covers=(1, 2), cost=20), Job("h_any_mesh", 2, 1, 16, covers=(1, 2), cost=99, tier=T),
    *[Job("h_any_file", n, covers=(2,)) for n in (0, 1, 2, 3, 10, 14)], *[Job("h_any_file", n, covers=(1, 2)) for n in (15, 19, 20)], Job("h_any_file", 22, covers=(1, 2), cost=20, tier=T),
    *[Job("h_corrupt", a, a + 39, 0, cost=2) for a in range(0, 360, 40)],
    *[Job("h_any_seg", 2, t, n, 3, covers=(1, 2), cost=30, tier=T) for t, n in ((2, 24), (25, 24), (5, 16), (23, 18), (16, 32), (15, 26))],
], "one segment of every known type whose payload is arbitrary in every byte (0 to 63 bytes, at and around the size of the header of each type; one of the three widths of a vertex segment free), with 0..3 declared elements or more than 2^31; vertex boxes of any 64 bit floats; 3 to 14 (16) arbitrary bytes behind a file header; 0 to 20 (22) arbitrary bytes; a file with every kind of segment in which any one byte is replaced by any value. Exact acceptance: refused or read exactly as the layout says, with the declared count",
 "declared counts between 4 and 2^31, declared segment lengths between the file size and 2^31, and declared segment counts 17..65534 (the reader reserves what the file declares; exhausting memory is not decided)")
PROPS["C10"] = Prop([
    Job("h_header", covers=(1, 2, 3)), *[Job("h_compression", m, t, covers=(1, 2, 3)) for m in range(3) for t in SEGS + [1, 3, 5, 9, 15, 16, 23, 24]], *[Job("h_compression", m, t, 1, covers=(2, 3)) for m in (0, 2) for t in SEGS + [1, 3, 5, 9, 15, 16, 23, 24]],
    *[Job("h_read_idx", m, t, p, 2) for m in (0, 1) for t in SEGS for p in (0, 8, 17, 32)], *[Job("h_read_idx", m, 2, p, 3) for m in (0, 1) for p in (1, 33, 64)],
    *[Job("h_read_vtx", m, 3, 4, 2, 1) for m in (0, 1)], *[Job("h_read_nrm", m, 4, 1, t) for m in (0, 1) for t in (0, 1)], *[Job("h_read_uv", m, 5, 1) for m in (0, 1)], *[Job("h_read_custom", m, k, 5 if k != 3 else 3, 2 if k < 2 else 1) for m in (0, 1) for k in range(4)], Job("h_read_parts", 0), Job("h_read_parts", 1), *[Job("h_lay_read_nrm", m, p, 5, q, t) for m in (0, 1) for p in (5, 10, 24, 40) for q in (1, 5) for t in (0, 1)], *[Job("h_lay_read_unit", m, k, p, 6, 1) for m in (0, 1) for p in (8, 17, 31, 40) for k in range(3)], *[Job("h_lay_read_vtx", m, *p, 2, 1) for m in (0, 1) for p in ((13, 14, 15), (33, 17, 5), (8, 16, 32))],
], "every 11 byte header; every compression code with every kind of segment, empty or not; the wide layout of files readable from version 0.0 and 0.1 for every kind of segment, with stored values free and 1 to 64 bits per value",
 "files with more than one segment kind at once in the old layout (see h_read_parts), long arrays")
PROPS["C11"] = Prop([
    *[Job("h_cut", a, a + 49, cost=2) for a in range(0, 400, 50)],
    *[Job("h_cut_tail", m, l, x) for m in (0, 2) for l, x in ((0, 1), (0, 9), (2, 1), (4, 3), (6, 8), (10, 2), (25, 4), (5, 5), (3, 3), (9, 2), (23, 6))],
    *[Job("h_short", m, t, p, n, covers=(1, 2)) for m in (1, 2) for t, p, n in ((1, 7, 3), (3, 5, 3), (9, 6, 3), (5, 9, 3), (2, 11, 5), (4, 31, 3), (6, 1, 9), (10, 7, 5), (25, 13, 4), (15, 9, 5), (24, 20, 3), (16, 12, 4), (23, 5, 3))],
    *[Job("h_short", 2, t, p, n, covers=(1, 2), tier=T) for t, p, n in ((1, 21, 9), (3, 13, 9), (9, 13, 9), (5, 24, 9), (2, 30, 20), (25, 31, 20), (15, 31, 20), (16, 24, 20), (23, 16, 9))],
    *[Job("h_any_seg", 2, t, h - 1, 3, covers=(2,)) for t, h in ((1, 59), (3, 9), (5, 9), (9, 9), (2, 17), (25, 18), (15, 18), (16, 26), (23, 10))],
], "a file of two meshes with all kinds of segments (two indices symbolic) cut at every place; files ending with a segment of an unknown kind or with a payload longer than its contents, cut at every place; the payload of every kind of segment cut at every place while the file goes on, stored values free",
 "larger files")
PROPS["C12"] = Prop([
    *[Job("h_ver_idx", k, n, l, covers=(2,) if l == 0 else ((1,) if n == 0 else (1, 2))) for k in range(3) for n, l in ((0, 2), (1, 1), (2, 3), (3, 0), (3, 8), (4, 5))],
    *[Job("h_ver_long", k, n, p, l, covers=(1, 2)) for k in range(3) for n, p, l in ((50, 49, 7), (50, 0, 8), (33, 17, 5))],
    Job("h_ver_cross", 0, 2, covers=(1, 2)), Job("h_ver_uv", 1, 0, covers=(1, 2)), Job("h_ver_uv", 3, 1, covers=(1, 2)), Job("h_ver_uv", 8, 7, covers=(1, 2)),
    *[Job("h_ver_nrm", w, n, p, covers=(2,) if w == 3 else (1, 2)) for w in range(3) for n, p in ((1, 0), (4, 3))], Job("h_ver_nrm", 3, 2, 1, covers=(1, 2)), Job("h_ver_odd", covers=(1, 2)), Job("h_ver_combo"),
    Job("h_ver_idx", 0, 6, 5, tier=T, covers=(1, 2), cost=9), Job("h_ver_long", 0, 400, 399, 8, tier=T, covers=(1, 2), cost=9),
    *[Job("h_ver_where", k, n, 0, n - 1) for k in range(3) for n in (17, 50, 100, 131)], *[Job("h_ver_where", k, n, n - 9, n - 1, cost=2) for k in range(3) for n in (1000, 70000)], *[Job("h_ver_data", k, n, n - 1 - d) for k in (1, 2) for n, d in ((50, 0), (100, 7), (5000, 0), (70000, 3))],
], "up to 4 arbitrary 32 bit indices (one at any place of 17 to 131, or near the end of 1000 and 70000) into 0..8 elements of each kind; UV pairs of arbitrary bits; normals of lengths 0.997..1.003 on a grid of 2^12, and of special values; all combinations of seven states of the three groups",
 "tangents and face counts, which the integrity check does not look at; lengths within 10^-6 of the limit of 0.001")
PROPS["C13"] = Prop([
    *[Job("h_reorder", k, n, e) for k in range(3) for n, e in ((0, 3), (1, 2), (3, 3), (4, 4), (5, 2))], *[Job("h_reorder", k, 6, 3, cost=9) for k in range(3)], Job("h_reorder", 0, 5, 5, tier=T, cost=30), Job("h_reorder", 1, 8, 3, tier=T, cost=30),
    *[Job("h_reorder_all", n, k, o, cost=n * k) for n, k in ((0, 2), (2, 2), (3, 2), (2, 3)) for o in (0, 1)], *[Job("h_reorder_all", n, k, o, tier=T, cost=n * k) for n, k in ((4, 2), (2, 5)) for o in (0, 1)], *[Job("h_reorder_long", k, 40, p) for k in range(3) for p in (0, 21, 39)], Job("h_reorder_long", 0, 300, 150, tier=T),
    *[Job("h_reorder_big", k, n, s) for k in range(3) for n, s in ((3, 300), (3, 70000))], *[Job("h_reorder_many", k, 3001, 3000) for k in range(3)], Job("h_reorder_many", 0, 70001, 35000, cost=5),
], "up to 6 (8) free corners over up to 5 elements of one kind, all three kinds at once with up to 3 corners, arrays of 40 (300) and 70001 with one free corner, 300 and 70000 elements with corners at and around the powers of two", "larger meshes with several free corners; meshes which do not pass the integrity check (reordering dangling indices panics)")
PROPS["C14"] = Prop([
    *[Job("h_unify", m, n, k, cost=2) for m in range(1, 16) for n, k in ((0, 2), (1, 3), (2, 2))], *[Job("h_unify", m, 3, 2, cost=9) for m in (3, 5, 9, 6, 7)], Job("h_unify", 3, 4, 2, cost=9), Job("h_unify", 3, 3, 3, cost=9), Job("h_unify", 15, 3, 2, tier=T, cost=90), Job("h_unify", 3, 5, 2, tier=T, cost=30),
    Job("h_unify_big", 3, 3, 300), *[Job("h_unify_big", m, 2, 70000, cost=5) for m in (3, 5, 7, 9, 11, 13, 14, 15)], *[Job("h_unify_big", m, 3, 70000, tier=T, cost=50) for m in (3, 14, 13)],
    *[Job("h_unify_plain", p, 1, 2) for p in range(4)], *[Job("h_unify_plain", p, 2, 2, cost=9) for p in range(4)],
    Job("h_unify_pack", 3, 16, cost=4), Job("h_unify_pack", 3, 18, cost=12), Job("h_unify_pack", 12, 18, cost=12), Job("h_unify_pack", 10, 18, cost=12), Job("h_unify_pack", 3, 20, cost=60), Job("h_unify_pack", 7, 18, tier=T, cost=80), Job("h_unify_pack", 5, 21, tier=T, cost=200), Job("h_unify_many", 3, 300, 299, cost=3), Job("h_unify_many", 14, 300, 100, cost=3), Job("h_unify_many", 7, 1500, 1200, cost=15), Job("h_unify_many", 9, 1025, 1024, cost=15), Job("h_unify_many", 15, 5000, 4999, tier=T, cost=90),
], "every subset of the four kinds with up to 2 free corners over 2 or 3 elements, pairs and triples with 3 or 4 corners; one kind without indices next to the others; arrays of 70000 elements with corners at and around the powers of two; corners which differ by 2^16, 2^18 or 2^20 in one index and by one in another; 300 to 1500 (5000) different corners with one free", "longer index arrays; index arrays of different lengths (refused by an assertion)")
PROPS["C15"] = Prop([
    *[Job("h_obj_num", k, a, s, w, f) for k in range(3) for a in range(2 if k == 2 else 3) for s, w, f in ((0, 1, 0), (1, 1, 1), (0, 2, 1), (1, 0, 2))],
    *[Job("h_obj_index", d, a) for d in (1, 2, 3, 5, 6) for a in range(3)], *[Job("h_obj_index", d, a, cost=3) for d, a in ((8, 1), (10, 0), (10, 1), (10, 2))], *[Job("h_obj_index", d, a, tier=T) for d in (4, 7, 8, 9) for a in range(3)],
    *[Job("h_obj_exp", k, a, 1, u) for k in range(3) for a in range(2 if k == 2 else 3) for u in (0, 1)], Job("h_obj_exp", 0, 1, 0, 0), Job("h_obj_exp", 0, 0, 2, 0),
    *[Job("h_obj_digits", i) for i in range(3)], Job("h_obj_digits", 3, tier=T, cost=60), Job("h_obj_face", 2, cost=6), *[Job("h_obj_faces", 2, p) for p in range(6)], Job("h_obj_faces", 5, 7),
    Job("h_obj_noise", 0), Job("h_obj_noise", 2, cost=5), Job("h_obj_sparse", 1, 3), Job("h_obj_sparse", 2, 2, cost=5), Job("h_obj_sparse", 3, 1, cost=3), Job("h_obj_sparse", 3, 2, tier=T, cost=40), Job("h_obj_objects", 1, 2), Job("h_obj_objects", 2, 2, cost=3), Job("h_obj_objects", 3, 2, cost=5), *[Job("h_obj_bad", k, c) for k in range(3) for c in range(5)], *[Job("h_obj_bad", 3, c) for c in range(6)],
    *[Job("h_obj_text", n, covers=(1, 2)) for n in (1, 2, 3)], *[Job("h_obj_any", n, covers=(1, 2)) for n in (1, 3, 4)], *[Job("h_obj_face_text", n, covers=(1, 2)) for n in (1, 2, 3)],
    Job("h_obj_any", 5, tier=T, covers=(1, 2), cost=60), Job("h_obj_face_text", 4, tier=T, covers=(1, 2), cost=60),
    *[Job("h_obj_exact", w, f, i) for i, (w, f) in enumerate(((1, 8), (3, 6), (9, 0), (0, 9), (5, 15), (1, 40), (2, 5), (7, 7), (20, 0), (1, 16)))], Job("h_obj_crlf"), *[Job("h_obj_spell", k, a, covers=(1, 2)) for k in range(3) for a in range(2 if k == 2 else 3)], *[Job("h_obj_extra", k, m) for k in range(3) for m in range(5)], *[Job("h_obj_order", s) for s in range(8)], *[Job("h_obj_word", n) for n in (1, 2, 3)], *[Job("h_obj_name", n, 0, k) for n in (1, 3) for k in range(5)], *[Job("h_obj_name_long", n) for n in (30, 300, 9000)], Job("h_obj_same_name"), *[Job("h_obj_blanks", n) for n in (1, 2, 3)], *[Job("h_obj_long", n) for n in (30, 130, 300, 9000)], Job("h_obj_big", 400, 399, cost=3), Job("h_obj_big", 9, 4), Job("h_obj_big", 3000, 2000, tier=T, cost=60),
], "numbers of every digit string up to 3 digits in every component of v, vn and vt lines, also with exponents of -9 to 9; numbers of 7 to 41 digits with two free digits, to the last bit; any mix of the two line ends; 24 spellings of numbers around a free digit; up to 4 components too many; elements and faces in eight orders; lines of a free first word of up to 3 letters; names of up to 3 free characters between pieces of text, of up to 9000 characters, equal and empty names; indices of 1 to 10 digits, up to 2^32-1, in each place; faces with every index digit 1..4 in one corner (all nine in thorough), every face of two values, up to five faces; up to three objects, of which each brings 0 to 3 elements of each kind of its own; other lines with two free characters; any run of up to 3 blanks and tabs in any place; lines of up to 18000 characters with a free digit; files of 400 (3000) elements of each kind with one free corner; lines with 0 to 5 components; a vertex of up to 3, a face of up to 3 and a file of up to 4 arbitrary bytes", "longer numbers; faces without texture or normal index (the importer takes them for index 1)")
PROPS["C16"] = Prop([
    Job("h_obj_trip", 3, 2, cost=3), Job("h_obj_trip", 3, 3, tier=T, cost=60), Job("h_obj_trip", 0, 2), *[Job("h_obj_multi", c, 2, cost=5) for c in range(3)], Job("h_obj_values", cost=12), Job("h_obj_shape", covers=(1, 2)), Job("h_obj_shapes", 0, 3), Job("h_obj_shapes", 4, 8), *[Job("h_obj_name", n, 1, k) for n in (1, 2, 3) for k in range(5)], *[Job("h_obj_name_long", n) for n in (255, 256, 1000)],
], "three corners with all indices free over two elements (three in thorough), two meshes with a point cloud before or between, all triples of sixteen special coordinates (signed zeros, subnormals, the largest float, many digits), all combinations of absent, empty and unequal index arrays, and two meshes of any of 36 combinations of shapes, read back by an independent parser; names of up to 3 free characters between pieces of text", "coordinates other than the sixteen")
PROPS["C17"] = Prop([
    Job("h_tri_any", 3, 1, feat=True), Job("h_tri_any", 4, 1, feat=True), Job("h_tri_any", 5, 1, feat=True, cost=5), Job("h_tri_any", 3, 2, feat=True, cost=10), Job("h_tri_any", 6, 1, feat=True, tier=T, cost=30),
    *[Job("h_tri_convex", n, o, feat=True) for n in (3, 4, 5, 6, 7, 8) for o in (0, 1)], *[Job("h_tri_opaque", n, feat=True, opaque=True, cost=n) for n in (4, 5, 6)], Job("h_tri_opaque", 7, feat=True, opaque=True, tier=T, cost=60),
    Job("h_tri_mixed", feat=True, cost=12), *[Job("h_tri_dangling", n, feat=True, covers=(1, 2)) for n in (3, 4, 5, 6)],
    Job("h_tri_large", 9, 0, 8, feat=True), Job("h_tri_large", 17, 0, 16, feat=True, cost=2), Job("h_tri_large", 20, 0, 19, feat=True, cost=3), Job("h_tri_large", 40, 37, 39, feat=True), Job("h_tri_large", 100, 0, 0, feat=True, cost=5),
], "polygons of 4 to 6 (7) corners with every corner angle an arbitrary number in 0..pi or not a number; polygons of 3 to 5 corners on small grids; convex polygons of 3 to 8 of eight corners in both directions and three planes; convex polygons of 9 to 100 corners; three faces of 3 to 6 corners in one file", "larger polygons; that concave polygons are covered exactly (the ear choice only uses angles)", ["the arc cosine returns a number in [0, pi] or NaN (the only fact used about angles)"])
PROPS["C18"] = Prop([
    *[Job("h_access", k, n, a) for k in range(4) for n, a in ((0, 0), (1, 2), (3, 2), (0, 3))], *[Job("h_append_new", k, n) for k in range(4) for n in (0, 1, 5)], *[Job("h_append_full", k, b, a) for k in range(4) for b in (0, 1, 2, 4, 7) for a in range(6)],
    *[Job("h_buffer", k, n, l, covers=(1, 2)) for k in range(3) for n, l in ((1, 1), (2, 3), (3, 4), (3, 3), (4, 4), (4, 2))], *[Job("h_buffer", k, 1, 0, covers=(2,)) for k in range(3)], *[Job("h_cmem", a, b, c, covers=v) for a, b, c, v in ((0, 0, 0, (3,)), (0, 1, 1, (2, 3)), (1, 1, 1, (1, 2, 3)), (2, 2, 2, (1, 2, 3)), (3, 3, 3, (1, 2, 3)), (1, 2, 1, (1, 3)), (2, 1, 1, (2, 3)))], Job("h_access", 0, 20, 20, tier=T), Job("h_buffer", 0, 5, 6, tier=T, covers=(1, 2), cost=20),
], "up to 3 elements set and 3 appended, of arbitrary 32 bit contents, for the eight arrays; 0 to 5 arbitrary indices appended to absent and empty arrays and ones of up to 6 indices in meshes with all other arrays; buffers of up to 4 arbitrary indices into up to 4 elements; two custom arrays of free contents under names of 0 to 3 free characters, looked up by a free name", "longer arrays")
PROPS["C19"] = Prop([
    *[Job("h_normalize", 4, s, p) for s in range(7) for p in range(3)], Job("h_normalize_odd"),
], "vectors on a grid of 2^4 per axis at seven scales (5*10^-20 to 10^17), at each place of three; all triples of seven special components", "components between the grid points")
PROPS["C20"] = Prop([
    *[Job("h_sink_fail", t, a, a + 59, cost=3) for t in (0, 1) for a in range(0, 420, 60)], Job("h_sink_short", 0, cost=9), Job("h_sink_short", 1, cost=9), Job("h_source_short", 0, 0, cost=15), Job("h_source_short", 1, 0, cost=15), Job("h_source_short", 0, 1, cost=9),
    *[Job("h_source_fail", t, a, a + 79, 0, cost=3) for t in (0, 1) for a in range(0, 400, 80)], Job("h_source_fail", 0, 0, 200, 1, cost=2), *[Job("h_obj_sink", a, a + 59, cost=2) for a in range(0, 120, 60)],
    Job("h_fault_large", 20000, 700, cost=5), Job("h_fault_large", 9000, 5000, cost=2), Job("h_fault_large", 70000, 40000, cost=9), Job("h_fault_large", 70000, 9000, cost=9),
], "sinks and sources which fail after every number of bytes with six kinds of error or a zero length write, give or take 1..9 bytes per call, and interrupt any subset of the first 8 calls; one and two meshes with every kind of segment and a symbolic index; .obj import and export with failing flush; segments of 9 to 70 KB in pieces of 700 to 40000 bytes with one call interrupted", "larger files; interruptions after the eighth call")
PROPS["C21"] = Prop([
    Job("h_layout", 1, 0), Job("h_layout", 2, 1, cost=3), Job("h_layout", 0, 1), *[Job("h_meshes", n, 1) for n in (0, 1, 2)],
    *[Job("h_read_idx", 2, t, p, n) for t in SEGS for p, n in ((0, 3), (1, 3), (8, 2), (17, 2), (32, 2), (33, 2), (64, 1))],
    *[Job("h_read_vtx", 2, a, b, c, n) for a, b, c, n in ((1, 1, 1, 1), (12, 1, 1, 1), (1, 11, 2, 1), (3, 4, 5, 1), (2, 2, 2, 2), (4, 4, 3, 1))], *[Job("h_read_nrm", 2, p, n, t) for p, n in ((1, 1), (3, 1), (4, 1), (2, 1)) for t in (0, 1)], *[Job("h_read_uv", 2, p, n) for p, n in ((1, 1), (6, 1), (3, 2), (10, 1), (24, 0), (0, 2), (15, 1), (24, 1))],
    *[Job("h_read_custom", 2, k, p, n) for k, p, n in ((0, 9, 2), (1, 31, 1), (1, 3, 3), (2, 12, 1), (2, 5, 2), (3, 3, 1), (3, 1, 2))], Job("h_read_custom", 1, 1, 32, 1), Job("h_read_parts", 2),
    *[Job("h_lay_vtx", p, a, e) for p in range(5) for a in range(3) for e in range(4)], *[Job("h_lay_nrm", k, t, (k * 3 + t) % 8) for k in range(9) for t in (0, 1)], *[Job("h_lay_uv", k) for k in range(9)], *[Job("h_lay_custom", c, k) for c in range(4) for k in range(5)],
    *[Job("h_lay_idx", k, w, 12, 0 if w == 32 else 1000) for k in range(4) for w in (3, 9, 17, 25, 32)], Job("h_lay_idx", 0, 13, 200, 70000), Job("h_lay_idx", 2, 20, 150, 5),
    *[Job("h_lay_read_nrm", 2, p, 5, q, t) for p in (5, 7, 10, 13, 20, 24, 31, 40) for q in (0, 1, 2, 5, 7) for t in (0, 1)], *[Job("h_lay_read_unit", 2, k, p, 6, q) for p in (5, 8, 13, 17, 24, 30, 31, 33, 40) for k in range(3) for q in range(3)],
    *[Job("h_lay_read_vtx", 2, *p, a, a) for p in ((13, 14, 15), (20, 9, 31), (33, 17, 5), (24, 24, 24), (40, 40, 40), (8, 16, 32)) for a in range(3)],
    Job("h_read_nrm", 2, 6, 1, 1, tier=T, cost=40), Job("h_read_nrm", 2, 5, 1, 0, tier=T, cost=40), Job("h_read_idx", 2, 2, 24, 4, tier=T, cost=9),
], "the writer's bytes are parsed by an independent description of version 0.2 (all segment kinds, symbolic contents); the reader is given payloads built from that description, with every stored value free: index arrays at 0..64 bits, vertices at up to 12 bits, normals and tangents at up to 4 (6) bits, UVs at up to 24, custom data of the four kinds; at nine precisions of each kind from useless to single precision the stored form is decoded with one value free on a grid; stored values of 5 to 40 bits with the low 5 or 6 bits free under several patterns", "stored values of more bits than listed; long arrays")
PROPS["C22"] = Prop([
    *[Job("h_unknown", m, l) for m in range(3) for l in (0, 1, 5, 40)], *[Job("h_unknown_large", m, l) for m in (0, 2) for l in (255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 16384, 65535, 65536, 70000)],
], "any type code the format does not define (all 8 bit and, in the old layout, all 16 bit codes), payloads of up to 40 arbitrary bytes, four compression codes, between known segments; payloads of 255 to 70000 bytes of which three are free", "longer payloads")
PROPS["C23"] = Prop([
    *[Job("h_hist", f, 2, 0, 2, cost=16) for f in range(9)], *[Job("h_hist", f, 2, 1, 2, cost=40 if f == 3 else 16) for f in range(10)],
    *[Job("h_hist", f, 1, 0, 5, cost=9) for f in range(9)], *[Job("h_hist", f, 3, 0, 1, cost=25) for f in (0, 3)], *[Job("h_hist", f, 3, 1, 2, tier=T, cost=200) for f in range(10)], *[Job("h_hist", f, 2, 0, 5, tier=T, cost=60) for f in range(9)],
], "every sequence of three operations (four for some first operations, all in thorough) out of ten (reorder, unify, normalise, save and load, append a face whose corners differ by kind, append a much smaller face, clone, append unused elements, take out and put back, export to .obj and import) on a mesh of two faces of the four kinds, with two corners free in two kinds each, one free coordinate on a grid of 2^6, free custom data; the state is checked after each operation",
 "longer histories; meshes of other shapes in histories (see C13, C14 for single operations on those)")
PROPS["C24"] = Prop([
    *[Job("h_sound_nrm", p, f) for p, f in ((1, 1), (2, 2), (3, 3), (4, 4), (7, 4), (9, 4), (13, 4), (20, 4), (24, 4), (25, 4), (40, 4), (63, 4))], *[Job("h_sound_uv", p) for p in (0, 1, 2, 3, 8, 14, 23, 24, 25, 32, 40, 53, 63)],
    *[Job("h_sound_nrm_z", p, a, cost=60, query_timeout=300000) for p in (7, 12) for a in range(4)], *[Job("h_sound_nrm_z", 24, a, cost=60, query_timeout=300000) for a in (1, 2)], *[Job("h_sound_nrm_z", p, a, tier=T, cost=60, query_timeout=900000) for p in (9, 10, 11, 13, 16, 31) for a in range(4)], *[Job("h_sound_nrm_a", p) for p in (5, 8)], Job("h_sound_nrm_a", 11, cost=25), Job("h_sound_nrm_a", 13, tier=T, cost=60), Job("h_sound_empty", 0, 5, cost=4),
    *[Job("h_sound_box", a, n, s) for a in range(3) for n in (0, 1) for s in range(3)],
    *[Job("h_sound_save", w, 1, f) for w in (0, 1) for f in range(6)], *[Job("h_sound_save", w, 2, f, cost=9) for w in (0, 1) for f in (0, 2, 5)], *[Job("h_sound_save", w, 2, f, cost=9, tier=T) for w in (0, 1) for f in (1, 3, 4)],
    *[Job("h_sound_nrm", p, 6, tier=T, cost=3) for p in (6, 7, 9, 13, 20, 24, 25, 40, 63)],
], "stored normals and tangents of 1 to 63 bits with the lowest 4 bits (6 in thorough) of both angles free and the others all 0 or all 1, all octants; heights free in all of 7, 12 or 24 bits (9 to 31) at four angles, angles free in all of 5 to 11 (13) bits at four heights; stored UVs of 0 to 63 bits of any value; all 1296 combinations of absent, empty and used arrays; boxes which begin or end near zero; a mesh of all kinds with a free index and free coordinates on a grid of 2^3, saved at any of 6 x 6 precisions (from useless to finer than single precision) of two kinds, twice in a row",
 "the build with fast_trig, whose normals are less accurate; stored normals whose upper bits are mixed")
PROPS["C25"] = Prop([
    *[Job("h_small_idx", k, n, cost=3) for k in range(4) for n in (1, 2)], *[Job("h_small_idx", k, 3, cost=30) for k in (0, 2)], *[Job("h_small_idx", k, 3, cost=30, tier=T) for k in (1, 3)],
    *[Job("h_small_long", k, n, b, q, cost=3) for k, n, b, q in ((0, 40, 7, 3), (1, 64, 9, 63 - 8), (2, 100, 12, 30), (3, 33, 5, 16), (0, 17, 16, 9), (0, 9, 31, 4))],
    *[Job("h_small_data", k, 0, 2) for k in range(3)], *[Job("h_small_vtx", p) for p in range(4)], *[Job("h_small_rad", k, 0, 12) for k in range(2)], *[Job("h_small_equal", m, n, n - 1) for m in (3, 5, 6, 7) for n in (9, 100, 1025, 5000)],
    Job("h_small_equal", 7, 70000, 69999, cost=9),
], "index arrays of 1 to 3 arbitrary indices of each kind, and of 9 to 100 indices with one free; deviations of 1 to 256 times three units for normals, tangents and UVs; deviations in radians at 1024 places between each two powers of two; equal index arrays of 9 to 70000 elements; boxes with two free extents on grids of 2^6 and 2^4 at four precisions",
 "that splitting an array into segments saves space (the estimate the writer uses for the cost of a segment is too low by 12 bytes, so a split can enlarge the file by less than that), compression ratio of given models")
PROPS["C26"] = Prop([
    *[Job("h_ways_any", m, n, covers=(1, 2) if n >= 4 * m else (2,), cost=n) for m, n in ((1, 3), (1, 4), (1, 5), (2, 5))], Job("h_ways_any", 0, 3), Job("h_ways_any", 1, 6, covers=(1, 2), tier=T, cost=15), Job("h_ways_any", 2, 8, covers=(1, 2), tier=T, cost=60),
    *[Job("h_ways_damaged", k, a, a + 39, cost=4) for k in (1, 2, 3) for a in range(0, (320, 360, 400)[k - 1], 40)], Job("h_ways_damaged", 0, 0, 19),
    *[Job("h_ways_seg", t, n, covers=c) for t, n, c in ((3, 10, (1, 2)), (9, 10, (1, 2)), (5, 12, (1, 2)), (2, 19, (1, 2)), (4, 20, (1, 2)), (6, 18, (1, 2)), (10, 19, (1, 2)), (25, 20, (1, 2)), (15, 21, (1, 2)), (24, 23, (1, 2)), (16, 28, (1, 2)), (23, 14, (1, 2)))],
    *[Job("h_ways_save", w, l, cost=15) for w, l in ((1, 2), (6, 1), (15, 0))], *[Job("h_ways_save", w, l, cost=15, tier=T) for w, l in ((15, 3), (2, 2), (4, 2), (8, 2))], *[Job("h_ways_setting", k) for k in range(4)], *[Job("h_ways_stream", n) for n in range(4)],
    *[Job("h_ways_obj", n) for n in range(4)], *[Job("h_ways_obj_text", k, n, covers=(1, 2), cost=5) for k in (0, 1) for n in (1, 2, 3)], *[Job("h_ways_obj_text", k, 4, covers=(1, 2), cost=60, tier=T) for k in (0, 1)],
], "files of 0 to 3 meshes cut at every place, or with any byte replaced by an arbitrary one (but the ones which frame what follows); 3 to 6 (8) arbitrary bytes behind the header; payloads of arbitrary bytes of two elements of every kind; meshes of free kinds before and after a mesh with a free index and name; 6 x 6 values of each of the four settings with three values of the others; two files in one stream, read by the one or the other way; .obj texts of up to 3 (4) arbitrary bytes, alone or after a mesh",
 "the multi-threaded build; declared counts which make the reader reserve more than 64 MB")
