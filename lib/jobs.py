"""The symbolic jobs behind every property: `harness args...`, run by the engine; see DESIGN.md."""
import os
import re

ASSUMPTIONS = [
    "the IR that rustc emits (opt-level 0, overflow checks on) and LLVM's O1 passes preserve the crate's behaviour",
    "allocation never fails; the allocator and libc string functions are modelled by the engine",
    "Z3, the engine and its byte-domain and interval layers are right (sampled answers are cross-checked with Z3, sampled paths are replayed natively)",
]


def J(name, *ranges):
    """All combinations of the argument lists."""
    out = [name]
    for r in ranges:
        if isinstance(r, int):
            r = [r]
        out = ["%s %d" % (o, x) for o in out for x in r]
    return out


R = range
PROPS = {}


def prop(id, quick, thorough=(), bounds="", **kw):
    PROPS[id] = dict(quick=list(quick), thorough=list(thorough), bounds=bounds, **kw)


prop("C01",
     J("h_total", 12, R(6)) + J("h_total", [0, 1, 2, 5, 6, 7, 9, 10, 11], R(6)) + J("h_total", 14, [0, 2, 3, 4])
     + J("h_total_body", 6, R(6), R(6), 0) + J("h_total_body", 3, R(6), R(5), 3) + J("h_total_body", 3, R(5), 5, 3)
     + J("h_total_large", [70, 300], R(6)) + J("h_total_scale", [70, 300], [0, 1, 2, 3], R(6)) + J("h_total_scale", 300, [4, 5], [0, 3])
     + J("h_total_scale", 66000, 0, [0, 1, 5]) + J("h_total_scale", 66000, 1, [1, 4]) + J("h_total_scale", 66000, 3, 3) + J("h_total_scale", 6000, 2, 2),
     J("h_total_body", 1, 5, 5, 3) + J("h_total", [13, 14], R(6)) + J("h_total", [16, 18], [0, 2, 3, 4, 5]) + J("h_total", 16, 1)
     + J("h_total_body", [8, 10], R(6), R(6), [0, 5]) + J("h_total_large", [66000], [4, 5]) + J("h_total_large", 1500, R(6)) + J("h_total_scale", [1100, 66000], R(6), R(6)),
     "every byte string up to 14 bytes (thorough 18), every frame body up to 6 (10) symbolic bytes behind each message of interest, demos of 70 and 300 (66000) frames with a symbolic byte")
prop("C05",
     J("h_prints_raw", [0, 1, 6, 9, 10, 11, 13]) + J("h_prints_body", 8, R(5)) + J("h_prints_list", [1, 2, 3], 3)
     + J("h_prints_long", [255, 256, 300], 5) + J("h_prints_long", 66000, 1) + J("h_prints_long", 3, 300)
     + J("h_prints_many", [17, 33, 65, 70, 129, 257, 300, 1100], [1, 3], [1, 2]) + J("h_prints_many", 66000, 2, 1),
     J("h_prints_raw", [15, 17, 19]) + J("h_prints_body", [10, 12], R(5)) + J("h_prints_list", [4, 5], 2) + J("h_prints_list", 3, 6) + J("h_prints_long", 40, 1200),
     "every byte string up to 13 bytes (thorough 19), every frame body of 8 (12) bytes, lists of up to 3 (5) prints of up to 3 (6) arbitrary bytes, contents of up to 66000 bytes with one symbolic byte, 300 (1200) prints")
prop("C06",
     J("h_prefix", R(0, 7), R(4)) + J("h_prefix", [9, 11], R(4)) + J("h_cut", R(0, 30, 3), R(4), [0, 1, 4]) + J("h_size", R(4), R(5))
     + J("h_step", 1, 3, R(4)) + J("h_step", 2, 0, [0, 3]) + J("h_step_large", [255, 256, 300, 65535, 66000], R(5), 0),
     J("h_prefix", [12, 13, 14, 15], R(4)) + J("h_cut", R(0, 40), R(4), R(5)) + J("h_step", 1, 6, R(4)) + J("h_step", 2, 1, R(4)) + J("h_step_large", [255, 256, 300, 65535, 66000, 200000], R(5), R(4)),
     "tails of up to 11 (thorough 15) arbitrary bytes, every cut of a frame, every 32 bit announced size, one frame of any kind with any body of up to 3 (6) bytes in front and two with up to 0 (1), bodies of up to 66000 (200000) bytes")
prop("C07",
     J("h_demo_raw", [0, 1, 2, 3, 5, 6, 7, 8, 10]) + J("h_demo_marks", [1, 2, 3], R(0, 16), 0) + J("h_demo_marks", 3, R(16, 64, 5), [0, 7, 16]) + J("h_demo_long", [100, 400, 3000]) + J("h_far", [300, 5000, 70000], R(3), [0, 1, 3]),
     J("h_demo_raw", [11, 12, 13]) + J("h_demo_marks", 4, R(0, 256, 3), [0, 5, 10, 16]) + J("h_demo_long", [20000]),
     "every byte string up to 10 (thorough 13) bytes; 1 to 4 frames with two symbolic durations and every placement of both end markers; demos of up to 3000 (20000) frames")
prop("C08",
     J("h_seek", 3, R(0, 4), R(0, 4), [0, 8, 16, 24]) + J("h_seek", 3, 1, 2, R(1, 6)) + J("h_seek", 3, 3, 3, R(1, 6)) + J("h_seek", 3, 2, 0, [1, 2, 4, 10])
     + J("h_seek_two", 5, [0, 1, 2], [2, 3, 4, 9], [52, 53, 54, 55]) + J("h_seek_two", 5, 1, 3, R(0, 52, 4)) + J("h_seek_two", 4, 9, 9, [52, 55]) + J("h_far", [200, 2000, 70000], R(3), [0, 1, 2]),
     J("h_seek", 5, R(0, 6), R(0, 6), [m + 8 * s for m in range(6) for s in range(0, 6, 2)]),
     "3 (thorough 5) frames, the match start announcement and the end marker in every frame or none, any of 6 mode settings, one frame of any duration")
prop("C13",
     J("h_ping_raw", [0, 6, 10, 11, 14, 18, 20]) + J("h_ping_body", [3, 4, 6, 10, 11], R(5)) + J("h_ping_frames", [1, 2, 7, 8, 9, 10], [0, 6, 7, 8], [0, 4])
     + J("h_ping_avg", 3, [1, 2]) + J("h_ping_avg", [8, 9], 1) + J("h_ping_frames", 300, 2, 0) + J("h_ping_many", [300, 600], 1, [0, 1]) + J("h_ping_many", 66000, 1, 1),
     J("h_ping_raw", [22, 24, 27]) + J("h_ping_body", [13, 17, 18], R(5)) + J("h_ping_frames", [9, 12], R(0, 12), [0, 2, 6]) + J("h_ping_avg", [3, 4, 8], 3) + J("h_ping_many", [257, 1000, 3000], [1, 2, 3], [0, 1]),
     "every byte string up to 20 (thorough 27) bytes, every frame body with up to 12 (19) symbolic bytes, up to 300 sampled frames of two arbitrary players with other frames in between")
NOB = 66
prop("C14",
     J("h_obit", R(NOB), [1], [2]) + J("h_obit", R(NOB), 2, 0) + J("h_obit", R(0, NOB, 5), [0, 3], 1) + J("h_obit", [0, 17, 28, 30, 36, 37], 20, 31)
     + J("h_obit_level", R(0, NOB, 3), [0, 1], [0, 1]) + J("h_obit_level", [0, 28, 36, 40], 2, R(5)) + J("h_obit_sum", 2, 1, 0, R(4)) + J("h_obit_many", [5, 40], [0, 28, 35, 45])
     + J("h_obit_many", 300, [0, 28, 45]) + J("h_obit_none", [0, 2], R(8)) + J("h_obit_long", [0, 17, 28, 30, 36, 38, 50], 31, [31, 100]),
     J("h_obit", R(NOB), [0, 2, 3], [1, 2]) + J("h_obit", R(0, NOB), 31, 9) + J("h_obit_level", R(NOB), [0, 1, 2], R(5)) + J("h_obit_sum", 3, 1, 1, R(4)) + J("h_obit_sum", 2, 2, 2, R(4))
     + J("h_obit_many", [300], [0, 28, 35, 45]) + J("h_obit_none", [3], R(8)),
     "every obituary text with names of 0 to 2 (thorough 3) arbitrary bytes and long names with two symbolic bytes, every level byte, 2 (3) obituaries of two arbitrary players, up to 300 kills of one player")
prop("C15",
     J("h_teamkill", R(6), [1, 3], [1, 5], 0) + J("h_teamkill", 0, [2, 4], [0, 1], [0, 1, 2, 3]) + J("h_teamkill_two", R(6), [0, 3, 4])
     + J("h_teamkill", R(0, 6, 2), 3, [1, 4], [4, 8, 12, 60]) + J("h_teamkill_far", [4, 12, 33], [0, 2], [1, 3], R(0, 16, 3)) + J("h_teamkill_far", 40, [0, 35], [33, 34, 39], [0, 5, 10, 15]),
     J("h_teamkill", R(6), [1, 2, 3, 4, 5], [0, 1, 4, 5], R(4)) + J("h_teamkill_two", R(6), R(0, 6)) + J("h_teamkill_far", [16, 32, 40, 64], [0, 5, 15], [1, 3, 10], R(16)) + J("h_teamkill", 1, 4, R(8), R(0, 64, 5)),
     "four clients with arbitrary teams, any player number in the frag updates of the obituary frame and up to 4 (thorough 5) later ones; two team kills in a demo")
prop("C16",
     J("h_flag1", R(14), [0, 1, 3], [0, 1]) + J("h_flag1", R(0, 14, 3), [20, 31], [0, 1]) + J("h_flag_level", R(14)) + J("h_flag_sum", 2, R(0, 14, 2), 1) + J("h_flag_many", [5, 40], R(0, 14, 3), [1, 3])
     + J("h_flag_many", 300, [0, 8], [7, 300]) + J("h_flag_none", 2, R(5)) + J("h_flag_split_level", R(6), [0, 2]),
     J("h_flag1", R(14), [2, 4, 5, 20, 31], [0, 1]) + J("h_flag_sum", 3, R(0, 14), 1) + J("h_flag_sum", 2, R(14), 2) + J("h_flag_many", 300, R(14), [1, 2, 7]) + J("h_flag_none", 4, R(5)),
     "each of the 14 event texts, whole or split, with names of up to 3 (thorough 5) arbitrary bytes or 31 with two symbolic ones; 2 (3) events of two arbitrary players in any frame layout; up to 300 events")
prop("C02",
     J("h_meta_total", [0, 1, 10, 12, 14, 17], R(10)) + J("h_meta_tail", [0, 1, 3], R(9), [0, 1, 4], 0) + J("h_meta_tail", [0, 2], [2, 3, 4, 5, 8], [0, 2, 5, 6], [0, 1])
     + J("h_meta_tail", 2, [0, 1, 9], [3, 4, 7], [1240, 1262, 1263, 1264, 1270]) + J("h_meta_tail", 5, [2, 6], R(9), 0) + J("h_meta_tail", 3, [7, 8], R(9), 0)
     + J("h_meta_window", [480, 490, 495, 496, 500, 503, 504, 505, 511, 512], [100, 600], [2, 3], 0) + J("h_meta_window", [0, 300, 1200], [0, 2000], [0, 2], [0, 1])
     + J("h_meta_front", [0, 1, 2], R(10), R(8), [0, 1, 2]) + J("h_meta_front", 4, R(10), R(8), 1),
     J("h_meta_total", [18, 20, 24], R(10)) + J("h_meta_tail", 4, R(10), R(9), [0, 1]) + J("h_meta_tail", 5, R(9), R(9), 0) + J("h_meta_window", R(470, 520, 2), [100, 600], [2, 3, 4, 8], 0),
     "every byte string up to 17 (thorough 24) bytes; each marker at the start, after one byte or at the edge of the search window, followed by up to 5 arbitrary bytes and the end of the data")
prop("C09",
     J("h_si_raw", [0, 1, 2, 3], [0, 5], [0, 1]) + J("h_si_raw", 4, 0, 1) + J("h_si_marker", R(16), [0, 1]) + J("h_si_window", [300, 1270, 1278, 1279, 1280, 1281, 1282, 1400], [0, 1, 20], [0, 100])
     + J("h_si_window", [1280, 1281], 1200, [0, 1]) + J("h_si_setting", R(28), 1, R(3)) + J("h_si_setting", [2, 14, 15, 20], 2, R(3)) + J("h_si_text", [0, 1, 2], R(5)) + J("h_si_text", 3, 2),
     J("h_si_raw", 5, 0, [0, 1]) + J("h_si_setting", R(28), 2, R(3)) + J("h_si_setting", [2, 14, 20, 23], 3, 0) + J("h_si_text", [3, 4], R(5)) + J("h_si_window", R(1260, 1300), [0, 1, 2, 700, 1200], [0, 1, 100]),
     "every info text of up to 4 (thorough 5) bytes, every single-byte change of the marker, texts ending around the 1280 byte window, every setting with a value of up to 2 (3) arbitrary bytes among repeated and other settings")
prop("C10",
     J("h_ci_raw", [0, 1, 4, 7, 8, 9], R(8), R(3)) + J("h_ci_raw", [11, 14], [0, 1], [1, 2]) + J("h_ci_marker", R(10), [0, 1]) + J("h_ci_list", [1, 2, 3], [1, 3], [0, 9]) + J("h_ci_list", 3, 1, 200)
     + J("h_ci_len", [6, 7, 8, 100, 255, 256, 257, 258, 300, 500], [0, 1, 3]) + J("h_ci_dist", [100, 256, 257, 505, 506, 507, 508, 511, 512, 513, 514, 600], [0, 1])
     + J("h_ci_many", [16, 17, 24, 25, 32, 33, 60], [8, 40], [0, 60]) + J("h_ci_many", [24, 25, 33, 46, 47, 48, 49, 50, 60], [255, 256], [0]) + J("h_ci_many", [24, 25, 26, 30], 30, [400, 440, 460]),
     J("h_ci_raw", [10, 12, 13, 16, 18], R(8), R(3)) + J("h_ci_list", [4, 6], 3, [0, 9]) + J("h_ci_len", R(6, 270, 1), [0, 1, 2, 5]) + J("h_ci_dist", R(495, 520), [0, 1]) + J("h_ci_many", R(1, 64, 3), [8, 120, 250, 256], [0, 100, 200]),
     "up to 14 (thorough 18) arbitrary bytes behind the spawn command, every single-byte change of it, up to 3 (6) clients with 3 arbitrary bytes each, string lengths 6 to 500, distances around 512, up to 60 clients")
prop("C11",
     J("h_cl_field", R(12), [0, 1, 2], R(3), [0, 1]) + J("h_cl_field", R(2, 6), 3, 0, 0) + J("h_cl_text", [1, 2, 3], R(4)) + J("h_cl_many", [1, 5, 20, 32, 40], [0, 3, 4, 19]) + J("h_cl_many", [40, 64], [33, 39]) + J("h_cl_many", 130, 129) + J("h_cl_field", [0, 1, 6, 7], 3, 0, 1),
     J("h_cl_field", R(12), 3, R(3), [0, 1]) + J("h_cl_field", R(12), 4, 0, 0) + J("h_cl_text", [4, 5], R(4)) + J("h_cl_many", [24, 48, 64, 100, 200], [0, 9, 19, 99]),
     "each field with a value of up to 3 (thorough 4) arbitrary bytes, repeated before and after, in both orders; arbitrary text of up to 3 (5) bytes after the name; up to 130 (200) clients with different fields")
prop("C12",
     J("h_part", [0, 1], [1, 2]) + J("h_part", 2, 1) + J("h_part_names", 1, [1, 2], R(4)) + J("h_part_names", 2, 1, [0, 1]) + J("h_part_teams", 1, [1, 2], [0, 1]) + J("h_part_teams", 0, 2, R(4))
     + J("h_part_many", [3, 16, 24, 32], [1, 5, 7]) + J("h_part_many", 40, [3, 5]) + J("h_part_bots", R(9), [0, 2]),
     J("h_part", 2, 2) + J("h_part", [0, 1], 3) + J("h_part", 3, 1) + J("h_part_names", 1, 3, [0, 5]) + J("h_part_names", 2, 2, R(4)) + J("h_part_teams", [1, 2], 2, R(4)) + J("h_part_many", [25, 40, 64], R(1, 12)) + J("h_part_many", 100, [1, 7]),
     "spectator marks of up to 2 (thorough 3) arbitrary bytes and bot marks of one, names and teams with up to 2 arbitrary bytes among equal, recoloured and recased ones, up to 40 (100) clients")
prop("C24",
     J("h_st_parts", [0, 1000, 1023, 1024, 1025, 3000], R(16), 0) + J("h_st_parts", 1024, 7, R(1, 15)) + J("h_st_parts", 1100, [3, 5, 6, 15], [1, 3, 12]) + J("h_st_raw", [0, 1, 11, 12, 13, 15, 17])
     + J("h_st_text", 0, R(35), [0, 1, 2], [0, 4]) + J("h_st_text", [1, 2], R(17), R(3), [0, 4, 3000]),
     J("h_st_raw", [20, 24, 30, 36]) + J("h_st_parts", R(1000, 1060), R(16), [0, 1, 2]) + J("h_st_text", [0], R(35), R(3), [1, 3000, 70000]) + J("h_st_text", [1, 2], R(17), R(3), [1, 70000]),
     "every byte string up to 17 (thorough 36) bytes; demos of 0 to 3000 bytes with every combination of parts and an arbitrary byte among the last; every single-byte change of every marker text")
prop("C03",
     J("h_stats_total", [0, 1, 11, 12, 17, 20, 21], R(6)) + J("h_stats_total", 30, [0, 1, 4]) + J("h_stats_head", [1, 2], R(6), [10, 11], R(3)) + J("h_stats_head", 1, [0, 2], [0, 1, 2, 9], 0) + J("h_stats_head", 3, [0, 2], 10, 2)
     + J("h_stats_two", [0, 4, 10, 12], R(6)) + J("h_stats_json", [1, 2], R(1, 5), R(5)) + J("h_stats_json", 3, 2, R(5)) + J("h_stats_big", [1, 2, 3, 4, 8], [0, 1]) + J("h_stats_msgs", 1, [2, 3, 5]) + J("h_stats_msgs", 2, 3) + J("h_wide_texts", [15, 16, 31, 32, 63, 64, 100, 300], [0, 1, 2], [2, 3, 4]),
     J("h_stats_total", [32, 36, 40], 0) + J("h_stats_total", [22, 23, 24], R(6)) + J("h_stats_head", 3, R(6), 10, R(3)) + J("h_stats_head", 4, [1, 2], 10, 2) + J("h_stats_two", [14, 18], R(6)) + J("h_stats_json", [3, 4], R(1, 5), R(5))
     + J("h_stats_big", [16, 33], [0, 1]) + J("h_stats_msgs", 2, [2, 5]) + J("h_stats_msgs", 3, 3),
     "every byte string up to 30 (thorough 40) bytes; arbitrary block headers around 1 to 3 (4) arbitrary bytes of text, a second block of up to 12 (18) arbitrary bytes; up to 3 (4) arbitrary bytes in place of a JSON value; up to 8 (33) players with extreme or arbitrary scores, pings and colours")
prop("C04",
     J("h_date_total", [0, 1, 2, 9, 10, 12, 14], R(7)) + J("h_date_text", [1, 2, 3], R(7), [0, 5, 11, 17, 20], [0, 1, 2]) + J("h_date_text", 2, [1, 2], [3, 8, 14, 19, 22, 24], [0, 2]) + J("h_date_text", 5, [0, 3], [0, 20], 1)
     + J("h_date_epoch", [0, 1, 2], 2, R(4)) + J("h_date_dur", [0, 1, 2], [4, 5], R(7)) + J("h_date_large", [100, 3000], R(7)),
     J("h_date_total", [16, 18], R(7)) + J("h_date_text", 3, [1, 2], R(25), [0, 2]) + J("h_date_text", 4, [1, 2], [10, 19, 20], [0, 2]) + J("h_date_epoch", 3, 2, R(4)) + J("h_date_dur", 3, [4, 5], R(1, 7)) + J("h_date_large", [20000], R(7)),
     "every byte string up to 14 (thorough 18) bytes; up to 3 (4) arbitrary bytes at any place of a date text, at the end of the data or not; up to 2 (3) in place of epochs and durations; demos of up to 3000 (20000) frames of the greatest length")
prop("C17",
     J("h_kx_one", [0, 1, 4, 8], [0, 3], [0, 5, 10]) + J("h_kx_blocks", [1, 2], 3, [0, 1, 9]) + J("h_kx_blocks", 3, 2, [0, 1, 2, 9]) + J("h_kx_cut", R(0, 40), 20, [0, 1]) + J("h_kx_cut", R(0, 14), 14, [0, 1, 7])
     + J("h_kx_cut", R(0, 12), 9000, [1]) + J("h_kx_large", [300, 3000, 8084, 66000], [1, 2, 3]) + J("h_kx_large", 300, [10, 40, 300]) + J("h_kx_marker", [0, 5, 9, 10, 11, 17, 18, 30], R(13)),
     J("h_kx_one", [16, 40, 100], [0, 3, 9], [0, 5]) + J("h_kx_blocks", 2, 6, [0, 1, 9]) + J("h_kx_blocks", 4, 2, [0, 1, 3, 9]) + J("h_kx_cut", R(0, 200, 3), 100, [0, 1]) + J("h_kx_large", 1000, [5, 500, 1000]) + J("h_kx_large", 2000000, [2]),
     "any size, kind and number of a block of up to 8 (thorough 100) arbitrary bytes or of one of up to 3 (4) blocks, every cut of the data, blocks of up to 66000 (2000000) bytes, up to 300 (1000) blocks, every single-byte change of the marker at the start of the data and later")
prop("C18",
     J("h_pl_struct", [0, 1, 2], [0, 1, 2], [0, 1]) + J("h_pl_struct", 3, [0, 1], [0, 1, 2]) + J("h_pl_many", [8, 20, 21, 33], [0, 3, 7], [3, 7]) + J("h_pl_json", 1, R(8), [0, 1]) + J("h_pl_json", 2, [0, 1, 2, 3, 6, 7], [0]) + J("h_pl_empty", R(4)) + J("h_wide_texts", [0, 1, 16, 32, 64, 300], [0, 1], R(5)),
     J("h_pl_struct", 4, [0, 1], [0, 3]) + J("h_pl_struct", 3, 2, R(3)) + J("h_pl_many", [40, 64], [0, 9, 33], [1, 3, 7]) + J("h_pl_json", 2, [4, 5], 0) + J("h_pl_json", 3, [0, 6], 0),
     "up to 3 (thorough 4) players with arbitrary scores and names of up to 2 arbitrary characters, one with arbitrary ping, colours, login and bot entry; up to 33 (64) players with ties; up to 2 (3) arbitrary bytes in any JSON field of a player")
prop("C19",
     J("h_join", R(16), 27, 3, 1) + J("h_join", [0, 5], [0, 27, 228], [0, 2, 3, 4], [2, 12]) + J("h_join", [0, 3, 10], 228, 4, [1, 5, 10]) + J("h_join_many", [1, 2, 5, 8, 20, 32, 33], [1, 3], [3, 7]) + J("h_join_many", [64, 100], 35, 7) + J("h_join", R(0, 16, 5), 27, 3, [16, 32, 18]) + J("h_join", 5, 228, 4, 16),
     J("h_join", R(16), [0, 27, 228, 255], R(5), [1, 2, 12]) + J("h_join", [0, 9, 10], 228, 4, [3, 15]) + J("h_join_many", R(1, 64, 3), [0, 1, 3, 5], [1, 3, 7]) + J("h_join", [0, 5], 228, 4, [16, 48]),
     "four clients, every choice of spectators, names with one (thorough two) arbitrary bytes, up to 3 kills each, up to 4 pings of arbitrary numbers; up to 100 clients")
prop("C20",
     J("h_tm_group", [1, 2, 3], 1, [0, 1]) + J("h_tm_group", 2, 2, 0) + J("h_tm_frags", [1, 2, 3, 4, 8], [1, 2, 3], [0, 2]) + J("h_tm_frags", 8, 8, 3) + J("h_tm_frags", 40, 3, 0) + J("h_tm_ping", [1, 2], [1, 2], [8, 16], 0)
     + J("h_tm_ping", [1, 2, 4], 1, 32, [0, 1]) + J("h_tm_ping", [3, 5, 6, 7], 1, 8, [0, 1]) + J("h_tm_ping", 33, 1, 16, 0) + J("h_tm_ping", 3, 2, 8, 0) + J("h_tm_color", [1, 2, 3], [1, 2]) + J("h_tm_color", [4, 5, 6, 9], [2, 3]) + J("h_tm_color", 6, 5)
     + J("h_tm_large", [20, 100, 300], [1, 2, 3, 9], [1, 2, 3, 7]) + J("h_tm_large", 600, 3, [1, 300]) + J("h_tm_stats", [1, 2, 3, 4]),
     J("h_tm_group", 4, 1, [0, 1]) + J("h_tm_group", 3, 2, 0) + J("h_tm_ping", 3, [1, 2], 16, [0, 1]) + J("h_tm_ping", [4, 5, 8], 2, 8, 0) + J("h_tm_color", [7, 8], [4, 5, 6]) + J("h_tm_large", 1500, 4, [1, 3]) + J("h_tm_stats", 5),
     "up to 3 (thorough 4) team names with an arbitrary character, up to 8 arbitrary scores, arbitrary pings in teams of up to 7 and 33, arbitrary colours among up to 9 players, up to 600 (1500) players in up to 300 teams")
prop("C21",
     J("h_hash_teams", [1, 2, 3, 4], 4, R(4)) + J("h_hash_teams", 6, 4, [2, 3]) + J("h_hash_players", [2, 3], 2, R(3)) + J("h_hash_players", 4, 2, R(3)) + J("h_hash_players", 2, 3, 2) + J("h_hash_info", [3, 4, 5], [0, 1]),
     J("h_hash_teams", [4, 7], [5], R(4)) + J("h_hash_players", 3, 3, R(3)) + J("h_hash_info", [6, 7], [0, 1]),
     "every order of the first 4 (thorough 5) keys of each hash table for teams, 2 (3) for players and names, 5 (7) for settings; every public result of demos with up to 4 (6) tied clients or players")
prop("C22",
     J("h_ts_digits", [15 & 12, 48, 192, 240, 768, 3072, 12288, 15 & 3, 1536, 96], [0, 1, 4], [0, 1]) + J("h_ts_digits", [48, 192, 768], [2, 3, 5, 6, 7], [2, 4, 5]) + J("h_ts_digits", 15, 0, 0) + J("h_ts_digits", 240, [0, 4], 3) + J("h_ts_digits", 240, [1, 2], [6, 7])
     + J("h_ts_digits", 960, [0, 2, 5], [6, 7, 8, 9]) + J("h_ts_digits", 48, [0, 3], [10, 11]) + J("h_ts_byte", R(26), [0, 3], [0, 4, 10]) + J("h_ts_len", R(0, 60), [0, 1], [0, 1]) + J("h_ts_len", R(18, 30), [0, 1], [4, 9, 10]) + J("h_ts_marker", R(13), [0, 1]) + J("h_ts_epoch", [0, 1], R(6), R(3)) + J("h_ts_epoch", 2, R(1, 6), [0, 1]),
     J("h_ts_digits", [15, 60, 240, 960, 3840, 15360], R(8), R(10)) + J("h_ts_digits", [252, 1008], [0, 2], [0, 6]) + J("h_ts_epoch", 2, 0, R(3)) + J("h_ts_epoch", 3, [0, 1, 4], [0, 1]) + J("h_ts_len", R(60, 300, 7), [0, 1], R(4)),
     "every value of any two digits and of many groups of four digits of eight dates in twelve zones, every single-byte change, texts of 0 to 59 (thorough 300) bytes, every single-byte change of the marker, epochs with up to 2 (3) arbitrary bytes")
prop("C23",
     J("h_tz_entry", R(191), [0, 9]) + J("h_tz_entry", R(191), [1, 2]) + J("h_tz_entry", R(0, 191, 5), [3, 4]) + J("h_tz_any", [0, 1, 2, 3, 4], R(7)) + J("h_tz_any", 5, [0, 1]),
     J("h_tz_entry", R(191), [3, 4]) + J("h_tz_any", 5, R(2, 7)) + J("h_tz_any", 6, [0, 3]),
     "each of the 191 names as it is and with any one byte changed, every zone text of up to 5 (thorough 6) bytes")
prop("C25",
     J("h_sv_struct", [0, 1, 2], [8, 16, 17, 18, 19]) + J("h_sv_struct", 8, 8) + J("h_sv_json", [0, 1, 2], R(3)) + J("h_sv_json", 3, 2) + J("h_sv_json", 0, 3) + J("h_wide_texts", [0, 1, 15, 16, 33, 65, 130, 300], [0, 1, 2], R(5)),
     J("h_sv_struct", 20, [8, 16]) + J("h_sv_struct", 0, 32) + J("h_sv_json", 3, [0, 1]) + J("h_sv_json", 4, 2),
     "host names and addresses of up to 8 (thorough 20) arbitrary characters, every port up to 65755 and some ranges beyond (thorough: all), up to 3 (4) arbitrary bytes in the JSON fields")
prop("C26",
     J("h_du_text", [0, 1], R(8), R(4), 0) + J("h_du_text", [0, 1], [1, 5], R(4), [1, 2]) + J("h_du_text", 2, [0, 1, 2, 4], [0, 1, 3], 0),
     J("h_du_text", 2, R(8), R(4), R(3)) + J("h_du_text", 3, [0, 1, 2, 5], [0, 2], 0),
     "numbers of up to 2 (thorough 3) arbitrary bytes behind different starts, each mode, different places of the entry")


def more(id, quick, thorough=()):
    PROPS[id]["quick"] += quick
    PROPS[id]["thorough"] += list(thorough)


# long values, many pairs, markers in pieces and far behind other data
more("C09", J("h_si_long", [0, 1, 6, 9, 14, 15, 20], [16, 33, 64, 100, 300, 1000], [0, 2000], 0) + J("h_si_long", [20, 9], [40, 80], [8, 31, 32], [0, 200, 1100]) + J("h_si_many", [0, 10, 40, 63, 64, 70], [20, 9, 3], [0, 30], [0, 5]))
more("C11", J("h_cl_long", R(8), [5, 16, 32, 33, 64, 100, 200], [0, 15, 31, 300], [0, 1]) + J("h_cl_pairs", [0, 8, 20, 31, 40], R(8), [0, 20]))
more("C12", J("h_part_long", [8, 15, 16, 17, 32, 33, 64, 100], [0, 7, 15, 31, 200], [2, 5]))
more("C24", J("h_st_front", R(4), [0, 1, 2, 3], [0, 1, 5], [0, 1]) + J("h_st_several", R(16), [0, 1], [0, 10]))
more("C22", J("h_ts_far", [0, 100, 1300, 5000, 70000], R(5), [0, 3], [0, 3]))
more("C19", J("h_join_long", [8, 16, 31, 32, 33, 64, 100], [0, 7, 15, 31, 200], [1, 5, 16, 32]))
more("C20", J("h_tm_long", [4, 5, 16, 32, 33, 100], [2, 3, 5], [0, 3, 4, 15, 31, 200]))
# names and teams that differ by a character at an end or inside only
more("C14", J("h_obit_affix", [0, 17, 28, 30, 38, 60, 35], [1, 28, 40, 45, 62], 1), J("h_obit_affix", R(NOB), R(0, NOB, 3), 1) + J("h_obit_affix", [17, 28, 40], [1, 28, 45], 2))
more("C16", J("h_flag_affix", R(14), 1, [0, 1]) + J("h_flag_affix", R(0, 14, 4), 2, [0, 1]), J("h_flag_affix", R(14), 2, [0, 1]))
more("C12", J("h_part_affix", 1, R(6), [0, 5]) + J("h_part_affix", 2, [0, 4], 5), J("h_part_affix", 2, R(6), [0, 5, 9]))
more("C19", J("h_join_affix", R(3), [0, 2, 12], [0, 1]))
more("C18", J("h_pl_affix", R(3), R(3), [0, 1]))
more("C20", J("h_tm_affix", R(4), [0, 1]))
more("C21", J("h_hash_any", R(6), [2, 3, 4], [2, 3], 0) + J("h_hash_any", [6, 7, 8], [2, 3, 4], 2, 0) + J("h_hash_any", 6, 2, 3, 0) + J("h_hash_any", [7, 8, 9], [1, 2, 3, 4], 4, 1) + J("h_hash_any", 10, 3, 3, [0, 1]) + J("h_hash_any", [7, 8], 5, 5, 1),
     J("h_hash_any", R(6), 3, 4, 0) + J("h_hash_any", R(6), 5, 3, 0) + J("h_hash_any", [6, 7, 8], 5, 2, 0) + J("h_hash_any", [7, 8], 6, 6, 1))
more("C24", J("h_st_kind", R(7), [0, 1], R(6), [100, 1024, 2000]) + J("h_st_big", [1, 2, 4], [0, 1, 3, 255], [1000, 5000], [0, 1]) + J("h_st_big", 1, [0, 1], [70000, 300000], 1),
     J("h_st_kind", R(7), [2, 3], R(6), [100, 1024]) + J("h_st_big", [3, 4], [0, 1, 5, 255], [70000, 300000], [0, 1]))
more("C20", J("h_tm_color", 3, [1, 2, 3], R(1, 4)) + J("h_tm_color", [4, 5, 6, 7], [2, 3], R(1, 4)) + J("h_tm_color", 2, [1, 2], R(1, 4)) + J("h_tm_color", 1, 1, [1, 3]))
# whole words as names, teams, values and modes; frames with any duration, target and mask
more("C05", J("h_prints_frames", [1, 2, 3], R(5), [0, 4], [0, 3]), J("h_prints_frames", [4, 6], R(5), [0, 1, 2, 3], [2, 5]))
more("C08", J("h_seek_word", [3, 4, 9], R(3), R(3), [1, 5]) + J("h_seek_word", 4, 0, 1, [0, 1, 3]), J("h_seek_word", R(1, 13), R(6), R(3), [0, 1, 2, 3, 5]))
more("C09", J("h_si_word", [1, 2, 3], [3, 4, 5], [0, 2, 4, 5], [0, 1]) + J("h_si_word", [0, 6, 9, 14, 20], [4, 8], R(6), 0) + J("h_si_key", [3, 5, 8], R(6), [0, 1]),
     J("h_si_word", R(28), [3, 5], R(6), R(5)) + J("h_si_key", R(1, 13), R(6), [0, 1]))
more("C10", J("h_ci_word", [3, 5, 8], R(6), R(4)), J("h_ci_word", R(1, 13), R(6), R(4)))
more("C11", J("h_cl_word", R(2, 6), [3, 4], [0, 2, 4, 5], [0, 1]) + J("h_cl_word", [0, 1, 6, 7], [4, 8], R(6), [0, 1]) + J("h_cl_key", [3, 4, 8], R(6), [0, 1]),
     J("h_cl_word", R(2, 6), 5, R(6), [0, 1]) + J("h_cl_word", [0, 1, 6, 7, 8, 9, 10, 11], R(2, 13), R(6), [0, 1]) + J("h_cl_key", R(1, 13), R(6), [0, 1]))
more("C12", J("h_part_word", [3, 5, 7], R(6), [0, 1], [0, 2]), J("h_part_word", R(1, 10), R(6), [0, 1], [0, 2, 8]))
more("C13", J("h_ping_frames_any", [1, 2, 3], R(5), [0, 4]), J("h_ping_frames_any", [4, 6], R(5), R(4)))
more("C14", J("h_obit_word", [0, 17, 28, 30, 33, 40, 60], [4, 8], R(6), 0) + J("h_obit_word", [0, 17, 28, 30, 33, 40, 60], 3, R(6), 1) + J("h_obit_frames", [0, 20, 40], R(5), [1, 2], [0, 3]),
     J("h_obit_word", R(NOB), [3, 5], R(6), 0) + J("h_obit_word", R(NOB), 3, R(6), 1) + J("h_obit_frames", R(NOB), R(5), 2, [0, 1]))
more("C15", J("h_teamkill_word", [0, 3, 5], [3, 5], R(6), R(4)), J("h_teamkill_word", R(6), [2, 4, 8], R(6), R(4)))
more("C16", J("h_flag_word", R(14), [4, 8], R(6), [0, 1]) + J("h_flag_frames", [0, 5, 9], R(5), [1, 2], [0, 1]), J("h_flag_word", R(14), [2, 3, 5, 6], R(6), [0, 1]) + J("h_flag_frames", R(14), R(5), 3, [0, 1]))
more("C18", J("h_pl_word", [3, 5], R(3), R(3), 0) + J("h_pl_word", 3, R(3), R(3), 1), J("h_pl_word", [4, 5], R(3), R(3), 1) + J("h_pl_word", [7, 9], [0, 1, 2], R(3), 0))
more("C19", J("h_join_word", 3, R(6), R(4), [0, 3]) + J("h_join_word", 5, R(6), [1, 2, 3], [2]), J("h_join_word", 4, [2, 3, 5], 0, [1, 4]) + J("h_join_word", [2, 3], R(6), R(4), R(5)))
more("C20", J("h_tm_word", [3, 5, 8], [0, 1, 2, 4], [0, 1]), J("h_tm_word", R(1, 13), [0, 1, 2, 4], [0, 1]))
more("C22", J("h_ts_word", [1, 2, 3], R(4), [0, 1], 0) + J("h_ts_word", 10, R(3), [0, 1], [200, 203]) + J("h_ts_word", 11, [0, 1], [0, 1], 200) + J("h_ts_word", [10], R(3), 0, 7), J("h_ts_word", R(4, 12), R(4), [0, 1], [0, 2, 5]))
more("C25", J("h_sv_word", [4, 8], R(3), [0, 1]) + J("h_sv_word", [3, 5], 2, 2), J("h_sv_word", R(1, 16), R(3), [0, 1]))
more("C26", J("h_du_word", [1, 3, 4], 0, R(2)) + J("h_du_word", 3, 1, R(2)), J("h_du_word", 5, [0, 1, 2], R(2)) + J("h_du_word", 4, [1, 2], R(2)))
# frames and messages that are no events, before and between those that are
more("C05", J("h_prints_gap", 3, R(12), [1, 3], [0, 2]))
more("C13", J("h_ping_gap", 2, R(16), 1) + J("h_ping_gap", 9, R(16), 2))
more("C14", J("h_obit_gap", [0, 30], R(16), [1, 2]), J("h_obit_gap", R(NOB), R(16), [1, 5]))
more("C15", J("h_teamkill_gap", [0, 3], R(16), R(4), 0) + J("h_teamkill_gap", 5, R(11), [2, 3], 1), J("h_teamkill_gap", R(6), R(11), R(7), [0, 1]))
more("C16", J("h_flag_gap", [0, 5, 9], R(16), [1, 2], [0, 1]) + J("h_flag_around", R(0, 14, 3), R(8), R(1, 8), [0, 1]) + J("h_flag_name_parts", R(6), 4, [1, 3], [0, 2, 3]),
     J("h_flag_gap", R(14), R(16), [1, 5], [0, 1]) + J("h_flag_around", R(14), R(8), R(1, 8), [0, 1]) + J("h_flag_name_parts", R(6), 6, R(1, 6), R(6)))
# every combination of values and absent fields, each with seven jobs (one of seven numbers in each of them)
def C(name, n, *ranges):
    """n jobs that take the arguments from the ranges in turn, each at a pace of its own."""
    return ["%s %s" % (name, " ".join(str(r[(i * (2 * k + 1) + i // len(r) * k) % len(r)]) for k, r in enumerate(ranges))) for i in range(n)]


more("C12", C("h_part_combo", 14, [0, 31, 77, 7, 24, 330, 200], [100, 200, 3, 24, 72, 0, 359, 48], R(5), R(7)) + J("h_part_bot_at", [0, 3, 9, 15, 32], [0, 1, 5, 300, 2000], R(4)),
     C("h_part_combo", 70, R(0, 360, 11), R(0, 360, 7), R(5), R(7)) + J("h_part_bot_at", R(40), [0, 2, 9], R(4)))
more("C15", C("h_teamkill_combo", 14, [0, 100, 31, 7, 1, 24, 8], [0, 1, 7, 26, 72, 5, 300], R(6), [1, 0, 2, 3, 1]), C("h_teamkill_combo", 100, R(0, 360, 11), R(0, 360, 7), R(6), R(4)))
more("C16", J("h_flag_tail", R(14), R(4), [0, 1]), J("h_flag_tail", R(14), [4, 5, 6], [0, 1]))
more("C18", C("h_pl_combo", 40, R(0, 400, 7), R(3, 400, 11), R(4)), C("h_pl_combo", 800, R(400), R(0, 400, 3), R(4)))
more("C19", C("h_join_combo", 22, [0, 31, 77, 7, 24, 330, 200], [100, 200, 3, 24, 72, 0, 359], R(0, 64, 5), R(0, 32, 3)), C("h_join_combo", 140, R(0, 360, 11), R(0, 360, 7), R(64), R(31)))
more("C20", C("h_tm_combo", 60, R(0, 400, 7), R(3, 400, 11), [4, 3, 2, 4, 3, 1]), C("h_tm_combo", 800, R(400), R(0, 400, 3), [4, 3, 2]))
more("C22", C("h_ts_combo", 182, R(13), R(7), R(3), [0, 1]), J("h_ts_combo", R(13), R(7), R(3), [0, 1]))
# whole demos of 1500 bytes, in every combination of what they may contain
def K(n, salt):
    """n numbers of such demos: 16 bits, and a number that varies the texts."""
    return [(i * 7919 + salt * 977) % 65536 + ((i * 31 + salt) % 126 << 16) for i in R(n)]


for _i, _f in (("C05", [11]), ("C07", [15]), ("C08", [16, 17]), ("C09", [0, 1, 2]), ("C10", [3]), ("C11", [4]), ("C12", [5, 6, 7, 8, 9]), ("C13", [14]), ("C14", [12]), ("C15", [12]), ("C16", [13]), ("C17", [20]),
               ("C18", [21]), ("C19", [21]), ("C20", [22]), ("C22", [18, 19]), ("C24", [10]), ("C25", [23]), ("C26", [17])):
    more(_i, J("h_whole", _f, K(50, int(_i[1:]))) + C("h_whole_far", 12, _f, K(13, int(_i[1:])), [9000, 0, 70000, 1500], [5000, 70000, 0, 1200]),
         J("h_whole", _f, K(2000, 1)) + C("h_whole_far", 100, _f, K(101, 5), [9000, 0, 70000, 1500, 200000], [5000, 70000, 0, 1200]))
PROPS["C24"]["bounds"] += "; the texts up to 70000 (300000) bytes from either end"
more("C24", J("h_st_far", R(3), [0, 700, 5000, 70000], [0, 700, 5000, 70000], [0, 1]), J("h_st_far", R(3), [300000, 10], [300000, 10], [0, 1]))
more("C07", J("h_demo_front", R(9), R(4), [0, 1, 2], [0, 2]), J("h_demo_front", R(14), R(4), R(6), [0, 1, 3]))
more("C20", C("h_tm_crowd", 12, [256, 255, 257, 130, 300, 3], [1, 0, 2, 127, 128, 3], [256, 0, 30, 1, 500]), C("h_tm_crowd", 60, [256, 511, 512, 1000], [1, 2, 255, 256, 513], [0, 1, 255, 700]))
# results depend on the given data alone
prop("C27",
     C("h_pure_pair", 576, R(576), K(37, 2), K(41, 3), [1, 1, 0]) + C("h_pure_all", 24, K(29, 4), K(31, 5), [1, 0], [1, 5, 7, 11, 23])
     + ["h_pure_all %d %d %d %d" % (k, k ^ 1 << b, b & 1, [1, 5, 7, 11, 23][b % 5]) for k in K(4, 6) for b in R(16)] + J("h_pure_many", R(24), 40, 100),
     C("h_pure_pair", 576 * 8, R(576), K(301, 7), K(299, 8), [1, 1, 0]) + C("h_pure_all", 400, K(401, 9), K(403, 10), [1, 0], [1, 5, 7, 11, 13, 17, 19, 23])
     + ["h_pure_all %d %d %d %d" % (k, k ^ 1 << b, b & 1, [1, 5, 7, 11, 23][b % 5]) for k in K(40, 11) for b in R(16)] + J("h_pure_many", R(24), 300, [0, 1000]),
     "24 functions of the API (every one that reads a demo); every pair of them in turn on two demos of 1500 bytes (as different as can be, or different in one setting, text or event) with arbitrary letters, durations and pings, in the same and in different memory; all of them one after another on two demos and again on the first; each of them on 40 (thorough 300) demos in a row; one thread")
FR = "; frames with arbitrary duration, target and mask before and between, among them empty ones, ones without a message and ones of other messages and prints"
WD = "; names, teams and values of 3 to 9 entirely arbitrary letters (bytes of one class at a time)"
for _i in ("C05", "C13", "C14", "C16"):
    PROPS[_i]["bounds"] += FR
for _i in ("C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C18", "C19", "C20", "C25"):
    PROPS[_i]["bounds"] += WD
for _i, _t in (("C12", "three players"), ("C15", "the victim, the killer and two others"), ("C18", "three players"), ("C19", "three players"), ("C20", "up to four players")):
    PROPS[_i]["bounds"] += "; " + _t + ", one of them with every combination of absent, empty and present fields"
PROPS["C16"]["bounds"] += "; up to three arbitrary bytes behind the line of an event"
PROPS["C22"]["bounds"] += "; epochs of 1 to 11 digits with up to four of them arbitrary"
PROPS["C26"]["bounds"] += "; numbers of up to 4 (thorough 5) arbitrary digits, with sign, point or exponent"
for _i in ("C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C24", "C25", "C26"):
    PROPS[_i]["bounds"] += "; whole demos of 1500 bytes with 50 (thorough 2000) combinations of events, settings, statistics and marks; 12 (100) of them with up to 70000 (200000) bytes in between and behind"
# the first or last of several counts, whatever it is
more("C09", J("h_si_two", [0, 1, 2], [0, 1], [0, 5], [0, 200]) + J("h_si_two", 0, 1, [1100, 1216, 1217, 1218], 0), J("h_si_two", 3, [0, 1], [0, 5, 1000], [0, 255]) + J("h_si_two", [0, 1], [0, 1], R(1200, 1230), 0))
more("C10", J("h_ci_two", R(4), [0, 1, 3], [0, 40, 600], 0), J("h_ci_two", R(4), [2, 4, 5], [0, 480, 512, 3000], 0))
more("C22", J("h_ts_two", [0, 1], [0, 1, 3], 0, [0, 300]) + J("h_ts_two", 2, [1, 2, 3, 4], 0, 0) + J("h_ts_two", 3, 1, [0, 4, 5, 10, 13, 19, 20, 23], 0), J("h_ts_two", 3, 1, R(24), [0, 1000]) + J("h_ts_two", [0, 1], [2, 4], 0, 0))
more("C17", J("h_kx_two", R(5), [0, 1], [0, 100], 0), J("h_kx_two", R(5), [2, 3], [0, 5000], 0))
more("C26", J("h_du_two", [0, 1, 2], R(4), [0, 1], 0), J("h_du_two", 3, R(4), [0, 1], 0))
for _i, _t in (("C09", "server infos"), ("C10", "spawn commands"), ("C17", "statistics"), ("C22", "announcements"), ("C26", "duration entries")):
    PROPS[_i]["bounds"] += "; two " + _t + ", the deciding one empty, malformed or cut"
# two small cases of the other properties in a row, with arbitrary input each
N2 = int(re.search(r"N: usize = (\d+)", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/some.rs")).read()).group(1))
more("C27", ["h_pure_twice %d %d" % (i, k) for i in range(N2) for k in (i, (i + 1) % N2)] + C("h_pure_twice", 200, [i * 97 % N2 for i in range(N2)], [i * 89 % N2 for i in range(N2 - 1)]),
     C("h_pure_twice", 6000, [i * 61 % N2 for i in range(N2)], [i * 53 % N2 for i in range(N2 - 1)]))
PROPS["C27"]["bounds"] += "; about 370 small cases of the other properties with arbitrary input, each twice in a row, before its neighbour and before one of another property"
more("C15", J("h_teamkill_two", [0, 3], [0, 3], 1), J("h_teamkill_two", R(6), R(5), 1))
# the inputs of the other properties must not make any function panic, run forever or take too much memory either
def quiet(props, n, tier="quick"):
    """Up to n jobs of every harness of the properties, evenly spread; failed assertions do not count in them."""
    by = {}
    for p in props:
        for j in PROPS[p][tier]:
            by.setdefault(j.split()[0], []).append(j)
    return ["~" + l[len(l) * i // min(n, len(l))] for l in by.values() for i in range(min(n, len(l)))]
more("C01", quiet(["C05", "C06", "C07", "C08", "C13", "C14", "C15", "C16"], 20), quiet(["C05", "C06", "C07", "C08", "C13", "C14", "C15", "C16"], 100))
more("C02", quiet(["C09", "C10", "C11", "C12", "C24"], 20), quiet(["C09", "C10", "C11", "C12", "C24"], 100))
more("C03", quiet(["C17", "C18", "C19", "C20", "C25"], 14), quiet(["C17", "C18", "C19", "C20", "C25"], 100))
more("C04", quiet(["C07", "C08", "C22", "C23", "C26"], 20), quiet(["C07", "C08", "C22", "C23", "C26"], 100))
for _i in ("C01", "C02", "C03", "C04"):
    PROPS[_i]["bounds"] += "; the bounds of the properties that say what these functions return, up to 20 (thorough 100) inputs of each kind"
# names far longer than the game's own limit
more("C14", J("h_obit_long", [0, 17, 28, 36, 45, 50], [63, 128, 255, 300], [64, 257]) + J("h_obit_long", [28, 45], 1100, 1100), J("h_obit_long", R(NOB), [15, 16, 32, 64, 130, 260, 520, 1100], [31, 256]))
more("C15", J("h_teamkill_long", R(4), [15, 16, 31, 32, 64, 100], [2, 16, 33, 100]), J("h_teamkill_long", R(4), R(8, 120, 7), [3, 15, 31, 64]))
more("C16", J("h_flag1", R(14), [64, 127, 130, 256, 300, 1100], [0, 1]), J("h_flag1", R(14), [15, 16, 32, 100, 255, 512, 2100], [0, 1]))
PROPS["C16"]["bounds"] += "; names of 1100 bytes with two symbolic ones"
PROPS["C14"]["bounds"] += "; names of 1100 bytes with one symbolic one"
PROPS["C15"]["bounds"] += "; names and teams of 100 bytes"

NOT_APPLICABLE = {}
