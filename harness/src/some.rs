//! Small cases of the other properties, for two of them in a row (C27).
use crate::{dates, events, meta, stats, walk, words};

pub const N: usize = 369;
/// Case `i`: its input and its check.
pub fn case(i: usize) {
    match i {
        0 => words::prints_frames(1, 0, 0, 0),
        1 => words::prints_frames(2, 0, 0, 0),
        2 => words::prints_frames(3, 0, 0, 0),
        3 => words::prints_gap(3, 0, 1, 0),
        4 => words::prints_gap(3, 2, 1, 0),
        5 => words::prints_gap(3, 6, 1, 0),
        6 => walk::prints_list(1, 3, 0, 0),
        7 => walk::prints_long(255, 5, 0, 0),
        8 => walk::prints_long(256, 5, 0, 0),
        9 => walk::prints_long(3, 300, 0, 0),
        10 => walk::prints_many(1100, 1, 1, 0),
        11 => walk::prints_many(17, 3, 1, 0),
        12 => walk::prints_many(33, 1, 1, 0),
        13 => walk::prints_raw(0, 0, 0, 0),
        14 => walk::prints_raw(1, 0, 0, 0),
        15 => walk::prints_body(4, 0, 0, 0),
        16 => walk::prints_body(5, 0, 0, 0),
        17 => walk::cut(0, 0, 0, 0),
        18 => walk::cut(18, 1, 1, 0),
        19 => walk::cut(27, 2, 4, 0),
        20 => walk::prefix(11, 0, 0, 0),
        21 => walk::prefix(3, 2, 0, 0),
        22 => walk::prefix(5, 3, 0, 0),
        23 => walk::size(0, 0, 0, 0),
        24 => walk::size(1, 1, 0, 0),
        25 => walk::size(2, 2, 0, 0),
        26 => walk::step_large(255, 0, 0, 0),
        27 => walk::step_large(256, 3, 0, 0),
        28 => walk::step_large(65535, 1, 0, 0),
        29 => walk::demo_front(0, 2, 0, 2),
        30 => walk::demo_front(2, 2, 0, 0),
        31 => walk::demo_front(3, 3, 1, 0),
        32 => walk::demo_long(100, 0, 0, 0),
        33 => walk::demo_long(3000, 0, 0, 0),
        34 => walk::demo_long(400, 0, 0, 0),
        35 => walk::demo_marks(1, 0, 0, 0),
        36 => walk::demo_marks(2, 4, 0, 0),
        37 => walk::demo_marks(3, 31, 16, 0),
        38 => walk::demo_raw(2, 0, 0, 0),
        39 => walk::demo_raw(3, 0, 0, 0),
        40 => walk::demo_raw(5, 0, 0, 0),
        41 => walk::far(300, 0, 0, 0),
        42 => walk::far(300, 2, 0, 0),
        43 => walk::far(5000, 1, 0, 0),
        44 => walk::far(200, 0, 0, 0),
        45 => walk::far(200, 2, 0, 0),
        46 => walk::far(2000, 1, 0, 0),
        47 => walk::seek(3, 0, 0, 0),
        48 => walk::seek(3, 1, 0, 8),
        49 => walk::seek(3, 2, 0, 1),
        50 => walk::seek_two(5, 1, 3, 0),
        51 => walk::seek_two(5, 1, 3, 24),
        52 => walk::seek_two(5, 1, 3, 4),
        53 => words::seek_word(4, 0, 1, 0),
        54 => words::seek_word(4, 0, 1, 3),
        55 => words::seek_word(9, 0, 0, 1),
        56 => words::si_key(3, 0, 0, 0),
        57 => words::si_key(3, 3, 1, 0),
        58 => words::si_key(5, 3, 0, 0),
        59 => meta::si_many(0, 20, 30, 0),
        60 => meta::si_many(0, 9, 30, 0),
        61 => meta::si_many(10, 3, 30, 0),
        62 => meta::si_marker(0, 0, 0, 0),
        63 => meta::si_marker(13, 0, 0, 0),
        64 => meta::si_marker(4, 0, 0, 0),
        65 => meta::si_raw(1, 0, 0, 0),
        66 => meta::si_raw(0, 0, 0, 0),
        67 => meta::si_raw(0, 5, 0, 0),
        68 => meta::si_text(0, 0, 0, 0),
        69 => meta::si_text(0, 1, 0, 0),
        70 => meta::si_text(0, 2, 0, 0),
        71 => meta::si_window(1281, 1, 0, 0),
        72 => meta::si_window(1281, 1, 100, 0),
        73 => meta::si_window(1282, 20, 0, 0),
        74 => words::si_word(1, 3, 4, 1),
        75 => words::si_word(2, 3, 4, 1),
        76 => words::si_word(2, 4, 4, 1),
        77 => meta::si_two(1, 1, 0, 0),
        78 => meta::si_two(0, 1, 0, 0),
        79 => meta::ci_dist(100, 0, 0, 0),
        80 => meta::ci_dist(256, 1, 0, 0),
        81 => meta::ci_dist(505, 0, 0, 0),
        82 => meta::ci_len(100, 0, 0, 0),
        83 => meta::ci_len(257, 3, 0, 0),
        84 => meta::ci_len(500, 1, 0, 0),
        85 => meta::ci_list(1, 1, 0, 0),
        86 => meta::ci_list(1, 3, 9, 0),
        87 => meta::ci_list(3, 1, 0, 0),
        88 => meta::ci_many(16, 40, 0, 0),
        89 => meta::ci_many(24, 8, 0, 0),
        90 => meta::ci_many(32, 40, 60, 0),
        91 => meta::ci_marker(0, 0, 0, 0),
        92 => meta::ci_marker(3, 0, 0, 0),
        93 => meta::ci_marker(6, 0, 0, 0),
        94 => meta::ci_raw(1, 2, 0, 0),
        95 => meta::ci_raw(1, 4, 2, 0),
        96 => meta::ci_raw(7, 1, 1, 0),
        97 => words::ci_word(3, 0, 0, 0),
        98 => words::ci_word(5, 0, 0, 0),
        99 => words::ci_word(8, 0, 0, 0),
        100 => meta::ci_two(1, 1, 0, 0),
        101 => meta::ci_two(0, 1, 0, 0),
        102 => meta::cl_field(0, 1, 0, 1),
        103 => meta::cl_field(2, 1, 0, 0),
        104 => meta::cl_field(5, 1, 2, 1),
        105 => words::cl_key(3, 0, 1, 0),
        106 => words::cl_key(4, 0, 0, 0),
        107 => words::cl_key(4, 0, 1, 0),
        108 => meta::cl_long(0, 100, 0, 0),
        109 => meta::cl_long(2, 16, 300, 0),
        110 => meta::cl_long(5, 5, 300, 0),
        111 => meta::cl_many(1, 19, 0, 0),
        112 => meta::cl_many(1, 3, 0, 0),
        113 => meta::cl_many(1, 4, 0, 0),
        114 => meta::cl_pairs(0, 0, 0, 0),
        115 => meta::cl_pairs(20, 1, 0, 0),
        116 => meta::cl_pairs(40, 0, 0, 0),
        117 => words::cl_word(0, 4, 0, 1),
        118 => words::cl_word(0, 8, 4, 1),
        119 => words::cl_word(3, 4, 0, 1),
        120 => meta::part(0, 1, 0, 0),
        121 => meta::part(0, 2, 0, 0),
        122 => words::part_bot_at(0, 0, 0, 0),
        123 => words::part_bot_at(15, 5, 0, 0),
        124 => words::part_bot_at(32, 1, 0, 0),
        125 => meta::part_bots(0, 0, 0, 0),
        126 => meta::part_bots(2, 2, 0, 0),
        127 => meta::part_bots(5, 0, 0, 0),
        128 => meta::part_teams(1, 1, 1, 0),
        129 => meta::part_teams(0, 2, 0, 0),
        130 => meta::part_teams(0, 2, 1, 0),
        131 => words::part_word(3, 1, 1, 0),
        132 => words::part_word(3, 4, 1, 0),
        133 => words::part_word(5, 4, 1, 0),
        134 => events::ping_avg(3, 1, 0, 0),
        135 => events::ping_avg(3, 2, 0, 0),
        136 => events::ping_avg(8, 1, 0, 0),
        137 => events::ping_body(10, 0, 0, 0),
        138 => events::ping_body(10, 3, 0, 0),
        139 => events::ping_body(11, 1, 0, 0),
        140 => events::ping_frames(1, 0, 0, 0),
        141 => events::ping_frames(10, 8, 4, 0),
        142 => events::ping_frames(7, 8, 4, 0),
        143 => words::ping_frames_any(1, 0, 0, 0),
        144 => words::ping_frames_any(1, 3, 0, 0),
        145 => words::ping_frames_any(2, 1, 0, 0),
        146 => words::ping_gap(2, 0, 1, 0),
        147 => words::ping_gap(2, 4, 1, 0),
        148 => words::ping_gap(9, 12, 2, 0),
        149 => events::ping_many(300, 1, 0, 0),
        150 => events::ping_many(300, 1, 1, 0),
        151 => events::ping_many(600, 1, 0, 0),
        152 => events::ping_raw(0, 0, 0, 0),
        153 => events::obit(0, 1, 2, 0),
        154 => events::obit(23, 1, 2, 0),
        155 => events::obit(41, 2, 0, 0),
        156 => events::obit_affix(0, 1, 1, 0),
        157 => events::obit_affix(0, 28, 1, 0),
        158 => events::obit_affix(28, 1, 1, 0),
        159 => words::obit_frames(0, 0, 1, 0),
        160 => words::obit_frames(20, 0, 1, 0),
        161 => words::obit_frames(40, 0, 1, 0),
        162 => words::obit_gap(0, 0, 1, 0),
        163 => words::obit_gap(0, 4, 2, 0),
        164 => words::obit_gap(30, 13, 1, 0),
        165 => events::obit_level(0, 0, 0, 0),
        166 => events::obit_level(28, 2, 3, 0),
        167 => events::obit_level(45, 0, 0, 0),
        168 => events::obit_long(0, 31, 100, 0),
        169 => events::obit_long(0, 31, 31, 0),
        170 => events::obit_many(40, 0, 0, 0),
        171 => events::obit_many(5, 0, 0, 0),
        172 => events::obit_many(5, 28, 0, 0),
        173 => events::obit_none(2, 0, 0, 0),
        174 => events::obit_none(2, 2, 0, 0),
        175 => events::obit_none(2, 4, 0, 0),
        176 => words::obit_word(17, 4, 0, 0),
        177 => words::obit_word(28, 8, 2, 0),
        178 => words::obit_word(33, 4, 3, 0),
        179 => events::teamkill(0, 1, 1, 0),
        180 => events::teamkill(0, 2, 0, 3),
        181 => events::teamkill(3, 1, 1, 0),
        182 => events::teamkill_far(4, 0, 1, 0),
        183 => events::teamkill_far(4, 0, 3, 15),
        184 => events::teamkill_far(4, 2, 1, 6),
        185 => words::teamkill_gap(0, 0, 0, 0),
        186 => words::teamkill_gap(0, 6, 1, 0),
        187 => words::teamkill_gap(3, 4, 0, 0),
        188 => words::teamkill_word(0, 3, 0, 0),
        189 => words::teamkill_word(3, 3, 0, 0),
        190 => words::teamkill_word(5, 3, 0, 0),
        191 => events::flag1(0, 1, 0, 0),
        192 => events::flag1(12, 31, 0, 0),
        193 => events::flag1(5, 3, 0, 0),
        194 => events::flag_affix(0, 1, 0, 0),
        195 => words::flag_around(0, 0, 1, 0),
        196 => words::flag_around(12, 5, 3, 0),
        197 => words::flag_around(6, 2, 5, 0),
        198 => words::flag_frames(0, 0, 1, 0),
        199 => words::flag_frames(5, 0, 1, 0),
        200 => words::flag_frames(9, 0, 1, 0),
        201 => words::flag_gap(0, 0, 1, 0),
        202 => words::flag_gap(5, 0, 1, 0),
        203 => words::flag_gap(9, 0, 1, 0),
        204 => events::flag_level(0, 0, 0, 0),
        205 => events::flag_level(12, 0, 0, 0),
        206 => events::flag_level(4, 0, 0, 0),
        207 => events::flag_many(5, 0, 1, 0),
        208 => events::flag_many(5, 0, 3, 0),
        209 => events::flag_many(5, 12, 3, 0),
        210 => words::flag_name_parts(0, 4, 1, 0),
        211 => words::flag_name_parts(2, 4, 1, 0),
        212 => words::flag_name_parts(4, 4, 1, 0),
        213 => events::flag_none(2, 0, 0, 0),
        214 => events::flag_none(2, 1, 0, 0),
        215 => events::flag_none(2, 2, 0, 0),
        216 => events::flag_split_level(0, 0, 0, 0),
        217 => events::flag_split_level(2, 0, 0, 0),
        218 => events::flag_split_level(4, 0, 0, 0),
        219 => words::flag_tail(0, 1, 0, 0),
        220 => words::flag_tail(12, 3, 1, 0),
        221 => words::flag_tail(5, 3, 1, 0),
        222 => words::flag_word(0, 4, 0, 0),
        223 => words::flag_word(12, 8, 0, 0),
        224 => words::flag_word(5, 4, 0, 0),
        225 => stats::kx_cut(0, 14, 0, 0),
        226 => stats::kx_cut(19, 20, 0, 0),
        227 => stats::kx_cut(35, 20, 0, 0),
        228 => stats::kx_large(300, 10, 0, 0),
        229 => stats::kx_large(300, 3, 0, 0),
        230 => stats::kx_large(3000, 2, 0, 0),
        231 => stats::kx_marker(0, 0, 0, 0),
        232 => stats::kx_marker(11, 6, 0, 0),
        233 => stats::kx_marker(30, 2, 0, 0),
        234 => stats::kx_two(1, 0, 0, 0),
        235 => stats::kx_two(0, 1, 0, 0),
        236 => stats::pl_affix(0, 0, 0, 0),
        237 => stats::pl_affix(1, 0, 0, 0),
        238 => stats::pl_affix(2, 0, 0, 0),
        239 => stats::pl_empty(0, 0, 0, 0),
        240 => stats::pl_empty(1, 0, 0, 0),
        241 => stats::pl_empty(2, 0, 0, 0),
        242 => stats::pl_struct(1, 0, 0, 0),
        243 => stats::pl_struct(1, 1, 0, 0),
        244 => stats::pl_struct(1, 2, 0, 0),
        245 => words::pl_word(3, 0, 0, 0),
        246 => words::pl_word(3, 1, 2, 0),
        247 => words::pl_word(5, 1, 0, 0),
        248 => stats::wide_texts(0, 0, 0, 0),
        249 => stats::wide_texts(16, 0, 0, 0),
        250 => stats::wide_texts(32, 0, 0, 0),
        251 => stats::join(0, 0, 0, 2),
        252 => stats::join(0, 228, 0, 2),
        253 => stats::join(5, 0, 3, 2),
        254 => stats::join_affix(0, 0, 0, 0),
        255 => stats::join_affix(0, 12, 1, 0),
        256 => stats::join_affix(2, 12, 0, 0),
        257 => stats::join_long(100, 0, 1, 0),
        258 => stats::join_long(32, 200, 1, 0),
        259 => stats::join_long(64, 0, 5, 0),
        260 => stats::join_many(2, 1, 3, 0),
        261 => stats::join_many(5, 1, 7, 0),
        262 => stats::join_many(8, 1, 3, 0),
        263 => words::join_word(3, 0, 3, 0),
        264 => words::join_word(3, 4, 3, 0),
        265 => words::join_word(5, 0, 3, 2),
        266 => stats::tm_affix(0, 0, 0, 0),
        267 => stats::tm_affix(1, 0, 0, 0),
        268 => stats::tm_affix(2, 0, 0, 0),
        269 => stats::tm_color(3, 1, 1, 0),
        270 => stats::tm_color(3, 2, 2, 0),
        271 => stats::tm_color(4, 2, 0, 0),
        272 => words::tm_crowd(130, 128, 30, 0),
        273 => words::tm_crowd(256, 1, 256, 0),
        274 => words::tm_crowd(3, 127, 30, 0),
        275 => stats::tm_frags(1, 1, 0, 0),
        276 => stats::tm_frags(2, 3, 0, 0),
        277 => stats::tm_frags(4, 2, 0, 0),
        278 => stats::tm_group(1, 1, 0, 0),
        279 => stats::tm_group(1, 1, 1, 0),
        280 => stats::tm_large(100, 1, 1, 0),
        281 => stats::tm_large(100, 9, 2, 0),
        282 => stats::tm_large(20, 3, 3, 0),
        283 => stats::tm_long(100, 2, 0, 0),
        284 => stats::tm_long(32, 2, 0, 0),
        285 => stats::tm_long(4, 2, 0, 0),
        286 => stats::tm_ping(1, 1, 8, 0),
        287 => stats::tm_ping(3, 1, 8, 1),
        288 => stats::tm_ping(6, 1, 8, 0),
        289 => words::tm_word(3, 0, 0, 0),
        290 => words::tm_word(5, 0, 0, 0),
        291 => words::tm_word(8, 0, 0, 0),
        292 => dates::ts_byte(21, 0, 10, 0),
        293 => dates::ts_byte(22, 0, 0, 0),
        294 => dates::ts_byte(24, 0, 4, 0),
        295 => words::ts_combo(0, 0, 0, 0),
        296 => words::ts_combo(12, 1, 2, 1),
        297 => words::ts_combo(5, 4, 0, 0),
        298 => dates::ts_digits(12288, 0, 0, 0),
        299 => dates::ts_digits(12288, 4, 1, 0),
        300 => dates::ts_digits(1536, 4, 1, 0),
        301 => dates::ts_epoch(0, 0, 0, 0),
        302 => dates::ts_epoch(0, 2, 0, 0),
        303 => dates::ts_epoch(0, 4, 0, 0),
        304 => dates::ts_far(0, 0, 0, 0),
        305 => dates::ts_far(100, 1, 3, 0),
        306 => dates::ts_far(1300, 3, 0, 0),
        307 => dates::ts_len(1, 0, 0, 0),
        308 => dates::ts_len(24, 0, 10, 0),
        309 => dates::ts_len(4, 0, 0, 0),
        310 => dates::ts_marker(0, 0, 0, 0),
        311 => dates::ts_marker(12, 0, 0, 0),
        312 => dates::ts_marker(5, 0, 0, 0),
        313 => words::ts_word(1, 1, 1, 0),
        314 => words::ts_word(1, 2, 0, 0),
        315 => words::ts_word(2, 2, 0, 0),
        316 => dates::ts_byte(20, 0, 0, 0),
        317 => dates::ts_byte(21, 0, 0, 0),
        318 => dates::ts_byte(23, 0, 0, 0),
        319 => dates::ts_byte(20, 0, 10, 0),
        320 => dates::ts_byte(22, 0, 10, 0),
        321 => dates::ts_byte(13, 0, 10, 0),
        322 => dates::tz_any(1, 0, 0, 0),
        323 => dates::tz_any(1, 2, 0, 0),
        324 => dates::tz_any(1, 5, 0, 0),
        325 => dates::tz_entry(0, 3, 0, 0),
        326 => dates::tz_entry(155, 3, 0, 0),
        327 => dates::tz_entry(40, 3, 0, 0),
        328 => meta::st_big(1, 0, 1000, 0),
        329 => meta::st_big(1, 1, 1000, 1),
        330 => meta::st_big(1, 255, 5000, 0),
        331 => meta::st_far(0, 0, 0, 0),
        332 => meta::st_far(0, 700, 0, 0),
        333 => meta::st_far(1, 700, 0, 0),
        334 => meta::st_front(0, 1, 0, 0),
        335 => meta::st_front(0, 3, 1, 1),
        336 => meta::st_front(2, 2, 0, 0),
        337 => meta::st_kind(1, 1, 0, 100),
        338 => meta::st_kind(1, 1, 4, 100),
        339 => meta::st_kind(2, 1, 2, 100),
        340 => meta::st_parts(1024, 7, 1, 0),
        341 => meta::st_parts(1024, 7, 5, 0),
        342 => meta::st_parts(1100, 15, 3, 0),
        343 => meta::st_raw(11, 0, 0, 0),
        344 => meta::st_raw(12, 0, 0, 0),
        345 => meta::st_raw(13, 0, 0, 0),
        346 => meta::st_several(0, 0, 0, 0),
        347 => meta::st_several(13, 0, 10, 0),
        348 => meta::st_several(4, 1, 0, 0),
        349 => meta::st_text(0, 0, 0, 0),
        350 => meta::st_text(0, 28, 2, 0),
        351 => meta::st_text(1, 3, 0, 4),
        352 => stats::sv_json(0, 0, 0, 0),
        353 => stats::sv_json(0, 1, 0, 0),
        354 => stats::sv_json(0, 2, 0, 0),
        355 => stats::sv_struct(0, 18, 0, 0),
        356 => stats::sv_struct(1, 18, 0, 0),
        357 => stats::sv_struct(2, 18, 0, 0),
        358 => words::sv_word(4, 0, 0, 0),
        359 => words::sv_word(4, 2, 0, 0),
        360 => words::sv_word(8, 1, 0, 0),
        361 => stats::wide_texts(130, 1, 3, 0),
        362 => stats::wide_texts(300, 0, 2, 0),
        363 => stats::du_text(1, 1, 0, 0),
        364 => stats::du_text(1, 4, 1, 0),
        365 => stats::du_text(1, 5, 2, 0),
        366 => words::du_word(1, 0, 0, 0),
        367 => words::du_word(1, 0, 1, 0),
        _ => stats::du_two(1, 0, 0, 0),
    }
}
