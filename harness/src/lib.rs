//! Harnesses: each one draws symbolic input, runs the real mvdparser code and asserts a property of the result.
#![allow(clippy::all)]
pub mod sym;
#[cfg(feature = "native")]
pub mod rt;

pub type H = extern "C" fn(u64, u64, u64, u64);

pub const fn goal(s: &str) -> u32 {
    let b = s.as_bytes();
    let mut h = 0x811c_9dc5u32;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u32).wrapping_mul(0x0100_0193);
        i += 1;
    }
    h
}
/// Assert (the identifier is the module base plus the source line).
#[macro_export]
macro_rules! ck { ($c:expr) => { $crate::sym::check($c, B + line!()) } }
/// Vacuity goal, by name.
#[macro_export]
macro_rules! rc { ($s:literal) => { { const G: u32 = $crate::goal($s); $crate::sym::reach(G) } } }
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name(a: u64, b: u64, c: u64, d: u64) { $body(a as usize, b as usize, c as usize, d as usize) })*
        pub fn table() -> Vec<(&'static str, $crate::H)> { vec![$((stringify!($name), $name as $crate::H)),*] }
    };
}
mod dates;
mod events;
mod meta;
mod pure;
mod some;
mod mk;
mod spec;
mod stats;
mod walk;
mod words;
harnesses! {
    h_obit => events::obit,
    h_obit_level => events::obit_level,
    h_obit_sum => events::obit_sum,
    h_obit_many => events::obit_many,
    h_obit_none => events::obit_none,
    h_teamkill => events::teamkill,
    h_teamkill_far => events::teamkill_far,
    h_teamkill_two => events::teamkill_two,
    h_flag1 => events::flag1,
    h_flag_level => events::flag_level,
    h_flag_sum => events::flag_sum,
    h_flag_many => events::flag_many,
    h_flag_none => events::flag_none,
    h_ping_raw => events::ping_raw,
    h_ping_body => events::ping_body,
    h_ping_frames => events::ping_frames,
    h_ping_avg => events::ping_avg,
    h_ping_many => events::ping_many,
    h_flag_split_level => events::flag_split_level,
    h_obit_long => events::obit_long,
    h_obit_affix => events::obit_affix,
    h_flag_affix => events::flag_affix,
    h_total => walk::total,
    h_total_body => walk::total_body,
    h_total_large => walk::total_large,
    h_prints_raw => walk::prints_raw,
    h_prints_body => walk::prints_body,
    h_prints_list => walk::prints_list,
    h_prints_long => walk::prints_long,
    h_prefix => walk::prefix,
    h_cut => walk::cut,
    h_size => walk::size,
    h_step => walk::step,
    h_step_large => walk::step_large,
    h_demo_raw => walk::demo_raw,
    h_demo_front => walk::demo_front,
    h_demo_marks => walk::demo_marks,
    h_demo_long => walk::demo_long,
    h_seek => walk::seek,
    h_seek_two => walk::seek_two,
    h_total_scale => walk::total_scale,
    h_prints_many => walk::prints_many,
    h_far => walk::far,
    h_meta_total => meta::meta_total,
    h_meta_tail => meta::meta_tail,
    h_meta_front => meta::meta_front,
    h_meta_window => meta::meta_window,
    h_si_raw => meta::si_raw,
    h_si_marker => meta::si_marker,
    h_si_window => meta::si_window,
    h_si_setting => meta::si_setting,
    h_si_text => meta::si_text,
    h_si_long => meta::si_long,
    h_si_many => meta::si_many,
    h_ci_raw => meta::ci_raw,
    h_ci_marker => meta::ci_marker,
    h_ci_list => meta::ci_list,
    h_ci_len => meta::ci_len,
    h_ci_dist => meta::ci_dist,
    h_ci_many => meta::ci_many,
    h_cl_field => meta::cl_field,
    h_cl_long => meta::cl_long,
    h_cl_pairs => meta::cl_pairs,
    h_cl_text => meta::cl_text,
    h_cl_many => meta::cl_many,
    h_part => meta::part,
    h_part_names => meta::part_names,
    h_part_teams => meta::part_teams,
    h_part_many => meta::part_many,
    h_part_long => meta::part_long,
    h_part_affix => meta::part_affix,
    h_part_bots => meta::part_bots,
    h_st_parts => meta::st_parts,
    h_st_raw => meta::st_raw,
    h_st_text => meta::st_text,
    h_st_far => meta::st_far,
    h_st_front => meta::st_front,
    h_st_several => meta::st_several,
    h_st_kind => meta::st_kind,
    h_st_big => meta::st_big,
    h_si_two => meta::si_two,
    h_ci_two => meta::ci_two,
    h_date_total => dates::date_total,
    h_date_text => dates::date_text,
    h_date_epoch => dates::date_epoch,
    h_date_dur => dates::date_dur,
    h_date_large => dates::date_large,
    h_ts_digits => dates::ts_digits,
    h_ts_byte => dates::ts_byte,
    h_ts_len => dates::ts_len,
    h_ts_marker => dates::ts_marker,
    h_ts_epoch => dates::ts_epoch,
    h_ts_far => dates::ts_far,
    h_tz_any => dates::tz_any,
    h_tz_entry => dates::tz_entry,
    h_ts_two => dates::ts_two,
    h_stats_total => stats::stats_total,
    h_stats_head => stats::stats_head,
    h_stats_two => stats::stats_two,
    h_stats_json => stats::stats_json,
    h_stats_big => stats::stats_big,
    h_stats_msgs => stats::stats_msgs,
    h_kx_one => stats::kx_one,
    h_kx_blocks => stats::kx_blocks,
    h_kx_cut => stats::kx_cut,
    h_kx_large => stats::kx_large,
    h_kx_marker => stats::kx_marker,
    h_pl_struct => stats::pl_struct,
    h_pl_many => stats::pl_many,
    h_pl_affix => stats::pl_affix,
    h_pl_json => stats::pl_json,
    h_join => stats::join,
    h_join_long => stats::join_long,
    h_join_affix => stats::join_affix,
    h_join_many => stats::join_many,
    h_tm_group => stats::tm_group,
    h_tm_frags => stats::tm_frags,
    h_tm_ping => stats::tm_ping,
    h_tm_color => stats::tm_color,
    h_tm_large => stats::tm_large,
    h_tm_affix => stats::tm_affix,
    h_tm_long => stats::tm_long,
    h_tm_stats => stats::tm_stats,
    h_hash_teams => stats::hash_teams,
    h_hash_players => stats::hash_players,
    h_hash_any => stats::hash_any,
    h_hash_info => stats::hash_info,
    h_sv_struct => stats::sv_struct,
    h_sv_json => stats::sv_json,
    h_du_text => stats::du_text,
    h_wide_texts => stats::wide_texts,
    h_pl_empty => stats::pl_empty,
    h_kx_two => stats::kx_two,
    h_du_two => stats::du_two,
    h_pure_all => pure::pure_all,
    h_pure_pair => pure::pure_pair,
    h_pure_many => pure::pure_many,
    h_whole => pure::whole,
    h_whole_far => pure::whole_far,
    h_pure_twice => pure::pure_twice,
    h_obit_word => words::obit_word,
    h_obit_frames => words::obit_frames,
    h_flag_word => words::flag_word,
    h_flag_frames => words::flag_frames,
    h_ping_frames_any => words::ping_frames_any,
    h_prints_frames => words::prints_frames,
    h_teamkill_word => words::teamkill_word,
    h_si_word => words::si_word,
    h_si_key => words::si_key,
    h_seek_word => words::seek_word,
    h_cl_word => words::cl_word,
    h_cl_key => words::cl_key,
    h_ci_word => words::ci_word,
    h_part_word => words::part_word,
    h_pl_word => words::pl_word,
    h_join_word => words::join_word,
    h_tm_word => words::tm_word,
    h_sv_word => words::sv_word,
    h_ts_word => words::ts_word,
    h_du_word => words::du_word,
    h_obit_gap => words::obit_gap,
    h_flag_gap => words::flag_gap,
    h_flag_around => words::flag_around,
    h_flag_name_parts => words::flag_name_parts,
    h_ping_gap => words::ping_gap,
    h_prints_gap => words::prints_gap,
    h_teamkill_gap => words::teamkill_gap,
    h_part_combo => words::part_combo,
    h_part_bot_at => words::part_bot_at,
    h_teamkill_combo => words::teamkill_combo,
    h_join_combo => words::join_combo,
    h_pl_combo => words::pl_combo,
    h_tm_combo => words::tm_combo,
    h_ts_combo => words::ts_combo,
    h_flag_tail => words::flag_tail,
    h_tm_crowd => words::tm_crowd,
    h_teamkill_long => words::teamkill_long,
}
