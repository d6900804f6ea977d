//! C27: what a function returns depends on the data it is given and on nothing that was read before.
use crate::dates::stats_block;
use crate::events::{flag_add, flag_text, flags_eq, pings_eq, tally_eq};
use crate::meta::{flags_same, list_same, names_same, part_same, plist, si_same, teams_of, STOPPED};
use crate::mk::{self, Demo};
use crate::spec;
use crate::stats::{pl_same, tm_same};
use crate::sym::*;
use crate::walk::{end_of, exactly, same_prints};
use mvdparser::all as a;
const B: u32 = 80_000;

struct Exp {
    d: Vec<u8>,
    frags: Vec<(String, i32)>,
    flags: Vec<(String, [u32; 7])>,
    pings: Vec<(u8, u32, u32)>,
    parsed: Vec<spec::Pl>,
    stats: Option<Vec<spec::Pl>>,
    server: (String, u32),
    seconds: u64,
}
pub const LEN: usize = 1500;
/// A whole demo of 1500 bytes with the variations in the bits of `k`; with arbitrary letters, durations and pings if `arb`.
fn kit(k: usize, arb: bool) -> Exp {
    kit_far(k, arb, 0, 0)
}
/// The same with `gap` bytes between the start of the match and the events, and `tail` bytes behind these.
fn kit_far(k: usize, arb: bool, gap: usize, tail_len: usize) -> Exp {
    let on = |b: usize| k >> b & 1 == 1;
    let r = k >> 16;
    let small = |x: u8| if arb { byte() } else { x };
    let mut n0 = vec![b'a'];
    n0.extend(if arb { mk::word(1, 0) } else { vec![b'c' + (r % 20) as u8] });
    let n1: &[u8] = [b"ob".as_slice(), b"bo", b"Ob", b"Bo"][k >> 7 & 1 | (k >> 15 & 1) << 1];
    let nr = b'0' + (r % 9) as u8;
    let mut d = Demo::new();
    d.all(
        if r % 2 == 0 { small(r as u8) } else { r as u8 },
        &mk::serverinfo_body(&mk::cat(&[b"\\map\\dm", &[nr], b"\\serverdemo\\f", &[nr], b".mvd", if on(0) { b"\\epoch\\17137750" } else { b"\\epocs\\17137750" }, &[nr], if on(8) { b"\\mode\\hoonymode" } else { b"\\mode\\noonymode" }])),
    );
    let t0: &[u8] = if on(15) { b"Red" } else { b"red" };
    let t1: &[u8] = if on(1) { t0 } else { [b"blu", b"RED"][r % 2] };
    let (c1, c2) = if r % 2 == 1 { (nr, b'0') } else { (b'9', b'9') };
    d.all(
        1,
        &mk::spawn_body(&[
            &mk::cat(&[b"\\team\\", t0, b"\\topcolor\\", &[nr], b"\\name\\", &n0]),
            &mk::cat(&[b"\\team\\", t1, b"\\topcolor\\", &[c1], b"\\name\\", n1, if on(2) { b"\\*bot\\1" } else { b"\\*bot\\0" }]),
            &mk::cat(&[if on(13) { b"\\name\\sp" } else { b"\\name\\ps" }, b"\\team\\", t0, b"\\topcolor\\", &[c2], b"\\*spectator\\", if on(9) { b"1" } else { b"0" }]),
        ]),
    );
    d.all(40, &mk::print(2, &mk::cat(&[b"matchdate: 2024-04-2", &[nr], b" 10:38:05 ", [b"CEST".as_slice(), b"EEST", b"MSK", b"PDT", b"+02", b"-0530", b"CET"][r % 7], b"\n"])));
    if gap > 0 {
        d.all(9, &vec![1; gap]);
    }
    let mut frags = vec![];
    let s0 = spec::text(&n0);
    let s1 = spec::text(n1);
    if on(3) {
        d.all(2, &mk::print(1, &mk::cat(&[&n0, b" died\n"])));
        spec::add(&mut frags, &s0, -1);
    } else {
        d.all(2, &mk::print(1, &mk::cat(&[b"nobody rides ", n1, b"'s rocket\n"])));
        spec::add(&mut frags, &s1, 1);
    }
    let mut flags = vec![];
    let u = [0, 2][r / 3 % 2];
    d.all(1, &mk::print(2, &mk::cat(&[n1, &flag_text(r % 14).0])));
    flag_add(&mut flags, &s1, flag_text(r % 14).1, 1);
    d.all(1, &mk::cat(&[&mk::print(1, &mk::cat(&[n1, spec::TEAMKILLED[r % 6].as_bytes(), b"\n"])), &mk::upfrags(u, -1)]));
    if on(1) {
        spec::add(&mut frags, if u == 0 { &s0 } else if on(13) { "sp" } else { "ps" }, -1);
    }
    let p0 = small(30);
    let p1 = 10 + r as u16 % 7;
    d.all(1, &mk::cat(&[&mk::ping(0, p0 as u16, 0), &mk::ping(1, p1, 0)]));
    let mut sum = p0 as u32;
    for i in 0..r % 5 {
        d.all(2, &mk::ping(0, 20 + 9 * i as u16, 1));
        sum += 20 + 9 * i as u32;
    }
    let many = r as u32 % 5 + 1;
    if on(6) {
        d.all(if r % 2 == 1 { small(3) } else { 3 }, b"\x08\x02The match is over\n\0");
    }
    let mut seconds = 0;
    let mut stats = None;
    let mut server = (String::new(), 0);
    if on(4) {
        seconds = 100 + r as u64;
        let (h, f) = (if on(11) { "host" } else { "Host" }, if on(12) { "p" } else { "b" });
        server = (format!("{h}{}", nr as char), 28500 + nr as u32);
        let x = nr as char;
        let y = if r % 2 == 1 { x } else { '9' };
        let js = format!(
            "{{\"version\": 3, \"hostname\": \"{h}{x}\", \"ip\": \"1.2.3.{x}\", \"port\": {}, \"duration\": {seconds}, \"players\": [{{\"name\": \"{f}{x}\", \"top-color\": {x}, \"team\": \"t{x}\", \"ping\": 2{x}}}, {{\"name\": \"q\", \"top-color\": {y}, \"team\": \"t{x}\", \"ping\": 25}}, {{\"name\": \"z\", \"top-color\": 9, \"team\": \"t{x}\"}}]}}",
            server.1
        );
        d.raw(&stats_block(js.as_bytes()));
        let pl = |name: String, color, ping| spec::Pl { name, team: format!("t{x}"), color: [color, 0], frags: 0, ping, bot: false, auth: None, cc: None };
        let mut w = vec![pl(format!("{f}{x}"), nr - b'0', 20 + (nr - b'0') as u32), pl("q".into(), y as u8 - b'0', 25), pl("z".into(), 9, 0)];
        if on(12) {
            w.swap(0, 1);
        }
        stats = Some(spec::ranked(w));
    }
    let mut tail = vec![];
    let mut len = LEN;
    if gap > 0 {
        len = LEN + gap + 6;
    }
    if on(5) {
        tail.extend(mk::print(2, b"Server is paused"));
    }
    if on(14) {
        tail.extend_from_slice(STOPPED);
    }
    let end: &[u8] = if on(10) { b"\x00\x02EndOfDemo\x00" } else { b"" };
    let pad = len - d.d.len() - 6 - tail.len() - end.len();
    tail.splice(0..0, vec![1; pad]);
    d.all(7, &tail);
    if tail_len > 0 {
        d.all(11, &vec![1; tail_len]);
    }
    d.raw(end);
    assume(d.d.len() == len + if tail_len > 0 { tail_len + 6 } else { 0 });
    let mut w = vec![];
    for (i, c) in spec::clients(&d.d).unwrap_or_default().into_iter().enumerate() {
        if !c.spec {
            let mut f = 0;
            for (n, v) in &frags {
                if *n == c.name {
                    f = *v;
                }
            }
            w.push(spec::Pl { name: c.name, team: c.team, color: c.color, frags: f, ping: [sum / many, p1 as u32, 0][i], bot: c.bot, auth: c.auth, cc: c.cc });
        }
    }
    Exp { d: d.d, frags, flags, pings: vec![(0, sum, many), (1, p1 as u32, 1)], parsed: spec::ranked(w), stats, server, seconds }
}
pub const NF: usize = 24;
/// Function `f` on the bytes `v`, against what belongs to the demo `e` (whose bytes `v` are).
fn judge(f: usize, v: &[u8], e: &Exp, id: u32) {
    let si = || spec::text(&spec::serverinfo(v).unwrap_or_default());
    let begin = || spec::find(v, b"matchdate: ").unwrap_or(0);
    let players = || e.stats.clone().unwrap_or(e.parsed.clone());
    match f {
        0 => {
            si_same(v, id);
        }
        1 => {
            let g = mvdparser::serverinfo(v);
            check(g.is_ok(), id);
            let g = g.unwrap();
            check(g.map == spec::info(&si(), "map") && g.mode == spec::info(&si(), "mode") && g.epoch == spec::int(spec::info(&si(), "epoch")), id);
        }
        2 => check(mvdparser::filename(v).ok() == spec::info(&si(), "serverdemo"), id),
        3 => {
            let w = spec::clientinfo(v).unwrap_or_default();
            let g = a::clientinfo_strings(v).unwrap_or_default();
            let mut ok = g.len() == w.len();
            if ok {
                for i in 0..w.len() {
                    ok &= g[i] == spec::text(&w[i]);
                }
            }
            check(ok, id);
        }
        4 => {
            let g = a::clients(v);
            check(g.is_ok() && list_same(&g.unwrap(), &spec::clients(v).unwrap_or_default()), id);
        }
        5 => {
            part_same(v, id);
        }
        6 => check(names_same(mvdparser::player_names(v), spec::sorted(&plist(v, false))), id),
        7 => check(names_same(mvdparser::spectator_names(v), spec::sorted(&plist(v, true))), id),
        8 => check(names_same(mvdparser::team_names(v), teams_of(v)), id),
        9 => {
            let w = spec::clients(v).unwrap_or_default();
            check(a::has_bot_players(v).ok() == Some(w.iter().any(|c| !c.spec && c.bot)), id);
            check(a::has_human_players(v).ok() == Some(w.iter().any(|c| !c.spec && !c.bot)), id);
        }
        10 => {
            flags_same(v, id);
        }
        11 => same_prints(v, &spec::prints(v), id),
        12 => check(tally_eq(&mvdparser::frags_per_player_name(v), &e.frags), id),
        13 => check(flags_eq(v, &e.flags), id),
        14 => check(pings_eq(v, &e.pings), id),
        15 => {
            let g = mvdparser::demo_duration(v);
            check(g.is_ok() && exactly(g.unwrap(), spec::ms_before(v, end_of(v)), 0), id);
        }
        16 => {
            let hoony = spec::info(&si(), "mode").as_deref() == Some("hoonymode");
            let g = mvdparser::countdown_duration(v);
            check(g.is_ok() && exactly(g.unwrap(), if hoony { 0 } else { spec::ms_before(v, begin()) }, 0), id);
        }
        17 => {
            let hoony = spec::info(&si(), "mode").as_deref() == Some("hoonymode");
            let g = mvdparser::match_duration(v);
            check(g.is_ok(), id);
            let end = spec::ms_before(v, end_of(v));
            if hoony {
                check(exactly(g.unwrap(), end, 0), id);
            } else if e.stats.is_some() {
                check(exactly(g.unwrap(), e.seconds * 1000, 0), id);
            } else {
                check(exactly(g.unwrap(), end, spec::ms_before(v, begin())), id);
            }
        }
        18 => check(a::matchdate(v).ok().map(|d| d.timestamp()) == spec::matchdate(v).unwrap_or(None), id),
        19 => {
            let w = match spec::int(spec::info(&si(), "epoch")) {
                Some(e) => Some(e as i64),
                None => spec::matchdate(v).unwrap_or(None),
            };
            check(mvdparser::timestamp(v).ok().map(|d| d.timestamp()) == w, id);
        }
        20 => check(mvdparser::ktxstats_string(v).ok().map(|s| s.into_bytes()) == spec::ktx(v), id),
        21 => {
            let g = mvdparser::players(v);
            check(g.is_ok() && pl_same(&g.unwrap(), &players()), id);
        }
        22 => {
            let g = mvdparser::teams(v);
            check(g.is_ok() && tm_same(&g.unwrap(), &spec::teams(&players())), id);
        }
        _ => {
            let g = mvdparser::server(v).ok();
            check(g.is_some() == e.stats.is_some(), id);
            if let Some(g) = g {
                check(g.hostname == e.server.0 && g.port == e.server.1, id);
            }
        }
    }
}
/// C27: everything is read from demo `k1`, then from `k2` (in the same memory if `place`), then from the first again.
pub fn pure_all(k1: usize, k2: usize, place: usize, step: usize) {
    let (x, y) = (kit(k1, false), kit(k2, false));
    let mut buf = x.d.clone();
    for r in 0..3 {
        let e = if r == 1 { &y } else { &x };
        buf.copy_from_slice(&e.d);
        for i in 0..NF {
            let f = (i * step + r) % NF;
            judge(f, if place == 1 { &buf } else { &e.d }, e, B + line!());
        }
    }
    rc!("C27:all");
}
/// C27: `f` and `g` in turn on two demos with arbitrary letters, durations and pings.
pub fn pure_pair(fg: usize, k1: usize, k2: usize, place: usize) {
    let (f, g) = (fg % NF, fg / NF);
    let (x, y) = (kit(k1, true), kit(k2, true));
    let mut buf = x.d.clone();
    for (h, e) in [(f, &x), (g, &x), (g, &y), (f, &y), (f, &x)] {
        buf.copy_from_slice(&e.d);
        judge(h, if place == 1 { &buf } else { &e.d }, e, B + line!());
    }
    rc!("C27:pair");
}
/// C27: `f` on `n` demos one after another, and on every one a second time.
pub fn pure_many(f: usize, n: usize, from: usize, _: usize) {
    let mut buf = vec![0; LEN];
    for i in 0..n {
        let e = kit((from + i * 37 * 65599) % (1 << 23), false);
        buf.copy_from_slice(&e.d);
        judge(f, &buf, &e, B + line!());
        judge(f, &e.d, &e, B + line!());
    }
    rc!("C27:many");
}
/// One function on a whole demo with arbitrary letters, durations and pings.
pub fn whole(f: usize, k: usize, _: usize, _: usize) {
    let e = kit(k, true);
    judge(f, &e.d, &e, B + line!());
    rc!("whole demo");
}
/// The same with the events far behind the sign-on data and far from the end.
pub fn whole_far(f: usize, k: usize, gap: usize, tail: usize) {
    let e = kit_far(k, true, gap, tail);
    judge(f, &e.d, &e, B + line!());
    rc!("whole demo");
}
/// C27: two small cases of the other properties in a row, each with arbitrary input of its own.
pub fn pure_twice(i: usize, j: usize, _: usize, _: usize) {
    crate::some::case(i);
    crate::some::case(j);
    rc!("C27:twice");
}
