//! Whole words and frame headers as variables: names, teams, values and zones of several letters each, and frames whose
//! duration, target and mask are arbitrary, for the properties whose texts and frames the other harnesses fix.
use crate::dates::stats_block;
use crate::events::*;
use crate::meta::*;
use crate::mk::{self, word, word_str, Demo};
use crate::spec;
use crate::stats::*;
use crate::sym::*;
use crate::walk::{end_of, exactly};
use ktxstats::v3::{KtxstatsV3, Player as KPlayer};
use mvdparser::all as a;
use std::time::Duration;
const B: u32 = 60_000;

/// C14: obituary `i` of players with an arbitrary word for a name.
pub fn obit_word(i: usize, n: usize, kind: usize, who: usize) {
    let x = word(n, kind);
    let (a, b) = if who == 0 { (x, b"def".to_vec()) } else { (b"abc d".to_vec(), x) };
    let (t, who, score) = obituary(i, &a, &b);
    let mut d = Demo::new();
    d.all(1, &mk::print(1, &mk::cat(&[&t, b"\n"])));
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &[(spec::text(&who), score)]));
    rc!("C14:words");
}
/// C14: `m` obituaries in frames of any header, kinds from `kind` on.
pub fn obit_frames(i: usize, kind: usize, m: usize, gap: usize) {
    let mut d = Demo::new();
    let mut want = vec![];
    for j in 0..m {
        let (t, who, score) = obituary((i + j) % 66, [b"abc".as_slice(), b"x y"][j % 2], b"def");
        d.any([1, 3, 4, 5, 6][(kind + j) % 5], &mk::print(1, &mk::cat(&[&t, b"\n"])));
        spec::add(&mut want, &spec::text(&who), score);
        for g in 0..gap {
            d.any([4, 5, 6, 1, 3][(kind + g) % 5], &[1, g as u8][..g % 3]);
        }
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
    rc!("C14:any frames");
}
/// C16: events of a player with an arbitrary word for a name.
pub fn flag_word(k: usize, n: usize, kind: usize, split: usize) {
    let a = word(n, kind);
    let mut d = Demo::new();
    let mut want = vec![];
    d.all(1, &flag_prints(k, &a, split == 1));
    flag_add(&mut want, &spec::text(&a), flag_text(k).1, 1);
    ck!(flags_eq(&d.d, &want));
    rc!("C16:words");
}
/// C16: `m` events in frames of any header.
pub fn flag_frames(k: usize, kind: usize, m: usize, split: usize) {
    let mut d = Demo::new();
    let mut want = vec![];
    for j in 0..m {
        let n: &[u8] = [b"abc".as_slice(), b"x y"][j % 2];
        let e = (k + 3 * j) % 14;
        d.any([1, 3, 4, 5, 6][(kind + j) % 5], &flag_prints(e, n, split == 1));
        flag_add(&mut want, &spec::text(n), flag_text(e).1, 1);
    }
    ck!(flags_eq(&d.d, &want));
    rc!("C16:any frames");
}
/// C13: `m` frames of any header with pings of two players.
pub fn ping_frames_any(m: usize, kind: usize, gap: usize, _: usize) {
    let mut d = Demo::new();
    for j in 0..m {
        d.any([1, 3, 4, 5, 6][(kind + j) % 5], &mk::cat(&[&mk::ping(3, 20 + j as u16, 0), &mk::ping(byte(), 65000, 9)]));
        for g in 0..gap {
            d.any([4, 5, 6, 1, 3][(kind + g) % 5], &[1, 36, 1, 1, 1, 1][..g % 4]);
        }
    }
    ck!(pings_eq(&d.d, &spec_pings(&d.d)));
    rc!("C13:any frames");
}
/// C05: `m` prints in frames of any header.
pub fn prints_frames(m: usize, kind: usize, gap: usize, n: usize) {
    let mut d = Demo::new();
    let mut want: Vec<spec::P> = vec![];
    for j in 0..m {
        let c = mk::cat(&[&[b'a' + j as u8], &word(n, j % 4)]);
        d.any([1, 3, 4, 5, 6][(kind + j) % 5], &mk::print(j as u8 % 4, &c));
        want.push((j as u8 % 4, c));
        for g in 0..gap {
            d.any([4, 5, 6, 1, 3][(kind + g) % 5], &[1, 8, 1, 1, 1, 1][..g % 4]);
        }
    }
    let got = mvdparser::prints(&d.d);
    ck!(got.len() == m);
    for (g, w) in got.iter().zip(&want) {
        ck!(g.id.clone() as u8 == w.0 && g.content == w.1);
    }
    rc!("C05:any frames");
}
/// C15: victim, killer and team are arbitrary words.
pub fn teamkill_word(pat: usize, n: usize, kind: usize, which: usize) {
    let x = word(n, kind);
    let pick = |k: usize, f: &[u8]| if k == which { x.clone() } else { f.to_vec() };
    let (v, k, t) = (mk::cat(&[b"v", &pick(0, b"ic")]), mk::cat(&[b"k", &pick(1, b"il")]), pick(2, b"red"));
    let t2 = if which == 3 { mk::cat(&[&t, &x]) } else { b"blue1".to_vec() };
    let infos = [mk::cat(&[b"\\team\\", &t2, b"\\name\\other"]), mk::cat(&[b"\\name\\", &v, b"\\team\\", &t]), mk::cat(&[b"\\team\\", &t, b"\\name\\", &k])];
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[&infos[0], &infos[1], &infos[2]]));
    let e = mk::print(1, &mk::cat(&[&v, spec::TEAMKILLED[pat].as_bytes(), b"\n"]));
    d.any(6, &mk::cat(&[&e, &mk::upfrags(0, 5)]));
    d.any([6, 4, 5, 3][pat % 4], &mk::upfrags(2, -1));
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &[(spec::text(&k), -1)]));
    rc!("C15:words");
}
/// C09: key `k` has an arbitrary word as its value, a sign in front (`pre`).
pub fn si_word(k: usize, n: usize, kind: usize, pre: usize) {
    let val = mk::cat(&[[b"".as_slice(), b"-", b"+", b" ", b"."][pre], &word(n, kind)]);
    let info = mk::cat(&[b"\\maxfps\\77\\", KEYS[k], b"\\", &val, b"\\map\\dm2"]);
    let v = si_demo(&info);
    file_same(&v, &info, B + line!());
    rc!("C09:words");
}
/// C09: a whole key is an arbitrary word; only the listed keys say something.
pub fn si_key(n: usize, kind: usize, star: usize, _: usize) {
    let key = mk::cat(&[if star == 1 { b"*" } else { b"" }, &word(n, kind)]);
    let info = mk::cat(&[b"\\zz\\1\\", &key, b"\\41\\fraglimit\\0"]);
    let v = si_demo(&info);
    file_same(&v, &info, B + line!());
    rc!("C09:keys");
}
/// C08: the mode is an arbitrary word of `n` letters (after `pre`).
pub fn seek_word(n: usize, kind: usize, pre: usize, at: usize) {
    let mode = mk::cat(&[[b"".as_slice(), b"hoony", b"h"][pre], &word(n, kind)]);
    let mut d = Demo::new();
    d.all(5, &mk::serverinfo_body(&mk::cat(&[b"\\map\\dm2\\mode\\", &mode, b"\\deathmatch\\3"])));
    for i in 0..4 {
        let body = if i == at { mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n") } else if i == 3 { mk::print(2, b"The match is over\n") } else { vec![1] };
        d.read([100, 7, 255, 30][i], [6, 4, 3, 5][i] | [0, 9, 250, 17][i] & 0xf8, &body);
    }
    let v = d.d;
    let end = spec::ms_before(&v, end_of(&v));
    let cd = mvdparser::countdown_duration(&v);
    let md = mvdparser::match_duration(&v).unwrap_or(Duration::MAX);
    // a flag instead of a branch for each letter
    let hoony = b"hoonymode";
    let mut same = mode.len() == hoony.len();
    for (x, y) in mode.iter().zip(hoony) {
        same &= x == y;
    }
    if same {
        ck!(cd.unwrap_or(Duration::MAX) == Duration::ZERO);
        ck!(exactly(md, end, 0));
        rc!("C08:hoony word");
    } else if let Some(o) = spec::find(&v, b"\x08\x02matchdate: ") {
        let before = spec::ms_before(&v, o);
        ck!(exactly(cd.unwrap_or(Duration::MAX), before, 0));
        ck!(exactly(md, end, before));
        rc!("C08:mode words");
    } else {
        ck!(cd.is_err());
        ck!(exactly(md, end, 0));
        rc!("C08:mode words without start");
    }
}
/// C11: field `k` is an arbitrary word.
pub fn cl_word(k: usize, n: usize, kind: usize, at: usize) {
    let kv = mk::cat(&[b"\\", CKEYS[k], b"\\", &word(n, kind)]);
    let nm: &[u8] = if k == 0 { b"" } else { b"\\name\\x" };
    let info = if at == 0 { mk::cat(&[nm, &kv, b"\\bottomcolor\\9"]) } else { mk::cat(&[b"\\topcolor\\3\\w\\1", &kv, nm]) };
    let first: &[u8] = b"\\name\\first\\team\\red";
    let last: &[u8] = b"\\name\\last\\*auth\\me";
    let v = mk::spawn_body(&if at == 0 { [first, &info, last] } else { [&info, first, last] });
    let w = cl_same(&v, B + line!());
    ck!(w.is_some_and(|w| w.len() == 3));
    rc!("C11:words");
}
/// C11: a whole key is an arbitrary word.
pub fn cl_key(n: usize, kind: usize, star: usize, _: usize) {
    let key = mk::cat(&[if star == 1 { b"*" } else { b"" }, &word(n, kind)]);
    let info = mk::cat(&[b"\\name\\ab\\", &key, b"\\12\\chat\\1"]);
    let v = mk::spawn_body(&[&info, b"\\name\\last"]);
    let w = cl_same(&v, B + line!());
    ck!(w.is_some_and(|w| w.len() == 2));
    rc!("C11:keys");
}
/// C10: an info string of other words, the name among them.
pub fn ci_word(n: usize, kind: usize, k: usize, _: usize) {
    let x = word(n, kind);
    let s = match k {
        0 => mk::cat(&[b"\\name\\", &x]),
        1 => mk::cat(&[b"\\", &x, b"\\1\\name\\ab"]),
        2 => mk::cat(&[b"\\name\\ab\\", &x, b"\\", &x]),
        _ => mk::cat(&[&x, b"\\name\\"]),
    };
    let v = mk::spawn_body(&[b"\\name\\first", &s, b"\\team\\red\\name\\last"]);
    ck!(ci_same(&v, B + line!()) == 3);
    rc!("C10:words");
}
/// C12: one client's name and team are arbitrary words among fixed ones.
pub fn part_word(n: usize, kind: usize, which: usize, spect: usize) {
    let x = word(n, kind);
    let f: [&[u8]; 4] = [b"bob", b"Alice", b"\xe3arl", b"zed"];
    let mut infos = vec![];
    for i in 0..4 {
        let mine = i == 1;
        infos.push(info_of(if mine && which == 0 { &x } else { f[i] }, if mine && which == 1 { &x } else { f[(i * 2) % 4] }, if (spect >> i) & 1 == 1 { b"\\*spectator\\1" } else { b"" }));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    part_same(&v, B + line!());
    if which == 0 {
        ck!(names_same(mvdparser::player_names(&v), spec::sorted(&plist(&v, false))));
        ck!(names_same(mvdparser::spectator_names(&v), spec::sorted(&plist(&v, true))));
    } else {
        ck!(names_same(mvdparser::team_names(&v), teams_of(&v)));
    }
    rc!("C12:words");
}
/// C18: name, team or account of a player is an arbitrary word, given directly (0) or in the embedded text (1).
pub fn pl_word(n: usize, kind: usize, which: usize, json: usize) {
    let x = word(n, kind);
    let mut s = KtxstatsV3::default();
    for i in 0..3 {
        let mut q = KPlayer::default();
        q.name = ["bob", "Alice", "carl"][i].into();
        q.team = ["red", "", "blue"][i].into();
        q.login = ["", "acc", "z"][i].into();
        if i == 1 {
            *[&mut q.name, &mut q.team, &mut q.login][which] = spec::text(&x);
        }
        q.ping = [25, 10, 37][i];
        q.stats.frags = [5, 5, -3][i];
        q.top_color = 4;
        q.bottom_color = i as i32;
        s.players.push(q);
    }
    let want = from_stats(&s);
    if json == 0 {
        let g = a::players_from_ktxstats(&s);
        ck!(g.is_ok());
        ck!(pl_same(&g.unwrap(), &want));
        rc!("C18:words");
    } else {
        let mut t = JS.to_vec();
        for (i, q) in s.players.iter().enumerate() {
            let y = |k: usize, f: &str| if i == 1 && k == which { x.clone() } else { f.as_bytes().to_vec() };
            t.extend(mk::cat(&[
                if i > 0 { b"," } else { b"" }, b"{\"top-color\": 4, \"bottom-color\": ", &[b'0' + i as u8], b", \"ping\": ", [b"25", b"10", b"37"][i], b", \"login\": \"", &y(2, &q.login), b"\", \"name\": \"",
                &y(0, &q.name), b"\", \"team\": \"", &y(1, &q.team), b"\", \"stats\": {\"frags\": ", [b"5".as_slice(), b"5", b"-3"][i], b", \"deaths\": 1}}",
            ]));
        }
        t.extend_from_slice(b"]}");
        let g = mvdparser::players(&stats_block(&t));
        ck!(g.is_ok());
        ck!(pl_same(&g.unwrap(), &want));
        rc!("C18:words in the text");
    }
}
/// C19: name, team or account of a client is an arbitrary word; the frames have any header.
pub fn join_word(n: usize, kind: usize, which: usize, fk: usize) {
    let x = word(n, kind);
    let y = |k: usize, f: &[u8]| if k == which { x.clone() } else { f.to_vec() };
    let nm = y(0, b"carl");
    let info = mk::cat(&[b"\\name\\", &nm, b"\\team\\", &y(1, b"red"), b"\\*auth\\", &y(2, b"acc"), b"\\*flag\\", &y(3, b"se")]);
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[b"\\name\\Bob\\team\\blue", &info, b"\\name\\z!d\\team\\red"]));
    d.any([1, 3, 4, 5, 6][fk], &mk::print(1, &mk::cat(&[&nm, b" died\n"])));
    d.any([6, 1, 3, 4, 5][fk], &mk::cat(&[&mk::ping(1, 26, 0), &mk::ping(0, 40, 0)]));
    d.any([5, 6, 1, 3, 4][fk], &mk::print(1, &mk::cat(&[b"z!d was railed by ", &nm, b"\n"])));
    d.any([4, 5, 6, 1, 3][fk], &mk::print(1, &mk::cat(&[&nm, b" suicides\n"])));
    let mut w = vec![];
    for (i, c) in spec::clients(&d.d).unwrap().into_iter().enumerate() {
        w.push(spec::Pl { name: c.name, team: c.team, color: c.color, frags: [0, -2, 0][i], ping: [40, 26, 0][i], bot: false, auth: c.auth, cc: c.cc });
    }
    let g = a::players_from_parsing(&d.d);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &spec::ranked(w)));
    rc!("C19:words");
}
/// C20: one of three team names is an arbitrary word, another one may be it in capitals.
pub fn tm_word(n: usize, kind: usize, other: usize, _: usize) {
    let x = word_str(n, kind);
    let mut v = vec![];
    for i in 0..5 {
        let mut p = base(i);
        p.team = ["red", "Blue", "mix", "", " "][(i * 2) % 5].into();
        if i % 2 == 1 {
            p.team = x.clone();
        }
        if i == 4 && other == 1 {
            p.team = x.to_uppercase();
        }
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:words");
}
/// C25: host name and address are arbitrary words, directly (0) or in the text (1); the port has `n` arbitrary digits (2).
pub fn sv_word(n: usize, kind: usize, how: usize, _: usize) {
    let x = word(n, kind);
    let t = spec::text(&x);
    if how == 0 {
        let mut s = KtxstatsV3::default();
        s.hostname = t.clone();
        s.ip = format!("{}.", t);
        s.port = 27500;
        let g = mvdparser::Server::from(&s);
        ck!(g.hostname == t && g.ip == s.ip && g.port == 27500);
        ck!(g.address == s.ip + ":27500");
        rc!("C25:words");
    } else {
        let num = how == 2;
        let s = mk::cat(&[b"{\"version\": 3, \"hostname\": \"", &x, b"\", \"ip\": \"", &x, b"\", \"port\": ", if num { &x } else { b"27500" }, b"}"]);
        let g = mvdparser::server(&stats_block(&s));
        if !num {
            ck!(g.is_ok());
            let g = g.unwrap();
            ck!(g.hostname == t && g.ip == t && g.port == 27500);
            ck!(g.address == t + ":27500");
            rc!("C25:words in the text");
        } else {
            let mut p = 0u64;
            for &c in &x {
                p = p * 10 + (c - b'0') as u64;
            }
            if x[0] != b'0' || n == 1 {
                ck!(g.is_ok() == (p <= u32::MAX as u64));
            } else {
                ck!(g.is_err());
            }
            if let Ok(g) = g {
                ck!(g.port as u64 == p && g.address == format!("{}:{}", t, t));
                rc!("C25:digits");
            }
        }
    }
}
/// C22: the epoch has `n` digits behind a sign, those from `pw % 100` on arbitrary (`pw / 100`, 0: four).
pub fn ts_word(n: usize, sign: usize, md: usize, pw: usize) {
    let (p, w) = (pw % 100, if pw < 100 { 4 } else { pw / 100 });
    let mut x = b"17137750851"[..n].to_vec();
    for i in p..n.min(p + w) {
        x[i] = word(1, 2)[0];
    }
    let val = mk::cat(&[[b"".as_slice(), b"-", b"+", b"0"][sign], &x]);
    let mut v = mk::serverinfo_body(&mk::cat(&[b"\\map\\dm2\\epoch\\", &val, b"\\mode\\2on2"]));
    if md == 1 {
        v.extend_from_slice(b"\x01\x06..\x08\x02matchdate: 2024-04-22 10:38:05 CEST\n\x00");
    }
    let mut e = 0i64;
    for &c in &val[if sign == 1 || sign == 2 { 1 } else { 0 }..] {
        e = e * 10 + (c - b'0') as i64;
    }
    if sign == 1 {
        e = -e;
    }
    let got = mvdparser::timestamp(&v);
    let te = a::timestamp_from_epoch(&v);
    if e >= i32::MIN as i64 && e <= i32::MAX as i64 {
        ck!(got.is_ok() && te.is_ok());
        ck!(got.unwrap().timestamp() == e);
        ck!(te.unwrap().timestamp() == e);
        rc!("C22:digits");
    } else {
        ck!(te.is_err());
        if md == 1 {
            ck!(got.is_ok());
            ck!(got.unwrap().timestamp() == 1713775085);
        } else {
            ck!(got.is_err());
        }
        rc!("C22:digits beyond");
    }
}
/// C26: the recorded duration has `n` arbitrary digits, `frac` of them behind the point; a sign or an exponent by `k`.
pub fn du_word(n: usize, frac: usize, k: usize, _: usize) {
    let x = word(n, 2);
    let mut num = x[..n - frac].to_vec();
    if frac > 0 {
        num.push(b'.');
        num.extend_from_slice(&x[n - frac..]);
    }
    if k == 1 {
        num.insert(0, b'-');
    }
    let s = mk::cat(&[b"{\"version\": 3, \"duration\": ", &num, b", \"demo\": \"x\"}"]);
    let mut d = Demo::new();
    d.all(5, &mk::serverinfo_body(b"\\map\\x\\mode\\1on1"));
    d.all(100, &mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n"));
    d.all(200, &mk::print(2, b"The match is over\n"));
    d.raw(&stats_block(&s));
    let mut int = 0u64;
    for &c in &x[..n - frac] {
        int = int * 10 + (c - b'0') as u64;
    }
    let g = a::match_duration_from_ktxstats(&d.d);
    let m = mvdparser::match_duration(&d.d);
    let mut zero = true;
    for &c in &x {
        zero &= c == b'0';
    }
    if k == 1 && !zero {
        ck!(g.is_err());
        ck!(m.is_ok());
        ck!(exactly(m.unwrap(), 305, 105));
        rc!("C26:negative");
    } else {
        ck!(g.is_ok() && m.is_ok());
        let g = g.unwrap();
        ck!(g == m.unwrap());
        ck!(g.as_secs() == int);
        if frac == 0 {
            ck!(g.subsec_nanos() == 0);
        }
        rc!("C26:digits");
    }
}
/// C14: three obituaries with `cnt` fillers `g` before and between them.
pub fn obit_gap(i: usize, g: usize, cnt: usize, _: usize) {
    let mut d = Demo::new();
    let mut want = vec![];
    for j in 0..3 {
        for _ in 0..cnt {
            d.filler(g);
        }
        let (t, who, score) = obituary((i + 7 * j) % 66, [b"abc".as_slice(), b"x y"][j % 2], b"def");
        d.all(1, &mk::print(1, &mk::cat(&[&t, b"\n"])));
        spec::add(&mut want, &spec::text(&who), score);
    }
    d.filler(g);
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
    rc!("C14:gaps");
}
/// C16: three flag events with `cnt` fillers `g` before and between them.
pub fn flag_gap(k: usize, g: usize, cnt: usize, split: usize) {
    let mut d = Demo::new();
    let mut want = vec![];
    for j in 0..3 {
        for _ in 0..cnt {
            d.filler(g);
        }
        let n: &[u8] = [b"abc".as_slice(), b"x y"][j % 2];
        let e = (k + 3 * j) % 14;
        d.all(1, &flag_prints(e, n, split == 1));
        flag_add(&mut want, &spec::text(n), flag_text(e).1, 1);
    }
    d.filler(g);
    ck!(flags_eq(&d.d, &want));
    rc!("C16:gaps");
}
/// C16: other messages around an event in its frame: before it, behind it, between two of them.
pub fn flag_around(k: usize, g: usize, at: usize, split: usize) {
    let other: Vec<u8> = match g {
        0 => vec![1],
        1 => mk::print(0, b"you got the shells\n"),
        2 => mk::print(2, b"the match is on\n"),
        3 => mk::print(3, b"abc: the flag!\n"),
        4 => mk::print(1, b"x was axed by y\n"),
        5 => mk::print(2, b"no flag today\n"),
        6 => mk::print(2, b""),
        _ => mk::cat(&[&mk::print(2, b"one\n"), &mk::print(2, b"two\n")]),
    };
    let mut b = vec![];
    let mut want = vec![];
    for j in 0..2 {
        if at >> j & 1 == 1 {
            b.extend_from_slice(&other);
        }
        let n: &[u8] = [b"abc".as_slice(), b"x y"][j % 2];
        let e = (k + 5 * j) % 14;
        b.extend(flag_prints(e, n, split == 1));
        flag_add(&mut want, &spec::text(n), flag_text(e).1, 1);
    }
    if at >> 2 & 1 == 1 {
        b.extend_from_slice(&other);
    }
    let mut d = Demo::new();
    d.any(6, &b);
    ck!(flags_eq(&d.d, &want));
    rc!("C16:around");
}
/// C16: the name comes in two prints, the second with the event.
pub fn flag_name_parts(k: usize, n: usize, cut: usize, kind: usize) {
    let a = word(n, kind);
    let mut d = Demo::new();
    d.all(1, &mk::cat(&[&mk::print(2, &a[..cut]), &mk::print(2, &mk::cat(&[&a[cut..], &flag_text(k).0]))]));
    let mut want = vec![];
    flag_add(&mut want, &spec::text(&a), flag_text(k).1, 1);
    ck!(flags_eq(&d.d, &want));
    rc!("C16:name in parts");
}
/// C13: `m` sampled frames with `cnt` fillers `g` before and between them.
pub fn ping_gap(m: usize, g: usize, cnt: usize, _: usize) {
    let mut d = Demo::new();
    let mut want = vec![];
    let q = byte();
    for j in 0..m {
        for _ in 0..cnt {
            d.filler(g);
        }
        let ms = 20 + j as u16 * 3;
        d.any([6, 4, 1][j % 3], &mk::cat(&[&mk::ping(3, ms, 0), &mk::ping(q, 500, 9)]));
        if j < 8 {
            ping_add(&mut want, 3, ms as u32);
            ping_add(&mut want, q, 500);
        }
    }
    ck!(pings_eq(&d.d, &want));
    rc!("C13:gaps");
}
/// C05: prints with `cnt` fillers `g` before and between them.
pub fn prints_gap(m: usize, g: usize, cnt: usize, n: usize) {
    let mut d = Demo::new();
    let mut want: Vec<spec::P> = vec![];
    for j in 0..m {
        for _ in 0..cnt {
            d.filler(g);
        }
        let c = mk::cat(&[&[b'a' + j as u8], &word(n, j % 4)]);
        d.any([6, 5, 1][j % 3], &mk::print(j as u8 % 4, &c));
        want.push((j as u8 % 4, c));
    }
    d.filler(g);
    let got = mvdparser::prints(&d.d);
    ck!(got.len() == m);
    for (g, w) in got.iter().zip(&want) {
        ck!(g.id.clone() as u8 == w.0 && g.content == w.1);
    }
    rc!("C05:gaps");
}
/// C15: fillers between the obituary and the update of an arbitrary player; only three frames with a body are looked at.
pub fn teamkill_gap(pat: usize, g: usize, cnt: usize, mixed: usize) {
    let p = byte();
    let infos: [&[u8]; 4] = [b"\\name\\vic\\team\\red", b"\\name\\one\\team\\red", b"\\name\\two\\team\\blue", b"\\name\\x y\\team\\red"];
    let names: [&[u8]; 4] = [b"vic", b"one", b"two", b"x y"];
    let mut d = Demo::new();
    d.filler(g);
    d.all(1, &mk::spawn_body(&infos));
    d.filler(g);
    d.all(1, &mk::print(1, &mk::cat(&[b"vic", spec::TEAMKILLED[pat].as_bytes(), b"\n"])));
    let mut bodies = 1;
    for c in 0..cnt {
        if d.filler(if mixed == 1 { (g + 5 * c) % 11 } else { g }) {
            bodies += 1;
        }
    }
    d.any(6, &mk::upfrags(p, -1));
    bodies += 1;
    d.filler(g);
    let mut want = vec![];
    for c in [1, 3] {
        if p as usize == c && bodies <= 3 {
            spec::add(&mut want, &spec::text(names[c]), -1);
            rc!("C15:gaps");
        }
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
}

// ------------------------------------------------------------------ every combination of values and absent fields

/// Info string number `c` of `INFOS`: name, team, marks, colours and account each present, absent or empty.
pub const INFOS: usize = 5 * 6 * 4 * 3;
pub fn info_no(c: usize, name: &[u8]) -> Vec<u8> {
    let (t, s, b, x) = (c % 6, c / 6 % 4, c / 24 % 3, c / 72 % 5);
    let mut v = vec![];
    if x == 1 {
        v.extend_from_slice(b"\\bottomcolor\\4\\*auth\\acc");
    }
    if t != 1 || x == 2 {
        v.extend(mk::cat(&[[b"\\team\\red".as_slice(), b"", b"\\team\\Red", b"\\team\\blue", b"\\team\\re", b"\\team\\\xf2\xe5\xe4"][t]]));
    }
    v.extend_from_slice([b"".as_slice(), b"\\*spectator\\1", b"\\*spectator\\0", b"\\*spectator\\-2"][s]);
    if !name.is_empty() {
        v.extend(mk::cat(&[b"\\name\\", name]));
    }
    v.extend_from_slice([b"".as_slice(), b"\\*bot\\1", b"\\*bot\\0"][b]);
    v.extend_from_slice([b"".as_slice(), b"", b"\\topcolor\\13", b"\\*flag\\se\\topcolor\\0", b"\\team\\"][x]);
    if name.is_empty() {
        // a value can be empty at the end only
        v.extend_from_slice(b"\\name\\");
    }
    v
}
/// An info string of any number that is `k` more than a multiple of seven (seven such jobs cover all of them).
fn some_info(k: usize, name: &[u8]) -> Vec<u8> {
    info_no((7 * choice(52) + k % 7) % INFOS, name)
}
/// C12: three clients with info strings of the numbers `a`, any and `b` next to each other.
pub fn part_combo(a: usize, b: usize, same: usize, k: usize) {
    let nm: [&[u8]; 3] = [[b"ann".as_slice(), b"bob", b"Cid"], [b"bob", b"bob", b"BOB"], [b"\xe2ob", b"b", b"bob"], [b"", b"bob", b""], [b"ann", b"", b"bob"]][same];
    let infos = [info_no(a, nm[0]), some_info(k, nm[1]), info_no(b, nm[2])];
    let v = mk::spawn_body(&[&infos[0], &infos[1], &infos[2]]);
    let (p, s) = part_same(&v, B + line!());
    ck!(p + s == spec::clients(&v).unwrap().len());
    let w = spec::clients(&v).unwrap();
    ck!(names_same(mvdparser::player_names(&v), spec::sorted(&plist(&v, false))));
    ck!(names_same(mvdparser::spectator_names(&v), spec::sorted(&plist(&v, true))));
    ck!(names_same(mvdparser::team_names(&v), teams_of(&v)));
    ck!(a::has_bot_players(&v).unwrap() == w.iter().any(|c| !c.spec && c.bot));
    ck!(a::has_human_players(&v).unwrap() == w.iter().any(|c| !c.spec && !c.bot));
    rc!("C12:combinations");
}
/// C12: the statistics name a bot at `at` bytes from the start of `len`, with clients or bots among them.
pub fn part_bot_at(at: usize, len: usize, k: usize, _: usize) {
    let mut v = mk::spawn_body(&[b"\\name\\ann", &info_no([0, 24, 30, 26][k], b"bob")]);
    let n = v.len();
    v.extend(vec![1; at]);
    v.extend_from_slice(b"\"bot\": ");
    v.push(byte());
    v.extend(vec![2; len]);
    let c = v[n + at + 7];
    ck!(a::has_bot_players(&v).unwrap() == (c == b'{' || k == 1 || k == 3));
    ck!(a::has_human_players(&v).unwrap());
    rc!("C12:bot in the statistics");
}
/// C15: victim, a bystander and the killer have info strings of any number; updates of two arbitrary players.
pub fn teamkill_combo(a: usize, b: usize, pat: usize, which: usize) {
    let nm: [&[u8]; 4] = [b"vic", b"one", b"two", b"3 x"];
    let i = |k: usize, f: usize| if k == which { some_info(a + b, nm[k]) } else { info_no(f, nm[k]) };
    let infos = [i(0, a), i(1, b), i(2, a), i(3, (a + b) % INFOS)];
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[&infos[0], &infos[1], &infos[2], &infos[3]]));
    let (p, q) = (byte(), [2u8, 1, 3, 0][(a + b) % 4]);
    d.all(1, &mk::cat(&[&mk::print(1, &mk::cat(&[b"vic", spec::TEAMKILLED[pat].as_bytes(), b"\n"])), &mk::upfrags(p, 1)]));
    d.all(1, &mk::upfrags(q, -1));
    let w = spec::clients(&d.d).unwrap();
    let mut want = vec![];
    for u in [p, q] {
        for c in 0..4 {
            if want.is_empty() && u as usize == c && c != 0 && w[c].team == w[0].team {
                spec::add(&mut want, &w[c].name, -1);
                rc!("C15:combinations");
            }
        }
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
}
/// C19: three clients with info strings of any number, each with or without scores and pings.
pub fn join_combo(a: usize, b: usize, sc: usize, pg: usize) {
    let nm: [&[u8]; 3] = [[b"bob".as_slice(), b"Bob", b"bo"], [b"bob", b"", b"bob"], [b"", b"Bob", b""], [b"b", b"b", b"b"]][pg >> 3];
    let infos = [info_no(a, nm[0]), some_info(sc + pg, nm[1]), info_no(b, nm[2])];
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[&infos[0], &infos[1], &infos[2]]));
    let mut fr = [0; 3];
    for i in 0..3 {
        match sc / [1, 4, 16][i] % 4 {
            1 => {
                d.all(1, &mk::print(1, &mk::cat(&[nm[i], b" died\n"])));
                for j in 0..3 {
                    fr[j] += if nm[j] == nm[i] { -1 } else { 0 };
                }
            }
            2 => {
                d.all(1, &mk::print(1, &mk::cat(&[b"nobody rides ", nm[i], b"'s rocket\n"])));
                for j in 0..3 {
                    fr[j] += if nm[j] == nm[i] { 1 } else { 0 };
                }
            }
            3 => {
                d.all(1, &mk::print(1, &mk::cat(&[nm[i], b" suicides\n"])));
                for j in 0..3 {
                    fr[j] += if nm[j] == nm[i] { -2 } else { 0 };
                }
            }
            _ => {}
        }
    }
    let mut b = mk::ping(9, 60000, 0);
    let mut ms = [0; 3];
    for i in 0..3 {
        if pg >> i & 1 == 1 {
            ms[i] = [10, 0, 333][i];
            b.extend(mk::ping(i as u8, ms[i] as u16, 5));
        }
    }
    d.all(1, &b);
    let mut w = vec![];
    for (i, c) in spec::clients(&d.d).unwrap().into_iter().enumerate() {
        if !c.spec {
            w.push(spec::Pl { name: c.name, team: c.team, color: c.color, frags: fr[i], ping: ms[i], bot: c.bot, auth: c.auth, cc: c.cc });
        }
    }
    let g = mvdparser::players(&d.d);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &spec::ranked(w)));
    rc!("C19:combinations");
}
const KP: usize = 5 * 5 * 4 * 2 * 2;
fn kplayer(c: usize, name: &str) -> KPlayer {
    let mut q = KPlayer::default();
    q.name = name.into();
    q.stats.frags = [5, 0, -100, i32::MAX, i32::MIN][c % 5];
    q.ping = [25, 10, 9, 0, -7][c / 5 % 5];
    q.team = ["red", "", "Red", " "][c / 25 % 4].into();
    q.login = ["", "acc"][c / 100 % 2].into();
    if c / 200 % 2 == 1 {
        q.bot = Some(Default::default());
    }
    q.top_color = [4, 13, 0, 255, 300, -1][c % 6];
    q.bottom_color = [4, 0, 13, -1, 256][c % 5];
    q
}
/// C18, C20: players of the statistics with every combination of values.
pub fn pl_combo(a: usize, b: usize, same: usize, _: usize) {
    let nm = [["ann", "bob", "Cid"], ["bob", "bob", "bob"], ["b", "B", "bo"], ["", "a", ""]][same];
    let mut s = KtxstatsV3::default();
    s.players = vec![kplayer(a, nm[0]), kplayer(choice(KP), nm[1]), kplayer(b, nm[2])];
    let want = from_stats(&s);
    let g = a::players_from_ktxstats(&s);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &want));
    rc!("C18:combinations");
}
pub fn tm_combo(a: usize, b: usize, n: usize, _: usize) {
    let mut s = KtxstatsV3::default();
    s.players = vec![kplayer(a, "ann"), kplayer(choice(KP), "bob"), kplayer(b, "cid"), kplayer((a + 3 * b) % KP, "dan")];
    s.players.truncate(n);
    let want = spec::teams(&from_stats(&s));
    let g = a::teams_from_ktxstats(&s);
    ck!(g.is_ok());
    ck!(tm_same(&g.unwrap(), &want));
    rc!("C20:combinations");
}
/// C22: epoch number `e`, announcement number `m`, mode number `k`.
pub fn ts_combo(e: usize, m: usize, k: usize, order: usize) {
    let ep: &[u8] = [b"".as_slice(), b"\\epoch\\0", b"\\epoch\\1", b"\\epoch\\86399", b"\\epoch\\-1", b"\\epoch\\-86401", b"\\epoch\\", b"\\epoch\\x", b"\\epoch\\1713775085 ", b"\\Epoch\\5", b"\\epoch\\1\\epoch\\", b"\\epoch\\2147483647", b"\\epoch\\-2147483648"][e];
    let md: &[u8] = [b"".as_slice(), b"2024-04-22 10:38:05 CEST\n", b"2024-04-22 10:38:05 CET\n", b"2024-04-31 10:38:05 CET\n", b"2024-04-22 10:38:05 XYZ\n", b"1969-12-31 23:59:59 UTC\n", b"1970-01-01 00:00:00 +0100\n"][m];
    let mut d = Demo::new();
    let si = mk::serverinfo_body(&mk::cat(&[b"\\map\\dm2", [b"".as_slice(), b"\\mode\\hoonymode", b"\\*version\\MVDSV"][k], ep, b"\\x\\y"]));
    let md = if m == 0 { vec![1] } else { mk::print(2, &mk::cat(&[b"matchdate: ", md])) };
    for x in if order == 0 { [&si, &md] } else { [&md, &si] } {
        d.any(6, x);
    }
    let v = d.d;
    let want = spec::int(spec::info(&spec::text(&spec::serverinfo(&v).unwrap_or_default()), "epoch")).map(|e| e as i64);
    let g = mvdparser::timestamp(&v);
    let by = match spec::matchdate(&v) {
        Some(x) => x,
        None => None,
    };
    let w = match want {
        Some(e) => Some(e),
        None => by,
    };
    ck!(g.is_ok() == w.is_some());
    if let (Ok(g), Some(w)) = (g, w) {
        ck!(g.timestamp() == w);
        rc!("C22:combinations");
    }
    ck!(a::timestamp_from_epoch(&v).ok().map(|t| t.timestamp()) == want);
}
/// C16: an event with `n` arbitrary bytes behind its line in the last print of a frame.
pub fn flag_tail(k: usize, n: usize, first: usize, _: usize) {
    let mut d = Demo::new();
    let mut want = vec![];
    let mut b = vec![];
    if first == 1 {
        b.extend(mk::print(2, b"no flag\n"));
    }
    let tail = bytes(n);
    for &c in &tail {
        assume(c != 0);
    }
    b.extend(mk::print(2, &mk::cat(&[b"abc", &flag_text(k).0, &tail])));
    d.all(1, b"\x08\x02the flag\n\0");
    d.any(6, &b);
    flag_add(&mut want, "abc", flag_text(k).1, 1);
    ck!(flags_eq(&d.d, &want));
    rc!("C16:tail");
}
/// C20: `n` players of one team and colour among `m` with other colours, from player `at` on.
pub fn tm_crowd(n: usize, m: usize, at: usize, _: usize) {
    let mut v = vec![];
    for i in 0..n + m {
        let other = i >= at && i < at + m;
        v.push(spec::Pl { name: "a".into(), team: "t".into(), color: if other { [1, i as u8 & 1] } else { [4, 4] }, frags: 1, ping: 20, bot: false, auth: None, cc: None });
    }
    let c = byte();
    v[n / 2].frags = c as i32;
    let real: Vec<mvdparser::Player> = v.iter().map(crate::stats::real).collect();
    let g = a::teams_from_players(&real);
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:crowd");
}
/// C15: a team kill between players with long names and a long team name.
pub fn teamkill_long(pat: usize, len: usize, tl: usize, _: usize) {
    let (v, k, mut t) = (crate::events::long_name(len, b'v'), crate::events::long_name(len, b'k'), crate::events::long_name(tl, b't'));
    for c in [v[len - 1], k[len - 1], t[tl - 1]] {
        assume(c > 34 && c < 127 && c != 92);
    }
    let mut u = t.clone();
    t[tl - 1] = b'1';
    u[tl - 1] = b'2';
    let infos = [mk::cat(&[b"\\team\\", &u, b"\\name\\other"]), mk::cat(&[b"\\name\\", &v, b"\\team\\", &t]), mk::cat(&[b"\\team\\", &t, b"\\name\\", &k])];
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[&infos[0], &infos[1], &infos[2]]));
    d.any(6, &mk::cat(&[&mk::print(1, &mk::cat(&[&v, spec::TEAMKILLED[pat].as_bytes(), b"\n"])), &mk::upfrags(0, 5)]));
    d.any([6, 4, 5, 3][pat % 4], &mk::upfrags(2, -1));
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &[(spec::text(&k), -1)]));
    rc!("C15:long");
}
