//! C02 totality of metadata extraction, C09 server info, C10 client list, C11 client fields, C12 partition and names,
//! C24 status flags.
use crate::mk;
use crate::spec;
use crate::sym::*;
use mvdparser::all as a;
const B: u32 = 30_000;

fn meta_one(v: &[u8], which: usize) {
    let s = |x: bool| x as u64;
    report(match which {
        0 => a::serverinfo_string(v).map_or(0, |x| x.len() as u64),
        1 => mvdparser::filename(v).map_or(0, |x| x.len() as u64),
        2 => a::clientinfo_strings(v).map_or(0, |x| x.len() as u64),
        3 => a::clients(v).map_or(0, |x| x.len() as u64),
        4 => mvdparser::player_names(v).map_or(0, |x| x.len() as u64) + mvdparser::spectator_names(v).map_or(0, |x| x.len() as u64),
        5 => mvdparser::team_names(v).map_or(0, |x| x.len() as u64),
        6 => s(mvdparser::is_valid(v)) + 2 * s(mvdparser::is_paused(v)) + 4 * s(mvdparser::is_aborted(v)),
        7 => s(a::has_clients(v)) + 2 * s(a::has_end_of_demo_print(v)),
        8 => s(a::has_bot_players(v).unwrap_or(true)) + 2 * s(a::has_human_players(v).unwrap_or(true)),
        _ => mvdparser::serverinfo(v).map_or(0, |x| x.epoch.unwrap_or(0) as u32 as u64),
    });
}
/// C02: `n` arbitrary bytes.
pub fn meta_total(n: usize, which: usize, _: usize, _: usize) {
    let v = bytes(n);
    meta_one(&v, which);
    rc!("C02:raw");
}
/// C02: a marker at the start or after some bytes, then `n` arbitrary bytes, at the end of the data.
pub fn meta_tail(n: usize, which: usize, k: usize, pad: usize) {
    let mut v = vec![1u8; pad];
    let m: &[u8] = [
        b"\x09cmd spawn".as_slice(), b"\x09cmd spawn\x00\\name\\", b"\x09cmd spawn \\name\\ab\x00", b"fullserverinfo \"", b"fullserverinfo \"\\serverdemo\\",
        b"\x00\x09cmd spawn\x00\x28\x01\x02\x00\x00\x00\\name\\a\\*bot\\", b"\x09cmd spawn\x00\x28\x01\x02\x00\x00\x00\\*spectator\\1\\team\\x\\name\\",
        b"fullserverinfo \"\\epoch\\", b"Server is pause",
    ][k];
    v.extend_from_slice(m);
    v.extend(bytes(n));
    meta_one(&v, which);
    rc!("C02:tail");
}
/// C02: `n` arbitrary bytes, then a marker without its first `cut` bytes, `k`-th marker, at the end of the data.
pub fn meta_front(n: usize, which: usize, k: usize, cut: usize) {
    let mut v = bytes(n);
    let m: &[u8] = [
        b"\x00\x02EndOfDemo\x00".as_slice(), b"\x09cmd spawn", b"fullserverinfo \"", b"paused the game", b"\x08\x02\xcd\xe1\xf4\xe3\xe8", b"\\name\\abc\x00", b"\"bot\": {", b"\x08\x02EndOfDemo\x00",
    ][k];
    v.extend_from_slice(&m[cut.min(m.len())..]);
    meta_one(&v, which);
    rc!("C02:front");
}
/// C02: the data ends `cut` bytes short of `base` bytes of filler after a marker, a name stands `dist` bytes after it.
pub fn meta_window(dist: usize, len: usize, which: usize, k: usize) {
    let mut v = vec![1u8];
    let m: &[u8] = [b"\x09cmd spawn".as_slice(), b"fullserverinfo \""][k];
    v.extend_from_slice(m);
    let at = v.len() + dist;
    v.resize(at.max(v.len() + len), b'x');
    let b = bytes(2);
    let n = v.len();
    v.truncate(at);
    v.extend_from_slice(b"\\name\\");
    v.push(b[0]);
    v.resize(v.len().max(n), b'y');
    v.push(b[1]);
    meta_one(&v, which);
    rc!("C02:window");
}

// ------------------------------------------------------------------ C09

pub fn si_same(v: &[u8], id: u32) -> Option<Vec<u8>> {
    let want = spec::serverinfo(v);
    let got = mvdparser::serverinfo_string(v);
    match &want {
        None => check(got.is_err(), id),
        Some(b) => {
            check(got.is_ok(), id);
            let g = got.unwrap();
            report(g.len() as u64);
            check(g == spec::color_stripped(b), id);
        }
    }
    want
}
/// C09: after the marker `n` arbitrary bytes, with a closing quote behind them (q) or not.
pub fn si_raw(n: usize, pre: usize, q: usize, _: usize) {
    let mut v = vec![0x22u8; pre];
    v.extend_from_slice(b"fullserverinfo \"");
    v.extend(bytes(n));
    if q == 1 {
        v.extend_from_slice(b"\"");
    }
    if si_same(&v, B + line!()).is_some() {
        rc!("C09:found");
    } else {
        rc!("C09:not found");
    }
}
/// C09: the marker itself is arbitrary in byte k (of 16); a second, good marker may follow.
pub fn si_marker(k: usize, second: usize, _: usize, _: usize) {
    let mut m = b"fullserverinfo \"".to_vec();
    m[k] = byte();
    let mut v = b"x\"".to_vec();
    v.extend_from_slice(&m);
    v.extend_from_slice(b"\\map\\a\"");
    if second == 1 {
        v.extend_from_slice(b"fullserverinfo \"\\map\\b\"");
    }
    si_same(&v, B + line!());
    rc!("C09:marker");
}
/// C09: the text stands so that it ends at offset `end` of the data, around the 1280 byte window; `more` bytes follow.
pub fn si_window(end: usize, len: usize, more: usize, _: usize) {
    let mut v = vec![b'.'; end - len - 17];
    v.extend_from_slice(b"fullserverinfo \"");
    let mut t = vec![b'a'; len];
    if len > 0 {
        t[len - 1] = byte();
        t[0] = byte();
    }
    v.extend_from_slice(&t);
    v.push(b'"');
    v.extend(vec![b'"'; more]);
    if si_same(&v, B + line!()).is_some() {
        rc!("C09:inside the window");
    } else {
        rc!("C09:outside the window");
    }
}
pub fn si_demo(info: &[u8]) -> Vec<u8> {
    mk::cat(&[b"\x00\x06junk\x00", b"\x09fullserverinfo \"", info, b"\"\n\x00"])
}
pub fn settings_same(v: &[u8], info: &[u8]) -> bool {
    let s = spec::color_stripped(info);
    let g = |k: &str| spec::info(&s, k);
    let i = |k: &str| spec::int(spec::info(&s, k));
    let Ok(x) = mvdparser::serverinfo(v) else { return false };
    x.admin == g("*admin") && x.deathmatch == i("deathmatch") && x.epoch == i("epoch") && x.fpd == i("fpd") && x.fraglimit == i("fraglimit")
        && x.gamedir == g("*gamedir") && x.hostname == g("hostname") && x.ktxmode == g("ktxmode") && x.ktxver == g("ktxver") && x.map == g("map")
        && x.matchtag == g("matchtag") && x.maxclients == i("maxclients") && x.maxfps == i("maxfps") && x.maxspectators == i("maxspectators")
        && x.mode == g("mode") && x.needpass == i("needpass") && x.pm_ktjump == i("pm_ktjump") && x.progs == g("*progs") && x.qvm == g("*qvm")
        && x.status == g("status") && x.serverdemo == g("serverdemo") && x.sv_antilag == i("sv_antilag") && x.teamplay == i("teamplay")
        && x.timelimit == i("timelimit") && x.version == g("*version") && x.z_ext == i("*z_ext")
}
pub const KEYS: [&[u8]; 28] = [
    b"*admin", b"deathmatch", b"epoch", b"fpd", b"fraglimit", b"*gamedir", b"hostname", b"ktxmode", b"ktxver", b"map", b"matchtag", b"maxclients", b"maxfps", b"maxspectators",
    b"mode", b"needpass", b"pm_ktjump", b"*progs", b"*qvm", b"status", b"serverdemo", b"sv_antilag", b"teamplay", b"timelimit", b"*version", b"*z_ext", b"admin", b"x",
];
/// C09: key `k` (of 28) with `n` arbitrary bytes as its value among other settings, `dup` repeats it with a fixed value
/// before (1) or after (2).
pub fn si_setting(k: usize, n: usize, dup: usize, _: usize) {
    let val = bytes(n);
    for &c in &val {
        assume(c != b'"');
    }
    let rep: Vec<u8> = mk::cat(&[b"\\", KEYS[k], b"\\31"]);
    let none: Vec<u8> = vec![];
    let info = mk::cat(&[
        b"\\maxfps\\77\\map\\dm2\\*version\\MVDSV 0.36", if dup == 1 { &rep } else { &none }, b"\\", KEYS[k], b"\\", &val, if dup == 2 { &rep } else { &none }, b"\\deathmatch\\3\\mode\\2on2\\serverdemo\\a.mvd",
    ]);
    let v = si_demo(&info);
    ck!(settings_same(&v, &info));
    let s = spec::color_stripped(&info);
    let f = mvdparser::filename(&v);
    match spec::info(&s, "serverdemo") {
        Some(x) => ck!(f.unwrap_or_default() == x),
        None => ck!(f.is_err()),
    }
    rc!("C09:setting");
}
/// C09: arbitrary info texts.
pub fn si_text(n: usize, k: usize, _: usize, _: usize) {
    let mut info = [b"".as_slice(), b"\\", b"\\serverdemo\\", b"\\map", b"map\\x\\map"][k].to_vec();
    info.extend(bytes(n));
    for &c in &info {
        assume(c != b'"');
    }
    if info.is_empty() {
        return;
    }
    let v = si_demo(&info);
    ck!(settings_same(&v, &info));
    let s = spec::color_stripped(&info);
    let f = mvdparser::filename(&v);
    match spec::info(&s, "serverdemo") {
        Some(x) => {
            ck!(f.unwrap_or_default() == x);
            rc!("C09:file name");
        }
        None => {
            ck!(f.is_err());
            rc!("C09:no file name");
        }
    }
}
pub fn file_same(v: &[u8], info: &[u8], id: u32) {
    let s = spec::color_stripped(info);
    check(settings_same(v, info), id);
    let f = mvdparser::filename(v);
    match spec::info(&s, "serverdemo") {
        Some(x) => check(f.unwrap_or_default() == x, id),
        None => check(f.is_err(), id),
    }
}
/// C09: key `k` with a value of `len` bytes, an arbitrary one at `pos`, `pad` bytes of other data in front.
pub fn si_long(k: usize, len: usize, pos: usize, pad: usize) {
    let mut val: Vec<u8> = (0..len).map(|i| [b'a', b'.', b'0', b'_', 0xe1, b' ', b'-'][i % 7]).collect();
    val[pos.min(len - 1)] = byte();
    assume(val[pos.min(len - 1)] != b'"');
    let info = mk::cat(&[b"\\maxfps\\77\\", KEYS[k], b"\\", &val, b"\\map\\dm2"]);
    let mut v = vec![7u8; pad];
    v.extend(si_demo(&info));
    file_same(&v, &info, B + line!());
    rc!("C09:long value");
}
/// C09: `m` other settings before and after key `k`, one arbitrary byte in the value of setting `at`.
pub fn si_many(m: usize, k: usize, at: usize, after: usize) {
    let b = byte();
    assume(b != b'"');
    let mut info = vec![];
    for i in 0..=m + after {
        if i == m {
            info.extend(mk::cat(&[b"\\", KEYS[k], b"\\12"]));
        }
        info.extend(mk::cat(&[b"\\k", &[b'a' + (i % 26) as u8, b'a' + (i / 26) as u8], b"\\", &[if i == at { b } else { b'1' }]]));
    }
    let v = si_demo(&info);
    file_same(&v, &info, B + line!());
    rc!("C09:many settings");
}

// ------------------------------------------------------------------ C10

pub fn ci_same(v: &[u8], id: u32) -> usize {
    match spec::clientinfo(v) {
        None => {
            check(a::clientinfo_strings(v).is_err(), id);
            0
        }
        Some(w) => {
            let g = a::clientinfo_strings(v);
            check(g.is_ok(), id);
            let g = g.unwrap();
            report(g.len() as u64);
            let mut ok = g.len() == w.len();
            if ok {
                for i in 0..w.len() {
                    if g[i] != spec::text(&w[i]) {
                        ok = false;
                        break;
                    }
                }
            }
            check(ok, id);
            w.len()
        }
    }
}
/// C10: marker, some bytes by parameter, `n` arbitrary bytes, terminated (t) or not.
pub fn ci_raw(n: usize, k: usize, t: usize, _: usize) {
    let mut v = vec![0u8; k & 1];
    v.extend_from_slice(b"\x09cmd spawn");
    v.extend_from_slice([b"".as_slice(), b" 1 0\n\x00\\name\\", b"\x00ab\\name", b"\x00\\name\\abc\x00"][k >> 1]);
    v.extend(bytes(n));
    if t == 1 {
        v.push(0);
    }
    if t == 2 {
        v.extend_from_slice(b"\x00\x28\x00\x01\x00\x00\x00\\team\\r\\name\\z\x00");
    }
    if ci_same(&v, B + line!()) > 0 {
        rc!("C10:raw found");
    }
}
/// C10: any byte of the marker may differ; a second marker may follow.
pub fn ci_marker(k: usize, second: usize, _: usize, _: usize) {
    let mut m = b"\x09cmd spawn".to_vec();
    m[k] = byte();
    let mut v = b"\x00x".to_vec();
    v.extend_from_slice(&m);
    v.extend_from_slice(b" 1\x00\\name\\abc\x00");
    if second == 1 {
        v.extend_from_slice(b"\x09cmd spawn\x00\\name\\de\x00");
    }
    ci_same(&v, B + line!());
    rc!("C10:marker");
}
/// C10: `m` clients, each with `n` arbitrary bytes in its info string (before or after the name), filler around.
pub fn ci_list(m: usize, n: usize, fill: usize, _: usize) {
    let mut infos: Vec<Vec<u8>> = vec![];
    for i in 0..m {
        let b = bytes(n);
        for &c in &b {
            assume(c != 0);
        }
        infos.push(if i % 2 == 0 { mk::cat(&[b"\\name\\", &b, b"\\team\\x", &vec![b'f'; fill]]) } else { mk::cat(&[b"\\*bot\\1", &b, b"\\name\\p", &vec![b'f'; fill]]) });
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    ck!(ci_same(&v, B + line!()) == m);
    rc!("C10:list");
}
/// C10: a string of exactly `len` bytes (name at its start or at its end), with arbitrary first and last byte.
pub fn ci_len(len: usize, name_at: usize, _: usize, _: usize) {
    let b = bytes(2);
    let mut s = vec![b'x'; len];
    let p = if name_at == 0 { 0 } else { len - 6 - (name_at - 1).min(len - 6) };
    for (i, c) in b"\\name\\".iter().enumerate() {
        s[p + i] = *c;
    }
    if p > 0 {
        s[0] = b[0];
    }
    if p + 6 < len {
        s[len - 1] = b[1];
    }
    let v = mk::spawn_body(&[b"\\name\\first", &s, b"\\name\\last"]);
    ci_same(&v, B + line!());
    rc!("C10:length");
}
/// C10: the name of the second string lies `dist` bytes after the end of the first.
pub fn ci_dist(dist: usize, first: usize, _: usize, _: usize) {
    let b = byte();
    let mut v = mk::stuff(b"cmd spawn 1 0\n");
    if first == 1 {
        v.extend_from_slice(b"\\name\\one\x00");
    }
    let at = if first == 1 { v.len() - 1 } else { 0 };
    while v.len() < at + dist - 1 {
        v.push(7);
    }
    v.push(0);
    v.extend_from_slice(b"\\name\\");
    v.push(b);
    v.push(b't');
    v.push(0);
    v.extend_from_slice(b"\\name\\three\x00");
    if ci_same(&v, B + line!()) >= 2 {
        rc!("C10:near");
    } else {
        rc!("C10:far");
    }
}
/// C10: many clients of the same length.
pub fn ci_many(m: usize, len: usize, gap: usize, _: usize) {
    let b = byte();
    assume(b != 0);
    let mut v = mk::stuff(b"cmd spawn 1 0\n");
    for i in 0..m {
        let mut s = b"\\name\\".to_vec();
        s.push(b'a' + (i % 26) as u8);
        while s.len() < len {
            s.push(b'.');
        }
        if i + 1 == m {
            s[6] = b;
        }
        v.extend_from_slice(&mk::userinfo(i as u8, 1, &s));
        v.extend(vec![3u8; gap]);
    }
    let n = ci_same(&v, B + line!());
    if n == m {
        rc!("C10:many");
    } else {
        rc!("C10:too many");
    }
}

// ------------------------------------------------------------------ C11

pub fn cl_same(v: &[u8], id: u32) -> Option<Vec<spec::Cl>> {
    let w = spec::clients(v);
    let g = a::clients(v);
    match &w {
        None => check(g.is_err(), id),
        Some(w) => {
            check(g.is_ok(), id);
            let g = g.unwrap();
            report(g.len() as u64);
            check(list_same(&g, w), id);
        }
    }
    w
}
pub fn list_same(g: &[mvdparser::Client], w: &[spec::Cl]) -> bool {
    if g.len() != w.len() {
        return false;
    }
    for i in 0..w.len() {
        let (x, y) = (&g[i], &w[i]);
        if x.number != y.number || x.name != y.name || x.team != y.team || x.color != y.color || x.is_spectator != y.spec || x.is_bot != y.bot || x.auth_username != y.auth || x.auth_cc != y.cc {
            return false;
        }
    }
    true
}
pub const CKEYS: [&[u8]; 12] = [b"name", b"team", b"topcolor", b"bottomcolor", b"*spectator", b"*bot", b"*auth", b"*flag", b"chat", b"*client", b"spectator", b"bot"];
/// C11: key `k` with `n` arbitrary bytes as value, repeated before (1) or after (2), in the middle of three clients.
pub fn cl_field(k: usize, n: usize, dup: usize, order: usize) {
    let val = bytes(n);
    for &c in &val {
        assume(c != 0);
    }
    let kv = mk::cat(&[b"\\", CKEYS[k], b"\\", &val]);
    let rep = mk::cat(&[b"\\", CKEYS[k], b"\\7"]);
    let none: Vec<u8> = vec![];
    let base: [&[u8]; 2] = [b"\\name\\mid\\topcolor\\4", b"\\bottomcolor\\11\\team\\red\\*flag\\se"];
    let (x, y) = if order == 0 { (base[0], base[1]) } else { (base[1], base[0]) };
    let info = mk::cat(&[x, if dup == 1 { &rep } else { &none }, &kv, if dup == 2 { &rep } else { &none }, y]);
    let v = mk::spawn_body(&[b"\\team\\blue\\name\\first\\*auth\\me\\topcolor\\3\\bottomcolor\\2", &info, b"\\*spectator\\1\\name\\last\\*bot\\1"]);
    let w = cl_same(&v, B + line!());
    ck!(w.is_some());
    rc!("C11:field");
    if w.unwrap().len() == 3 {
        rc!("C11:three");
    }
}
/// C11: key `k` with a value of `len` bytes, an arbitrary one at `pos`; other keys before or after.
pub fn cl_long(k: usize, len: usize, pos: usize, order: usize) {
    let mut val: Vec<u8> = (0..len).map(|i| if (2..6).contains(&k) { b'0' } else { [b'a', b'.', b'B', b' ', 0xe1, b'-', b'9'][i % 7] }).collect();
    val[pos.min(len - 1)] = byte();
    assume(val[pos.min(len - 1)] != 0);
    let kv = mk::cat(&[b"\\", CKEYS[k], b"\\", &val]);
    let nm: &[u8] = if k == 0 { b"" } else { b"\\name\\x" };
    let info = if order == 0 { mk::cat(&[nm, &kv, b"\\bottomcolor\\9"]) } else { mk::cat(&[b"\\topcolor\\3\\w\\1", &kv, nm]) };
    let v = mk::spawn_body(&[b"\\name\\first\\team\\red", &info, b"\\name\\last\\*auth\\me"]);
    cl_same(&v, B + line!());
    rc!("C11:long value");
}
/// C11: `m` other pairs around key `k`.
pub fn cl_pairs(m: usize, k: usize, after: usize, _: usize) {
    let b = byte();
    assume(b != 0);
    let mut info = vec![];
    for i in 0..=m + after {
        if i == m {
            info.extend(mk::cat(&[b"\\", CKEYS[k], b"\\", &[b], if k == 0 { b"" } else { b"\\name\\y" }]));
        }
        info.extend(mk::cat(&[b"\\", &[b'a' + (i % 26) as u8], b"\\1"]));
    }
    let v = mk::spawn_body(&[b"\\name\\first", &info, b"\\name\\last"]);
    cl_same(&v, B + line!());
    rc!("C11:many pairs");
}
/// C11: arbitrary text after the name.
pub fn cl_text(n: usize, k: usize, _: usize, _: usize) {
    let b = bytes(n);
    let s = mk::cat(&[[b"\\name\\x".as_slice(), b"\\name\\", b"\\topcolor\\1\\name\\y\\topcolor\\2", b"x\\name\\z"][k], &b]);
    let v = mk::spawn_body(&[&s, b"\\name\\second"]);
    cl_same(&v, B + line!());
    rc!("C11:text");
}
/// C11: `m` clients, numbers and own fields.
pub fn cl_many(m: usize, sv: usize, _: usize, _: usize) {
    let b = bytes(2);
    let mut infos = vec![];
    for i in 0..m {
        let n = i as u8;
        let mut s = mk::cat(&[b"\\name\\p", &[b'a' + n % 26, b'a' + (i / 26) as u8], b"\\team\\t", &[b'0' + n % 5], b"\\topcolor\\", &[b'0' + n % 10], b"\\bottomcolor\\1", &[b'0' + (n / 3) % 10]]);
        if i % 3 == 1 {
            s.extend_from_slice(b"\\*spectator\\1");
        }
        if i % 4 == 1 {
            s.extend_from_slice(b"\\*bot\\1");
        }
        if i == sv {
            assume(b[0] != 0 && b[1] != 0);
            s.extend_from_slice(b"\\*auth\\");
            s.extend_from_slice(&b);
        }
        infos.push(s);
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    let w = cl_same(&v, B + line!());
    ck!(w.is_some_and(|w| w.len() == m));
    rc!("C11:many");
}

// ------------------------------------------------------------------ C12

pub fn names_same<E>(got: Result<Vec<String>, E>, want: Vec<String>) -> bool {
    match got {
        Ok(g) => g == want,
        Err(_) => false,
    }
}
pub fn part_same(v: &[u8], id: u32) -> (usize, usize) {
    let w = spec::clients(v).unwrap_or_default();
    let pl: Vec<spec::Cl> = w.iter().filter(|c| !c.spec).cloned().collect();
    let sp: Vec<spec::Cl> = w.iter().filter(|c| c.spec).cloned().collect();
    let g = mvdparser::player_clients(v);
    check(g.is_ok() && list_same(&g.unwrap(), &pl), id);
    let g = mvdparser::spectator_clients(v);
    check(g.is_ok() && list_same(&g.unwrap(), &sp), id);
    (pl.len(), sp.len())
}
pub fn plist(v: &[u8], spectators: bool) -> Vec<String> {
    let mut out = vec![];
    for c in spec::clients(v).unwrap_or_default() {
        if c.spec == spectators {
            out.push(c.name);
        }
    }
    out
}
pub fn teams_of(v: &[u8]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for c in spec::clients(v).unwrap_or_default() {
        if !c.spec {
            // by exact text first, so that equal keys have one order
            let mut i = 0;
            while i < out.len() && out[i] < c.team {
                i += 1;
            }
            if i == out.len() || out[i] != c.team {
                out.insert(i, c.team);
            }
        }
    }
    spec::sorted(&out)
}
pub fn info_of(name: &[u8], team: &[u8], s: &[u8]) -> Vec<u8> {
    mk::cat(&[b"\\name\\", name, b"\\team\\", team, s])
}
fn plain(v: &[u8]) {
    for &c in v {
        assume(c != 0 && c != b'\\' && c != b'"');
    }
}
/// C12: partition with arbitrary spectator and bot marks of `n` bytes.
pub fn part(n: usize, m: usize, _: usize, _: usize) {
    let mut infos = vec![];
    for i in 0..m {
        let x = bytes(n);
        let y = bytes(n.min(1));
        plain(&x);
        plain(&y);
        infos.push(info_of(&[b'p', b'0' + i as u8], b"t", &mk::cat(&[b"\\*spectator\\", &x, b"\\*bot\\", &y])));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    let (p, s) = part_same(&v, B + line!());
    ck!(p + s == m);
    if p > 0 && s > 0 {
        rc!("C12:both");
    }
    let w = spec::clients(&v).unwrap();
    ck!(a::has_bot_players(&v).unwrap() == w.iter().any(|c| !c.spec && c.bot));
    ck!(a::has_human_players(&v).unwrap() == w.iter().any(|c| !c.spec && !c.bot));
    if w.iter().any(|c| c.spec && c.bot) {
        rc!("C12:bot spectator");
    }
}
/// C12: player names of arbitrary bytes are the sorted names of the players.
pub fn part_names(n: usize, m: usize, spect: usize, _: usize) {
    let mut infos = vec![];
    for i in 0..m {
        let x = bytes(n);
        plain(&x);
        let nm = mk::cat(&[b"n", &x]);
        infos.push(info_of(&nm, b"t", if (spect >> i) & 1 == 1 { b"\\*spectator\\1" } else { b"" }));
    }
    infos.push(info_of(b"Na", b"t", b""));
    infos.push(info_of(b"nB", b"t", b"\\*spectator\\2"));
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    ck!(names_same(mvdparser::player_names(&v), spec::sorted(&plist(&v, false))));
    ck!(names_same(mvdparser::spectator_names(&v), spec::sorted(&plist(&v, true))));
    rc!("C12:names");
}
/// C12: team names.
pub fn part_teams(n: usize, m: usize, spect: usize, _: usize) {
    let mut infos = vec![];
    for i in 0..m {
        let x = bytes(n);
        plain(&x);
        infos.push(info_of(&[b'p', b'0' + i as u8], &mk::cat(&[b"r", &x]), if (spect >> i) & 1 == 1 { b"\\*spectator\\1" } else { b"" }));
    }
    infos.push(info_of(b"q", b"Ra", b""));
    infos.push(info_of(b"w", b"\xf2a", b""));
    infos.push(info_of(b"x", b"ra", b""));
    infos.push(info_of(b"y", b"Ra", b""));
    infos.push(info_of(b"s", b"spectators", b"\\*spectator\\1"));
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    ck!(names_same(mvdparser::team_names(&v), teams_of(&v)));
    rc!("C12:teams");
}
/// C12: many clients.
pub fn part_many(m: usize, mul: usize, _: usize, _: usize) {
    let b = byte();
    plain(&[b]);
    let mut infos = vec![];
    for i in 0..m {
        let k = (i * mul) % 26;
        let c = if i % 2 == 0 { b'a' + k as u8 } else { b'A' + k as u8 };
        let col = if i % 5 == 0 { 128 } else { 0 };
        let nm = [c | col, if i == m / 2 { b } else { b'0' + (i % 10) as u8 }];
        infos.push(info_of(&nm, &[c, b'0' + (i % 3) as u8], if i % 4 == 3 { b"\\*spectator\\1" } else { b"" }));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    part_same(&v, B + line!());
    ck!(names_same(mvdparser::player_names(&v), spec::sorted(&plist(&v, false))));
    ck!(names_same(mvdparser::spectator_names(&v), spec::sorted(&plist(&v, true))));
    ck!(names_same(mvdparser::team_names(&v), teams_of(&v)));
    rc!("C12:many");
}
/// C12: names and teams of `len` bytes that differ at `pos` only.
pub fn part_long(len: usize, pos: usize, m: usize, _: usize) {
    let mut infos = vec![];
    for i in 0..m {
        let mut nm = vec![b'n'; len];
        let mut tm = vec![b't'; len];
        nm[pos.min(len - 1)] = [b'A', b'a', b'b', 0xe1, b'Z'][i % 5];
        tm[pos.min(len - 1)] = [b'A', b'b', 0xe2, b'B', b'a'][i % 5];
        if i + 1 == m {
            let b = byte();
            plain(&[b]);
            nm[pos.min(len - 1)] = b;
            tm[pos.min(len - 1)] = b;
        }
        infos.push(info_of(&nm, &tm, if i == 2 { b"\\*spectator\\1" } else { b"" }));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    part_same(&v, B + line!());
    ck!(names_same(mvdparser::player_names(&v), spec::sorted(&plist(&v, false))));
    ck!(names_same(mvdparser::spectator_names(&v), spec::sorted(&plist(&v, true))));
    ck!(names_same(mvdparser::team_names(&v), teams_of(&v)));
    rc!("C12:long names");
}
/// C12: names and teams that differ by `n` arbitrary bytes at an end or inside.
pub fn part_affix(n: usize, which: usize, spect: usize, _: usize) {
    let x = bytes(n);
    plain(&x);
    let core: &[u8] = [b"ab".as_slice(), b"R\xe5d", b"= ="][which % 3];
    let mut infos = vec![];
    for (i, t) in mk::affixes(core, &x).iter().enumerate() {
        let o = [b'p', b'0' + i as u8];
        infos.push(info_of(if which < 3 { t } else { &o }, if which < 3 { b"t" } else { t }, if (spect >> i) & 1 == 1 { b"\\*spectator\\1" } else { b"\\chat\\1" }));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let v = mk::spawn_body(&r);
    part_same(&v, B + line!());
    if which < 3 {
        ck!(names_same(mvdparser::player_names(&v), spec::sorted(&plist(&v, false))));
        ck!(names_same(mvdparser::spectator_names(&v), spec::sorted(&plist(&v, true))));
    } else {
        ck!(names_same(mvdparser::team_names(&v), teams_of(&v)));
    }
    rc!("C12:affixes");
}
/// C12: bots named by the statistics; no spawn command is an error everywhere.
pub fn part_bots(k: usize, n: usize, _: usize, _: usize) {
    let t = b"\"bot\": {";
    let mut s = t.to_vec();
    if k < t.len() {
        s[k] = byte();
    }
    let mut v = mk::spawn_body(&[b"\\name\\a\\team\\t"]);
    v.extend_from_slice(&bytes(n));
    v.extend_from_slice(&s);
    v.extend_from_slice(b"}");
    ck!(a::has_bot_players(&v).unwrap() == spec::find(&v, t).is_some());
    ck!(a::has_human_players(&v).unwrap());
    let w = &v[1..];
    ck!(a::has_bot_players(w).is_err() && a::has_human_players(w).is_err() && a::player_clients(w).is_err() && a::spectator_clients(w).is_err());
    ck!(a::player_names(w).is_err() && a::spectator_names(w).is_err() && a::team_names(w).is_err());
    rc!("C12:stats bot");
}

// ------------------------------------------------------------------ C24

const END: &[u8] = b"\x00\x02EndOfDemo\x00";
pub const STOPPED: &[u8] = b"\x08\x02\xcd\xe1\xf4\xe3\xe8 \xf3\xf4\xef\xf0\xf0\xe5\xe4 \xe2\xf9 \xed\xe1\xea\xef\xf2\xe9\xf4\xf9 \xf6\xef\xf4\xe5\x0a\x00";
const PAUSE: [&[u8]; 2] = [b"Server is paused", b"paused the game"];
pub fn flags_same(v: &[u8], id: u32) -> (bool, bool, bool) {
    let end = v.len() > 12 && v[v.len() - 12..] == *END;
    let has = spec::clientinfo(v).is_some_and(|c| !c.is_empty());
    let valid = v.len() >= 1024 && end && spec::serverinfo(v).is_some() && has;
    let aborted = spec::find(v, STOPPED).is_some();
    let paused = !end && (spec::find(v, PAUSE[0]).is_some() || spec::find(v, PAUSE[1]).is_some());
    check(mvdparser::is_valid(v) == valid, id);
    check(mvdparser::is_aborted(v) == aborted, id);
    check(mvdparser::is_paused(v) == paused, id);
    check(a::has_clients(v) == has, id);
    check(a::has_end_of_demo_print(v) == end, id);
    (valid, aborted, paused)
}
fn full(len: usize, parts: usize) -> Vec<u8> {
    let mut v = vec![];
    if parts & 1 == 1 {
        v.extend(mk::serverinfo_body(b"\\map\\dm2"));
    }
    if parts & 2 == 2 {
        v.extend(mk::spawn_body(if parts & 8 == 8 { &[] } else { &[b"\\name\\abc"] }));
    }
    if parts & 4 == 4 {
        v.resize(len.max(v.len() + 12), b'.');
        let n = v.len();
        v[n - 12..].copy_from_slice(END);
    } else {
        v.resize(len.max(v.len()), b'.');
    }
    v
}
/// C24: a demo of `len` bytes with the parts given by bits; byte `k` counted from the end is arbitrary.
pub fn st_parts(len: usize, parts: usize, k: usize, _: usize) {
    let mut v = full(len, parts);
    let n = v.len();
    if k > 0 && k <= n {
        v[n - k] = byte();
    }
    if flags_same(&v, B + line!()).0 {
        rc!("C24:valid");
    } else {
        rc!("C24:not valid");
    }
}
/// C24: `n` arbitrary bytes.
pub fn st_raw(n: usize, _: usize, _: usize, _: usize) {
    let v = bytes(n);
    flags_same(&v, B + line!());
    rc!("C24:raw");
}
/// C24: the text of a stop or a pause with one arbitrary byte, somewhere in the data, with the end of demo print or not.
pub fn st_text(which: usize, k: usize, end: usize, pos: usize) {
    let mut t = if which == 0 { STOPPED } else { PAUSE[which - 1] }.to_vec();
    if k < t.len() {
        t[k] = byte();
    }
    let mut v = vec![b'.'; pos];
    v.extend_from_slice(&t);
    if end == 1 {
        v.extend_from_slice(END);
    }
    if end == 2 {
        v.extend(vec![b'x'; 300]);
    }
    let r = flags_same(&v, B + line!());
    if r.1 {
        rc!("C24:aborted");
    }
    if r.2 {
        rc!("C24:paused");
    }
}
/// C24: a marker text with `before` bytes in front and `after` behind it, one byte of it arbitrary.
pub fn st_far(which: usize, before: usize, after: usize, end: usize) {
    let mut t = if which == 0 { STOPPED } else { PAUSE[which - 1] }.to_vec();
    let n = t.len();
    t[n / 2] = byte();
    let mut v = vec![b'.'; before];
    v.extend_from_slice(&t);
    v.extend(vec![b'x'; after]);
    if end == 1 {
        v.extend_from_slice(END);
    }
    flags_same(&v, B + line!());
    rc!("C24:far");
}
/// C24: marker text `which` cut at its front, behind `n` arbitrary bytes that may complete it, and again behind `rep` bytes.
pub fn st_front(which: usize, n: usize, rest: usize, end: usize) {
    let t = if which == 0 { STOPPED } else if which == 3 { END } else { PAUSE[which - 1] };
    let mut v = vec![b'-'; 3];
    v.extend_from_slice(&t[..t.len() - n - rest]);
    v.extend(bytes(n));
    v.extend_from_slice(&t[t.len() - rest..]);
    if end == 1 {
        v.extend_from_slice(END);
    }
    flags_same(&v, B + line!());
    rc!("C24:split text");
}
/// C24: two or three markers in one demo in any combination, an arbitrary byte between them.
pub fn st_several(set: usize, end: usize, pad: usize, _: usize) {
    let mut v = full(0, 3);
    for i in 0..4 {
        if (set >> i) & 1 == 1 {
            v.push(byte());
            v.extend(vec![b'.'; pad]);
            v.extend_from_slice([STOPPED, PAUSE[0], PAUSE[1], END][i]);
        }
    }
    v.resize(v.len().max(1100), 1);
    if end == 1 {
        v.extend_from_slice(END);
    }
    let r = flags_same(&v, B + line!());
    ck!(r.0 == (end == 1) && r.1 == (set & 1 == 1));
    rc!("C24:several");
}
/// C24: a whole demo whose clients are of kind `k`, with `n` arbitrary bytes in one of them; `si` selects the server info.
pub fn st_kind(k: usize, n: usize, si: usize, len: usize) {
    let b = bytes(n);
    for &c in &b {
        assume(c != 0);
    }
    let x = mk::cat(&[
        [b"\\name\\".as_slice(), b"\\*spectator\\1\\name\\s", b"\\*bot\\1\\name\\b", b"\\name\\a\\*spectator\\", b"\\name\\a\\*bot\\", b"\\name\\a\\team\\", b"\\name\\a\\"][k],
        &b,
    ]);
    let s: &[u8] = [b"\\map\\dm2".as_slice(), b"x", b"\\", b"\\status\\Standby", b"\\ktxmode\\race", b"\\mode\\\\x"][si];
    let mut v = mk::serverinfo_body(s);
    v.extend(mk::spawn_body(&[&x]));
    v.resize(v.len().max(len - 12), 2);
    v.extend_from_slice(END);
    if flags_same(&v, B + line!()).0 {
        rc!("C24:valid kind");
    } else {
        rc!("C24:invalid kind");
    }
}
/// C24: `m` clients of which those in `spect` are spectators; other large demos.
pub fn st_big(m: usize, spect: usize, len: usize, end: usize) {
    let mut infos = vec![];
    for i in 0..m {
        infos.push(info_of(&[b'a' + (i % 26) as u8, byte()], b"t", if (spect >> (i % 8)) & 1 == 1 { b"\\*spectator\\1" } else { b"" }));
        plain(&infos[i][7..8]);
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let mut v = mk::serverinfo_body(b"\\map\\dm2");
    v.extend(mk::spawn_body(&r));
    let n = v.len().max(len);
    v.resize(n, b'.');
    v[n - 1] = byte();
    if end == 1 {
        v.extend_from_slice(END);
    }
    flags_same(&v, B + line!());
    rc!("C24:big");
}
/// C09: the first server info is empty, unclosed (q 0) or `n` arbitrary bytes long; a complete one follows `gap` bytes later.
pub fn si_two(n: usize, q: usize, gap: usize, pre: usize) {
    let mut v = vec![b'.'; pre];
    v.extend_from_slice(b"\x09fullserverinfo \"");
    v.extend(bytes(n));
    if q == 1 {
        v.extend_from_slice(b"\"\n\x00");
    }
    v.extend(vec![b'-'; gap]);
    v.extend_from_slice(b"\x09fullserverinfo \"\\serverdemo\\x.mvd\\map\\dm");
    v.push(byte());
    v.extend_from_slice(b"\"\n\x00");
    let want = si_same(&v, B + line!());
    ck!(mvdparser::serverinfo(&v).is_ok() == want.is_some());
    if want.is_none() {
        ck!(mvdparser::filename(&v).is_err());
    }
    rc!("C09:two");
}
/// C10: the list behind the first spawn command is empty or ends early; a second command with clients follows.
pub fn ci_two(k: usize, n: usize, gap: usize, _: usize) {
    let b = bytes(n);
    for &c in &b {
        assume(c != 0);
    }
    let mut v = b"..\x09cmd spawn 1 0\n\x00".to_vec();
    v.extend(match k {
        0 => b,
        1 => mk::cat(&[b"\\name\\", &b, b"\x00"]),
        2 => mk::cat(&[b"\\name\\", &vec![b'x'; 251], &b, b"\x00"]),
        _ => mk::cat(&[b"\\name\\ab\x00\\team\\x", &b, b"\x00"]),
    });
    v.extend(vec![0u8; gap]);
    v.extend_from_slice(b"\x09cmd spawn 2 0\n\x00\x28\x00\x00\x00\x00\x00\\name\\one\x00\\name\\two\x00");
    ci_same(&v, B + line!());
    rc!("C10:two");
}
