//! C13 pings, C14 obituaries, C15 team kill attribution, C16 flag events.
use crate::mk::{self, Demo};
use crate::spec;
use crate::sym::*;
const B: u32 = 20_000;

/// A player name of `n` arbitrary bytes as it can occur in a printed line.
pub fn name(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for &c in &v {
        assume(c != 0 && c != 10);
    }
    v
}
/// A longer name: concrete filler with an arbitrary last byte.
pub fn long_name(n: usize, tag: u8) -> Vec<u8> {
    let mut v = vec![tag; n];
    v[n - 1] = name(1)[0];
    v[n / 2] = b' ';
    v
}
pub fn tally_eq(got: &std::collections::HashMap<String, i32>, want: &[(String, i32)]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    for (k, v) in got {
        let mut hit = false;
        for (a, b) in want {
            if a == k {
                hit = b == v;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
fn obituaries() -> usize {
    spec::DEATHS.len() + spec::WEAPON_SUICIDES.len() + 1 + spec::TEAMKILLS.len() + spec::KILLER_FIRST.len() + spec::VICTIM_FIRST.len()
}
/// The printed text of obituary `i` for `a` (first name in the text) and `b`, and whom it scores.
pub fn obituary(mut i: usize, a: &[u8], b: &[u8]) -> (Vec<u8>, Vec<u8>, i32) {
    if i < spec::DEATHS.len() {
        return (mk::cat(&[a, spec::DEATHS[i].as_bytes()]), a.to_vec(), -1);
    }
    i -= spec::DEATHS.len();
    if i < spec::WEAPON_SUICIDES.len() {
        return (mk::cat(&[a, spec::WEAPON_SUICIDES[i].as_bytes()]), a.to_vec(), -1);
    }
    i -= spec::WEAPON_SUICIDES.len();
    if i == 0 {
        return (mk::cat(&[a, b" suicides"]), a.to_vec(), -2);
    }
    i -= 1;
    if i < spec::TEAMKILLS.len() {
        return (mk::cat(&[a, spec::TEAMKILLS[i].as_bytes()]), a.to_vec(), -1);
    }
    i -= spec::TEAMKILLS.len();
    if i < spec::KILLER_FIRST.len() {
        let p = spec::KILLER_FIRST[i];
        return (mk::cat(&[a, p.0.as_bytes(), b, p.1.as_bytes()]), a.to_vec(), 1);
    }
    i -= spec::KILLER_FIRST.len();
    let p = spec::VICTIM_FIRST[i];
    (mk::cat(&[a, p.0.as_bytes(), b, p.1.as_bytes()]), b.to_vec(), 1)
}
fn two_names(na: usize, nb: usize) -> (Vec<u8>, Vec<u8>) {
    let a = if na < 8 { name(na) } else { long_name(na, b'x') };
    let b = if nb < 8 { name(nb) } else { long_name(nb, b'y') };
    (a, b)
}
/// C14: obituary `i` with names of the given lengths.
pub fn obit(i: usize, na: usize, nb: usize, _: usize) {
    let (a, b) = two_names(na, nb);
    let (t, who, score) = obituary(i, &a, &b);
    let mut d = Demo::new();
    d.all(1, &mk::print(1, &mk::cat(&[&t, b"\n"])));
    let got = mvdparser::frags_per_player_name(&d.d);
    report(got.len() as u64);
    ck!(tally_eq(&got, &[(spec::text(&who), score)]));
    rc!("C14:obituary");
}
/// C14: a line ending in `k` newlines, at any message level, in any frame kind; only level 1 scores.
pub fn obit_level(i: usize, k: usize, kind: usize, _: usize) {
    let (t, who, score) = obituary(i, b"abc", b"de f");
    let id = byte();
    let mut d = Demo::new();
    let nl = vec![b'\n'; k];
    d.read(1, [1u8, 3, 4, 5, 6][kind], &mk::print(id, &mk::cat(&[&t, &nl])));
    let got = mvdparser::frags_per_player_name(&d.d);
    if id == 1 {
        ck!(tally_eq(&got, &[(spec::text(&who), score)]));
        rc!("C14:level");
    } else {
        ck!(got.is_empty());
        rc!("C14:other level");
    }
}
/// C14: totals over `m` obituaries of two players whose names are arbitrary (possibly equal), in separate frames.
pub fn obit_sum(m: usize, na: usize, nb: usize, sel: usize) {
    let (a, b) = two_names(na, nb);
    let set = [[0usize, 17, 28, 29], [35, 38, 40, 28], [43, 52, 36, 62], [28, 37, 65, 1]][sel];
    let mut want = vec![];
    let mut d = Demo::new();
    for _ in 0..m {
        let i = set[choice(4)];
        let swap = flag();
        let (x, y) = if swap { (&b, &a) } else { (&a, &b) };
        let (t, who, score) = obituary(i, x, y);
        d.all(1, &mk::print(1, &mk::cat(&[&t, b"\n"])));
        spec::add(&mut want, &spec::text(&who), score);
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
    if want.len() == 2 {
        rc!("C14:both score");
    }
}
/// C14: `n` kills by one player add up.
pub fn obit_many(n: usize, i: usize, _: usize, _: usize) {
    let a = name(2);
    let (t, who, score) = obituary(i, &a, b"victim");
    let mut d = Demo::new();
    for _ in 0..n {
        d.all(1, &mk::print(1, &mk::cat(&[&t, b"\n"])));
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    let mut total = 0;
    for _ in 0..n {
        total += score;
    }
    ck!(tally_eq(&got, &[(spec::text(&who), total)]));
    rc!("C14:many");
}
/// C14: a line that is no obituary scores nothing.
pub fn obit_none(n: usize, k: usize, _: usize, _: usize) {
    let v = name(n);
    assume(k != 6 || n == 0 || v[n - 1] != b' ');
    let tail: &[u8] = [b"".as_slice(), b" entered the game", b" is ready", b" die", b" suicide", b" suicides now", b"suicides", b" was nailed"][k];
    let mut d = Demo::new();
    d.all(1, &mk::print(1, &mk::cat(&[&v, tail, b"\n"])));
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(got.is_empty());
    rc!("C14:none");
}

/// C15: a team kill by an unnamed player. Clients: `n` players whose teams are chosen symbolically; frag updates of
/// arbitrary players in the obituary frame and the frames after it.
pub fn teamkill(pat: usize, nframes: usize, shape: usize, empty: usize) {
    // client 0 victim "vic", 1..3 others; team letters arbitrary
    let teams = [byte(), byte(), byte(), byte()];
    for &t in &teams {
        assume(t == b'r' || t == b'b');
    }
    let names: [&[u8]; 4] = if shape & 4 == 0 { [b"vic", b"one", b"two", b"3ee"] } else { [b"one", b"vic", b"two", b"3ee"] };
    let vic = if shape & 4 == 0 { 0 } else { 1 };
    let mut infos = vec![];
    for i in 0..4 {
        infos.push(mk::cat(&[b"\\name\\", names[i], b"\\team\\", &[teams[i]], if (empty >> (2 + i)) & 1 == 1 { b"\\*bot\\1\\topcolor\\4" } else { b"" }]));
    }
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[&infos[0], &infos[1], &infos[2], &infos[3]]));
    let t = mk::print(1, &mk::cat(&[names[vic], spec::TEAMKILLED[pat].as_bytes(), b"\n"]));
    let mut want: Option<usize> = None;
    let mut seen: Vec<u8> = vec![];
    // frames 1..=3 with a body count, the obituary frame being the first
    let mut counted = 0;
    for f in 0..nframes {
        let mut body = if f == 0 { t.clone() } else { vec![] };
        let has = (shape & 1 == 1) || f != 0;
        if has {
            let p = byte();
            body.extend(mk::upfrags(p, 3));
            counted += 1;
            if counted + (if shape & 1 == 0 { 1 } else { 0 }) <= 3 {
                seen.push(p);
            }
        }
        d.all(1, &body);
        if empty & 1 == 1 {
            d.raw(&[5, 7]); // a frame without a body
            d.raw(&[5, 0]);
        }
        if empty & 2 == 2 && f == 0 {
            d.read(1, 4, &[]);
        }
    }
    for &p in &seen {
        if want.is_none() {
            for c in 0..4 {
                if p as usize == c && c != vic && teams[c] == teams[vic] {
                    want = Some(c);
                }
            }
        }
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    match want {
        Some(c) => {
            ck!(tally_eq(&got, &[(spec::text(names[c]), -1)]));
            rc!("C15:attributed");
        }
        None => {
            ck!(got.is_empty());
            rc!("C15:nobody");
        }
    }
}
/// C15: `m` clients; victim number `vic`, frag updates (any number in the first, any score) in the obituary frame and two
/// more; shape bit 0: every other client is a bot, bit 1: all of one team, bit 2: names share a start, bit 3: a client
/// outside the team is updated first.
pub fn teamkill_far(m: usize, vic: usize, killer: usize, shape: usize) {
    let p = byte();
    let sc = u16_();
    let mut infos = vec![];
    let mut names: Vec<Vec<u8>> = vec![];
    let mut teams = vec![];
    for i in 0..m {
        let id = [b'a' + (i % 26) as u8, b'a' + (i / 26) as u8];
        let nm = if shape & 4 == 4 { mk::cat(&[b"pl", &id[..1 + (i / 26).min(1)]]) } else { mk::cat(&[&id, b"x"]) };
        let team: &[u8] = if shape & 2 == 2 || i == vic || i == killer || i % 3 == 0 { b"red" } else { [b"Red".as_slice(), b"re"][i % 2] };
        infos.push(mk::cat(&[b"\\name\\", &nm, b"\\team\\", team, if shape & 1 == 1 && i % 2 == killer % 2 { b"\\*bot\\1" } else { b"" }]));
        names.push(nm);
        teams.push(team.to_vec());
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&r));
    let t = mk::print(1, &mk::cat(&[&names[vic], spec::TEAMKILLED[(m + vic) % 6].as_bytes(), b"\n"]));
    let mut up: Vec<u8> = vec![];
    let first = if shape & 8 == 8 { p } else { vic as u8 };
    d.all(1, &mk::cat(&[&t, &mk::upfrags(first, sc as i16)]));
    up.push(first);
    d.all(1, &mk::cat(&[&mk::upfrags(p, 3), &mk::upfrags(0, 1)]));
    up.push(p);
    d.all(1, &mk::upfrags(killer as u8, -1));
    up.push(killer as u8);
    d.all(1, &mk::upfrags(if killer == 0 { 1 } else { 0 }, -1));
    let mut want = vec![];
    for &u in &up {
        let u = u as usize;
        if want.is_empty() && u < m {
            // concretised by the comparison with each number
            for c in 0..m {
                if c == u && c != vic && teams[c] == teams[vic] {
                    spec::add(&mut want, &spec::text(&names[c]), -1);
                }
            }
        }
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
    rc!("C15:far");
}
/// C15: two team kills (of the same victim or not) far apart are attributed independently, next to an ordinary obituary.
pub fn teamkill_two(pat: usize, gap: usize, same: usize, _: usize) {
    let p = byte();
    let q = byte();
    let infos: [&[u8]; 4] = [b"\\name\\vic\\team\\red", b"\\name\\one\\team\\red", b"\\name\\two\\team\\blue", b"\\name\\x y\\team\\red"];
    let names: [&[u8]; 4] = [b"vic", b"one", b"two", b"x y"];
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&infos));
    let mut want = vec![];
    for (i, u) in [p, q].into_iter().enumerate() {
        let v = if i == 0 || same == 1 { 0 } else { 1 };
        let t = mk::print(1, &mk::cat(&[names[v], spec::TEAMKILLED[pat].as_bytes(), b"\n"]));
        d.all(1, &mk::cat(&[&t, &mk::upfrags(u, -1)]));
        for c in 0..4 {
            if u as usize == c && c != v && c != 2 {
                spec::add(&mut want, &spec::text(names[c]), -1);
            }
        }
        for _ in 0..gap {
            d.all(1, &[1]);
        }
        d.all(1, &mk::print(1, b"x y was railed by two\n"));
        spec::add(&mut want, "two", 1);
        for _ in 0..4 {
            d.all(1, &[1]);
        }
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
    rc!("C15:two");
}

const RED: &[u8] = b"\xd2\xc5\xc4";
const BLUE: &[u8] = b"\xc2\xcc\xd5\xc5";
/// Text after the name of flag event `k` (0..14) and the counter it belongs to.
pub fn flag_text(k: usize) -> (Vec<u8>, usize) {
    let c = if k % 2 == 0 { RED } else { BLUE };
    match k / 2 {
        0 => (mk::cat(&[b" \xe3\xe1\xf0\xf4\xf5\xf2\xe5\xe4 the ", c, b" flag!\n"]), 0),
        1 => (mk::cat(&[b" \xe7\xef\xf4 the ", c, b" flag!\n"]), 1),
        2 => (mk::cat(&[b" \xf2\xe5\xf4\xf5\xf2\xee\xe5\xe4 the ", c, b" flag!\n"]), 2),
        3 => (if k % 2 == 0 { b" gets an assist for returning his flag!\n".to_vec() } else { b" gets an assist for fragging the flag carrier!\n".to_vec() }, 3),
        4 => (mk::cat(&[b" defends the ", c, b" flag\n"]), 4),
        5 => (mk::cat(&[b" defends ", c, b"'s flag carrier\n"]), 5),
        _ => (mk::cat(&[b" defends ", c, b"'s flag carrier against an aggressive enemy\n"]), 6),
    }
}
const FIELDS: [&str; 7] = ["captures", "pickups", "returns", "carrier_frags", "defends", "carrier_defends", "carrier_defends_vs_aggressive"];
/// The counters of a player, read back from the debug form (the fields are private).
fn counts(s: &str) -> [u32; 7] {
    let mut r = [0; 7];
    for i in 0..7 {
        let key = format!(" {}: ", FIELDS[i]);
        let at = s.find(&key).expect("field");
        for c in s[at + key.len()..].chars() {
            if !c.is_ascii_digit() {
                break;
            }
            r[i] = r[i] * 10 + c as u32 - '0' as u32;
        }
    }
    r
}
pub fn flags_eq(d: &[u8], want: &[(String, [u32; 7])]) -> bool {
    let got = mvdparser::all::flag_events_per_player_name(d);
    if got.len() != want.len() {
        return false;
    }
    for (k, v) in &got {
        let c = counts(&format!("{v:?}"));
        let mut hit = false;
        for (a, b) in want {
            if a == k {
                hit = *b == c;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
pub fn flag_add(t: &mut Vec<(String, [u32; 7])>, n: &str, f: usize, by: u32) {
    for e in t.iter_mut() {
        if e.0 == n {
            e.1[f] += by;
            return;
        }
    }
    let mut c = [0; 7];
    c[f] = by;
    t.push((n.to_string(), c));
}
/// The prints of flag event `k`: whole, or the name and the rest apart (only the coloured ones are sent that way).
pub fn flag_prints(k: usize, n: &[u8], split: bool) -> Vec<u8> {
    let (t, _) = flag_text(k);
    if split && k < 6 {
        mk::cat(&[&mk::print(2, n), &mk::print(2, &t)])
    } else {
        mk::print(2, &mk::cat(&[n, &t]))
    }
}
/// C16: one event of kind `k` by a player with an arbitrary name of `n` bytes.
pub fn flag1(k: usize, n: usize, split: usize, _: usize) {
    let a = if n < 8 { name(n) } else { long_name(n, b'z') };
    let mut d = Demo::new();
    d.all(1, &flag_prints(k, &a, split == 1));
    let mut want = vec![];
    flag_add(&mut want, &spec::text(&a), flag_text(k).1, 1);
    ck!(flags_eq(&d.d, &want));
    rc!("C16:one");
}
/// C16: any level byte; only level 2 counts.
pub fn flag_level(k: usize, _: usize, _: usize, _: usize) {
    let id = byte();
    let mut d = Demo::new();
    d.read(1, 3, &mk::print(id, &mk::cat(&[b"abc", &flag_text(k).0])));
    let mut want = vec![];
    if id == 2 {
        flag_add(&mut want, "abc", flag_text(k).1, 1);
    }
    ck!(flags_eq(&d.d, &want));
    rc!("C16:level");
}
/// C16: `m` events of two arbitrary players, chosen kinds (from `base`), several in a frame or spread over frames,
/// whole or split, with other messages around.
pub fn flag_sum(m: usize, base: usize, n: usize, _: usize) {
    let a = name(n);
    let b = name(n);
    let mut d = Demo::new();
    let mut body = vec![];
    let mut want = vec![];
    let split = flag();
    for i in 0..m {
        let k = (base + choice(3) * 5) % 14;
        let who = if flag() { &b } else { &a };
        body.extend(flag_prints(k, who, split));
        flag_add(&mut want, &spec::text(who), flag_text(k).1, 1);
        if i + 1 == m || flag() {
            d.all(1, &body);
            body.clear();
        } else {
            rc!("C16:several in one frame");
        }
    }
    ck!(flags_eq(&d.d, &want));
    rc!("C16:sum");
}
/// C16: `n` events add up.
pub fn flag_many(n: usize, k: usize, per: usize, _: usize) {
    let a = name(2);
    let mut d = Demo::new();
    let mut body = vec![];
    for i in 0..n {
        body.extend(flag_prints(k, &a, i % 2 == 1));
        if (i + 1) % per == 0 || i + 1 == n {
            d.all(1, &body);
            body.clear();
        }
    }
    let mut want = vec![];
    flag_add(&mut want, &spec::text(&a), flag_text(k).1, n as u32);
    ck!(flags_eq(&d.d, &want));
    rc!("C16:many");
}
/// C16: lines mentioning a flag without being an event count for nobody.
pub fn flag_none(n: usize, k: usize, _: usize, _: usize) {
    let a = name(n);
    let tail: &[u8] = [b" defends the flag\n".as_slice(), b" got the flag!\n", b" has a flag", b" gets an assist for the flag!\n", b" \xe7\xef\xf4 the \xd2\xc5\xc4 flag"][k];
    let mut d = Demo::new();
    d.all(1, &mk::print(2, &mk::cat(&[&a, tail])));
    ck!(flags_eq(&d.d, &[]));
    rc!("C16:none");
}

pub fn pings_eq(d: &[u8], want: &[(u8, u32, u32)]) -> bool {
    let r = mvdparser::all::ping_per_player_number(d);
    if want.is_empty() {
        return r.is_err();
    }
    let Ok(got) = r else { return false };
    if got.len() != want.len() {
        return false;
    }
    for (k, v) in &got {
        let mut hit = false;
        for w in want {
            if w.0 == *k {
                hit = w.1 / w.2 == *v;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
pub fn ping_add(t: &mut Vec<(u8, u32, u32)>, p: u8, ms: u32) {
    for e in t.iter_mut() {
        if e.0 == p {
            e.1 += ms;
            e.2 += 1;
            return;
        }
    }
    t.push((p, ms, 1));
}
/// What the leading ping updates of a body say.
fn lead_pings(b: &[u8]) -> Vec<(u8, u32)> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() && b[i] == 36 {
        if i + 4 >= b.len() {
            break;
        }
        out.push((b[i + 1], b[i + 2] as u32 | (b[i + 3] as u32) << 8));
        i += 7;
    }
    out
}
pub fn spec_pings(d: &[u8]) -> Vec<(u8, u32, u32)> {
    let mut t = vec![];
    let mut samples = 0;
    for f in spec::frames(d) {
        let l = lead_pings(&d[f.body.0..f.body.1]);
        if !l.is_empty() {
            samples += 1;
        }
        for (p, ms) in l {
            ping_add(&mut t, p, ms);
        }
        if samples == 8 {
            break;
        }
    }
    t
}
/// C13: arbitrary bytes.
pub fn ping_raw(n: usize, _: usize, _: usize, _: usize) {
    let v = bytes(n);
    let want = spec_pings(&v);
    ck!(pings_eq(&v, &want));
    if !want.is_empty() {
        rc!("C13:raw nonempty");
    }
}
/// C13: one frame with an arbitrary body.
pub fn ping_body(n: usize, kind: usize, _: usize, _: usize) {
    let mut b = vec![36];
    b.extend(bytes(n));
    let mut d = Demo::new();
    d.read(1, [1u8, 3, 4, 5, 6][kind], &b);
    let want = spec_pings(&d.d);
    ck!(pings_eq(&d.d, &want));
    if want.len() == 2 {
        rc!("C13:two players");
    }
}
/// C13: `m` sampled frames with two players (arbitrary numbers, possibly equal), other frames in between; frame `sv`
/// carries arbitrary pings. Only the first eight sampled frames count.
pub fn ping_frames(m: usize, sv: usize, gap: usize, _: usize) {
    let p = byte();
    let q = byte();
    let mut d = Demo::new();
    let mut want = vec![];
    for i in 0..m {
        let (a, b) = if i == sv { (byte() as u16 + 256 * (i as u16), 0xff00 | byte() as u16) } else { (20 + i as u16, 65000 - i as u16) };
        for g in 0..gap {
            match g % 3 {
                0 => d.all(1, &[1, 36, 1, 1, 1, 1, 1]),
                1 => d.set(1, &[36, 1, 1, 1, 1, 1, 1, 1]),
                _ => d.all(1, &[]),
            };
            if g % 3 == 1 && i < 8 {
                rc!("C13:eight byte frame");
            }
        }
        d.all(1, &mk::cat(&[&mk::ping(p, a, i as u8), &mk::ping(q, b, 0), b"\x01\x24\x00\x00\x00\x00"]));
    }
    let _ = want.pop().map(|x: (u8, u32, u32)| x);
    let want = spec_pings(&d.d);
    ck!(pings_eq(&d.d, &want));
    rc!("C13:frames");
}
/// C13: arbitrary 16 bit pings of one player in `m` frames.
pub fn ping_avg(m: usize, k: usize, _: usize, _: usize) {
    let mut d = Demo::new();
    let mut want = vec![];
    for i in 0..m {
        let ms = if i < k { u16_() } else { 7 };
        d.all(1, &mk::ping(5, ms, 0));
        if i < 8 {
            ping_add(&mut want, 5, ms as u32);
        }
    }
    ck!(pings_eq(&d.d, &want));
    rc!("C13:avg");
}
/// C13: `n` updates of one player in a single frame (`big`: of 65535 ms), `k` of them arbitrary; another player's update in between.
pub fn ping_many(n: usize, k: usize, big: usize, _: usize) {
    let mut b = vec![];
    let mut sum = 0u64;
    for i in 0..n {
        let ms = if i % (n / k) == n / k - 1 { u16_() } else if big == 1 { 65535 } else { 25 };
        b.extend(mk::ping(5, ms, 0));
        sum += ms as u64;
        if i == 0 {
            b.extend(mk::ping(6, 12, 0));
        }
    }
    let mut d = Demo::new();
    d.all(1, &b);
    let p = mvdparser::all::ping_per_player_number(&d.d).unwrap_or_default();
    ck!(p.len() == 2);
    ck!(p.get(&6) == Some(&12));
    ck!(p.get(&5).map(|v| *v as u64) == Some(sum / n as u64));
    rc!("C13:many");
}
/// C16: a name printed at high level and the event text at any level: it counts at high level only. `k` below 6.
pub fn flag_split_level(k: usize, n: usize, _: usize, _: usize) {
    let a = name(n);
    let id = byte();
    let (t, f) = flag_text(k);
    let mut d = Demo::new();
    d.all(1, &mk::cat(&[&mk::print(2, &a), &mk::print(id, &t)]));
    let mut want = vec![];
    if id == 2 {
        flag_add(&mut want, &spec::text(&a), f, 1);
    }
    ck!(flags_eq(&d.d, &want));
    rc!("C16:split level");
}
/// C14: two long names (`la`, `lb` bytes, the first and the last arbitrary).
pub fn obit_long(i: usize, la: usize, lb: usize, _: usize) {
    let x = long_name(la, b'm');
    let y = long_name(lb, b'w');
    let (t, who, score) = obituary(i, &x, &y);
    let mut d = Demo::new();
    d.all(1, &mk::print(1, &mk::cat(&[&t, b"\n"])));
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &[(spec::text(&who), score)]));
    rc!("C14:long");
}
/// C14: obituaries `i` and `j` of players whose names differ by `n` arbitrary bytes at an end or inside.
pub fn obit_affix(i: usize, j: usize, n: usize, _: usize) {
    let names = mk::affixes(b"ab c", &name(n));
    let mut want = vec![];
    let mut d = Demo::new();
    for (k, a) in names.iter().enumerate() {
        for _ in 0..k + 1 {
            let (t, who, score) = obituary(if k % 2 == 0 { i } else { j }, a, &names[(k + 1) % 5]);
            d.all(1, &mk::print(1, &mk::cat(&[&t, b"\n"])));
            spec::add(&mut want, &spec::text(&who), score);
        }
    }
    let got = mvdparser::frags_per_player_name(&d.d);
    ck!(tally_eq(&got, &want));
    rc!("C14:affixes");
}
/// C16: events of players whose names differ by `n` arbitrary bytes at an end or inside.
pub fn flag_affix(k: usize, n: usize, split: usize, _: usize) {
    let names = mk::affixes(b"ab c", &name(n));
    let mut d = Demo::new();
    let mut want = vec![];
    for (i, a) in names.iter().enumerate() {
        for _ in 0..i + 1 {
            d.all(1, &flag_prints(k, a, split == 1));
            flag_add(&mut want, &spec::text(a), flag_text(k).1, 1);
        }
    }
    ck!(flags_eq(&d.d, &want));
    rc!("C16:affixes");
}
