//! C03 totality of statistics, players, teams, server; C17 reassembly; C18 players from statistics; C19 players from
//! messages; C20 teams; C21 hash order; C25 server; C26 recorded duration.
use crate::dates::stats_block;
use crate::mk::{self, Demo};
use crate::spec;
use crate::sym::*;
use ktxstats::v3::{BotConfig, KtxstatsV3, Player as KPlayer};
use mvdparser::all as a;
use mvdparser::{Player, Team};
const B: u32 = 50_000;

fn stats_one(v: &[u8], which: usize) {
    report(match which {
        0 => mvdparser::ktxstats_string(v).map_or(0, |x| x.len() as u64),
        1 => mvdparser::ktxstats_v3(v).map_or(0, |x| x.players.len() as u64),
        2 => mvdparser::players(v).map_or(0, |x| x.len() as u64),
        3 => mvdparser::teams(v).map_or(0, |x| x.len() as u64),
        4 => mvdparser::server(v).map_or(0, |x| x.port as u64),
        _ => a::players_from_parsing(v).map_or(0, |x| x.len() as u64),
    });
}
/// C03: `n` arbitrary bytes.
pub fn stats_total(n: usize, which: usize, _: usize, _: usize) {
    let v = bytes(n);
    stats_one(&v, which);
    rc!("C03:raw");
}
/// C03: the bytes before the marker are arbitrary (up to its own header), then `n` arbitrary bytes.
pub fn stats_head(n: usize, which: usize, pad: usize, k: usize) {
    let mut v = vec![b'.'; pad];
    v.extend(bytes(8));
    v.extend_from_slice(b"{\"version\": ");
    v.extend(bytes(n));
    v.extend_from_slice([b"".as_slice(), b"3}", b"}\x00\x03\x00\x00\x00\x00\xff\xff\x00\x00\xff\xff\xff\xff\x03\x00\x00\x00"][k]);
    stats_one(&v, which);
    rc!("C03:head");
}
/// C03: two blocks, the second one arbitrary and cut.
pub fn stats_two(n: usize, which: usize, _: usize, _: usize) {
    let mut v = stats_block(b"{\"version\": 3}");
    v[16] = 1; // number of the first block
    v.extend(vec![0u8; 10]);
    v.extend(bytes(n));
    stats_one(&v, which);
    rc!("C03:two");
}
/// C03: JSON with arbitrary bytes in place of a value.
pub fn stats_json(n: usize, which: usize, k: usize, _: usize) {
    let b = bytes(n);
    let (x, y): (&[u8], &[u8]) = [
        (b"{\"version\": 3, \"players\": [{\"name\": \"a\", \"ping\": ".as_slice(), b"}]}".as_slice()),
        (b"{\"version\": 3, \"players\": [{\"name\": \"a\", \"top-color\": ", b", \"stats\": {\"frags\": -2147483648}}, {\"stats\": {\"frags\": -5}}]}"),
        (b"{\"version\": 3, \"players\": [{\"name\": \"", b"\", \"ping\": 10}]}"),
        (b"{\"version\": 3, \"port\": ", b"}"),
        (b"{\"version\": 3, \"players\": ", b"}"),
    ][k];
    let v = stats_block(&mk::cat(&[x, &b, y]));
    stats_one(&v, which);
    rc!("C03:json");
}
/// C03: extreme players, `m` of them in one team, any score, ping and colour.
pub fn stats_big(m: usize, same: usize, _: usize, _: usize) {
    let f = i32_();
    let p = i32_();
    let c = i32_();
    let mut s = KtxstatsV3::default();
    for i in 0..m {
        let mut q = KPlayer::default();
        q.name = "x".into();
        q.team = if same == 1 { "t".into() } else { (b'a' + (i % 3) as u8).to_string() };
        q.stats.frags = if i % 2 == 0 { f } else { i32::MIN };
        q.ping = if i % 2 == 0 { p } else { i32::MAX };
        q.top_color = c;
        q.bottom_color = i as i32;
        s.players.push(q);
    }
    report(a::teams_from_ktxstats(&s).map_or(0, |t| t.len() as u64));
    report(a::players_from_ktxstats(&s).map_or(0, |t| t.len() as u64));
    rc!("C03:big");
}
/// C03: players taken from messages, arbitrary bytes in a client's info, a print and a ping.
pub fn stats_msgs(n: usize, which: usize, _: usize, _: usize) {
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[&mk::cat(&[b"\\name\\", &bytes(n)]), b"\\name\\q\\team\\z"]));
    d.all(1, &mk::cat(&[b"\x24", &bytes(3), b"\x35\x00\x00", &mk::ping(1, 0xffff, 0)]));
    d.all(1, &mk::print(1, &mk::cat(&[&bytes(n), b" was railed by q\n"])));
    stats_one(&d.d, which);
    rc!("C03:messages");
}

// ------------------------------------------------------------------ C17

fn kx_same(v: &[u8], id: u32) -> usize {
    let g = mvdparser::ktxstats_string(v);
    match spec::ktx(v) {
        None => {
            check(g.is_err(), id);
            0
        }
        Some(w) => {
            check(g.is_ok(), id);
            let g = g.unwrap();
            report(g.len() as u64);
            check(g.as_bytes() == w, id);
            w.len() + 1
        }
    }
}
/// One frame holding one block: the frame header is arbitrary by `fh`, size, kind and number are given.
fn block(out: &mut Vec<u8>, fh: u8, size: u32, kind: u16, number: u16, body: &[u8]) {
    out.extend_from_slice(&[fh, 3, 0, fh, 0, 0]);
    out.extend_from_slice(&(body.len() as u32 + 8).to_le_bytes());
    out.extend_from_slice(&size.to_le_bytes());
    out.extend_from_slice(&kind.to_le_bytes());
    out.extend_from_slice(&number.to_le_bytes());
    out.extend_from_slice(body);
}
const START: &[u8] = b"{\"version\": ";
/// C17: one block whose size, kind and number are arbitrary, `n` arbitrary bytes in its body, `after` bytes behind it.
pub fn kx_one(n: usize, after: usize, pre: usize, _: usize) {
    let mut v = vec![b'-'; pre];
    let size = u32_();
    let kind = u16_();
    let num = u16_();
    let b = mk::cat(&[START, &bytes(n)]);
    for &c in &b[12..] {
        assume(c < 128);
    }
    block(&mut v, 1, size, kind, num, &b);
    v.extend(vec![b'#'; after]);
    if kx_same(&v, B + line!()) > 0 {
        rc!("C17:one");
    } else {
        rc!("C17:bad block");
    }
}
/// C17: `m` blocks with correct sizes, lengths chosen up to n, arbitrary contents; kind and number of block `sv` arbitrary.
pub fn kx_blocks(m: usize, n: usize, sv: usize, _: usize) {
    let mut v = b"..".to_vec();
    for i in 0..m {
        let b = bytes(choice(n + 1));
        let body = if i == 0 { mk::cat(&[START, &b]) } else { b };
        let (kind, num) = if i == sv { (u16_(), u16_()) } else { (3, if i + 1 == m { 0 } else { (i + 1) as u16 }) };
        block(&mut v, i as u8, body.len() as u32 + 2, kind, num, &body);
    }
    v.extend_from_slice(b"\x00\x06\x01\x00\x00\x00\x01 and more");
    if kx_same(&v, B + line!()) > 12 {
        rc!("C17:blocks");
    } else {
        rc!("C17:no text");
    }
}
/// C17: the data ends `cut` bytes early; a stray marker before the statistics and wrong frame headers do not matter.
pub fn kx_cut(cut: usize, len: usize, two: usize, _: usize) {
    let mut v = b"{\"version\": 1}".to_vec();
    let b = byte();
    assume(b < 128);
    let mut body = START.to_vec();
    body.resize(len.max(13), b'x');
    let l = body.len();
    body[l - 1] = b;
    block(&mut v, 9, body.len() as u32 + 2, 3, two as u16, &body);
    if two > 0 {
        block(&mut v, 7, 3 + 2, 3, 0, &[b'y', b, b'z']);
    }
    let n = v.len() - cut.min(v.len());
    kx_same(&v[..n], B + line!());
    rc!("C17:cut");
}
/// C17: long bodies; a character or number split over two blocks.
pub fn kx_large(len: usize, m: usize, _: usize, _: usize) {
    let b = bytes(2);
    assume(b[0] < 128);
    let mut v = vec![];
    for i in 0..m {
        let mut body = vec![b'0' + (i % 10) as u8; len];
        if i == 0 {
            body[..12].copy_from_slice(START);
        }
        body[len - 2] = b[0];
        if i + 1 < m {
            body[len - 1] = 0xc3;
        }
        if i > 0 {
            body[0] = b[1];
        }
        block(&mut v, i as u8, len as u32 + 2, 3, if i + 1 == m { 0 } else { (1 + i as u16).wrapping_mul(251) }, &body);
    }
    if kx_same(&v, B + line!()) > 0 {
        rc!("C17:large");
    } else {
        rc!("C17:broken character");
    }
}
/// C17: `pad` bytes before the marker, which has one arbitrary byte (k).
pub fn kx_marker(pad: usize, k: usize, _: usize, _: usize) {
    let mut v = vec![0u8; pad];
    if pad >= 8 {
        v[pad - 8..].copy_from_slice(&[14, 0, 0, 0, 3, 0, 0, 0]);
    }
    let mut m = START.to_vec();
    if k < 12 {
        m[k] = byte();
    }
    v.extend_from_slice(&m);
    v.extend_from_slice(b"3}");
    if kx_same(&v, B + line!()) > 0 {
        rc!("C17:marker");
    }
}

// ------------------------------------------------------------------ C18

pub fn pl_same(g: &[Player], w: &[spec::Pl]) -> bool {
    if g.len() != w.len() {
        return false;
    }
    for i in 0..w.len() {
        let (x, y) = (&g[i], &w[i]);
        if x.name != y.name || x.team != y.team || x.color != y.color || x.frags != y.frags || x.ping != y.ping || x.is_bot != y.bot || x.auth_username != y.auth || x.auth_cc != y.cc {
            return false;
        }
    }
    true
}
pub fn from_stats(s: &KtxstatsV3) -> Vec<spec::Pl> {
    let mut v = vec![];
    for p in &s.players {
        v.push(spec::Pl {
            name: p.name.clone(),
            team: p.team.clone(),
            color: [p.top_color as u8, p.bottom_color as u8],
            frags: p.stats.frags,
            ping: if p.ping < 0 { 0 } else { p.ping as u32 },
            bot: p.bot.is_some() || p.ping == 10,
            auth: if p.login == "" { None } else { Some(p.login.clone()) },
            cc: None,
        });
    }
    spec::ranked(v)
}
fn ascii(n: usize) -> String {
    let b = bytes(n);
    let mut s = String::new();
    for &c in &b {
        assume(c < 128);
        s.push(c as char);
    }
    s
}
/// C18: `m` players with arbitrary scores and names of `n` arbitrary characters; player `sv` has arbitrary ping and
/// colours, a login and a bot entry or not.
pub fn pl_struct(m: usize, n: usize, sv: usize, _: usize) {
    let mut s = KtxstatsV3::default();
    for i in 0..m {
        let mut q = KPlayer::default();
        q.name = format!("p{}", ascii(n));
        q.team = format!("t{}", i);
        q.stats.frags = i32_();
        q.stats.deaths = 3 + i as i32;
        q.stats.kills = 77;
        q.ping = 20 + i as i32;
        q.top_color = i as i32;
        q.bottom_color = 13 - i as i32;
        if i == sv {
            q.ping = i32_();
            q.top_color = i32_();
            q.bottom_color = i32_();
            q.login = ascii(choice(2));
            if flag() {
                q.bot = Some(BotConfig::default());
                rc!("C18:bot");
            }
        }
        s.players.push(q);
    }
    let g = a::players_from_ktxstats(&s);
    ck!(g.is_ok());
    let g = g.unwrap();
    ck!(pl_same(&g, &from_stats(&s)));
    rc!("C18:struct");
}
/// C18: many players; score and name of one are arbitrary.
pub fn pl_many(m: usize, sv: usize, mul: usize, _: usize) {
    let mut s = KtxstatsV3::default();
    for i in 0..m {
        let mut q = KPlayer::default();
        q.name = format!("{}", (b'a' + ((i * mul) % 26) as u8) as char);
        q.team = "x".into();
        q.login = if i % 3 == 0 { format!("l{}", i) } else { String::new() };
        q.ping = 5 + (i % 8) as i32;
        q.stats.frags = ((i * 7) % 5) as i32 - 2;
        q.top_color = i as i32;
        if i == sv {
            q.stats.frags = byte() as i8 as i32;
            q.name = ascii(1);
        }
        s.players.push(q);
    }
    let g = a::players_from_ktxstats(&s);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &from_stats(&s)));
    rc!("C18:many");
}
/// C18: names, teams and logins that differ by an arbitrary character at an end or inside.
pub fn pl_affix(core: usize, which: usize, wide: usize, _: usize) {
    let mut s = KtxstatsV3::default();
    let x = one_char(wide);
    for (i, t) in str_affixes(["ab", "Éa", " . "][core], &x).into_iter().enumerate() {
        let mut q = KPlayer::default();
        q.name = if which == 0 { t.clone() } else { format!("p{}", i) };
        q.team = if which == 1 { t.clone() } else { "x".into() };
        q.login = if which == 2 { t } else { String::new() };
        q.ping = 11 + i as i32;
        q.stats.frags = [1, 1, 0, 1, 1][i];
        s.players.push(q);
    }
    let g = a::players_from_ktxstats(&s);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &from_stats(&s)));
    rc!("C18:affixes");
}
/// An arbitrary character: of one byte, or of the first 256.
fn one_char(wide: usize) -> String {
    if wide == 0 {
        ascii(1)
    } else {
        spec::text(&bytes(1))
    }
}
fn str_affixes(core: &str, x: &str) -> Vec<String> {
    let k = core.chars().next().map_or(0, |c| c.len_utf8());
    vec![core.to_string(), format!("{}{}", core, x), format!("{}{}", x, core), format!("{}{}{}", &core[..k], x, &core[k..]), format!("{}{}{}", x, core, x)]
}
pub const JS: &[u8] = b"{\"version\": 3, \"date\": \"2024-04-26 17:09:45 +0200\", \"map\": \"dm2\", \"hostname\": \"h\", \"ip\": \"10.1.2.3\", \"port\": 28501, \"mode\": \"duel\", \"duration\": 600, \"teams\": [], \"players\": [";
/// C18: through the embedded text: two players, arbitrary bytes in the fields of the first. Unreadable statistics fall back
/// to the messages.
pub fn pl_json(n: usize, k: usize, broken: usize, _: usize) {
    let b = bytes(n);
    let f: [&[u8]; 8] = [b"a", b"b", b"4", b"13", b"12", b"33", b"", b""];
    let g = |i: usize| if i == k { b.clone() } else { f[i].to_vec() };
    let p1 = mk::cat(&[b"{\"top-color\": ", &g(2), b", \"bottom-color\": ", &g(3), b", \"ping\": ", &g(4), b", \"login\": \"", &g(6), b"\", \"name\": \"", &g(0), b"\", \"team\": \"", &g(1), b"\", \"stats\": {\"frags\": ", &g(5), b", \"deaths\": 1}", &g(7), b"}"]);
    let p2 = b"{\"top-color\": 1, \"bottom-color\": 2, \"ping\": 10, \"login\": \"acc\", \"name\": \"z\", \"team\": \"b\", \"stats\": {\"frags\": 7}, \"bot\": {\"skill\": 7, \"customised\": true}}";
    let mut s = mk::cat(&[JS, &p1, b", ", p2, b"]}"]);
    if broken == 1 {
        s.pop();
    }
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[b"\\name\\one\\team\\x\\*spectator\\1", b"\\name\\two\\team\\y\\*bot\\1"]));
    d.all(1, &mk::ping(1, 44, 0));
    d.all(1, &mk::print(1, b"one was railed by two\n"));
    d.raw(&stats_block(&s));
    let v = d.d;
    let g = mvdparser::players(&v);
    ck!(g.is_ok());
    let g = g.unwrap();
    report(g.len() as u64);
    match KtxstatsV3::try_from(match std::str::from_utf8(&s) { Ok(x) => x, Err(_) => "" }) {
        Ok(s) => {
            ck!(pl_same(&g, &from_stats(&s)));
            rc!("C18:from statistics");
        }
        Err(_) => {
            ck!(pl_same(&g, &[spec::Pl { name: "two".into(), team: "y".into(), color: [0, 0], frags: 1, ping: 44, bot: true, auth: None, cc: None }]));
            rc!("C18:fallback");
        }
    }
}

// ------------------------------------------------------------------ C19

/// C19: four clients, spectator marks by parameter, names with one arbitrary character, each scoring by its own name,
/// pings for arbitrary numbers.
pub fn join(spect: usize, scores: usize, pings: usize, sv: usize) {
    let x = mk::cat(&[&if sv & 1 == 1 { bytes(1) } else { b"n".to_vec() }, &if sv & 2 == 2 { bytes(1) } else { b"e".to_vec() }]);
    for &c in &x {
        assume(c != 0 && c != b'\\' && c != b'"' && c != 10);
    }
    let y = mk::cat(&[&if sv & 16 == 16 { bytes(1) } else { b"t".to_vec() }, &if sv & 32 == 32 { bytes(1) } else { b"r".to_vec() }]);
    for &c in &y {
        assume(c != 0 && c != b'\\' && c != b'"' && c != 10);
    }
    let names: Vec<Vec<u8>> = vec![b"one".to_vec(), mk::cat(&[b"o", &x[..1], b"x"]), mk::cat(&[&y[..1], b"h", &y[1..]]), mk::cat(&[b"z", &x[1..]])];
    let mut infos = vec![];
    for i in 0..4 {
        let mut s = mk::cat(&[b"\\team\\t", &[b'0' + i as u8 % 2], b"\\topcolor\\", &[b'1' + i as u8], b"\\name\\", &names[i], b"\\bottomcolor\\1", &[b'0' + i as u8]]);
        if (spect >> i) & 1 == 1 {
            s.extend_from_slice(b"\\*spectator\\1");
        }
        if i == 2 {
            s.extend_from_slice(b"\\*auth\\acc\\*flag\\se\\*bot\\1");
        }
        infos.push(s);
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&r));
    let p = if sv & 4 == 4 { byte() } else { 1 };
    let q = if sv & 8 == 8 { byte() } else { 3 };
    let mut pg: Vec<(u8, u32, u32)> = vec![];
    if pings > 0 {
        for (i, (n, ms)) in [(p, 40u16), (q, 1000), (p, 61), (0, 12)].into_iter().enumerate() {
            if i < pings {
                d.all(1, &mk::ping(n, ms, 0));
                let mut hit = false;
                for e in pg.iter_mut() {
                    if e.0 == n {
                        e.1 += ms as u32;
                        e.2 += 1;
                        hit = true;
                    }
                }
                if !hit {
                    pg.push((n, ms as u32, 1));
                }
            }
        }
    }
    let mut fr: Vec<(String, i32)> = vec![];
    for i in 0..4 {
        for _ in 0..((scores >> (2 * i)) & 3) {
            d.all(1, &mk::print(1, &mk::cat(&[b"nobody rides ", &names[i], b"'s rocket\n"])));
            spec::add(&mut fr, &spec::text(&names[i]), 1);
        }
    }
    let g = a::players_from_parsing(&d.d);
    let h = mvdparser::players(&d.d);
    ck!(h.is_ok() == g.is_ok());
    if pings == 0 {
        ck!(g.is_err());
        rc!("C19:no pings");
        return;
    }
    let mut w = vec![];
    for (i, c) in spec::clients(&d.d).unwrap().into_iter().enumerate() {
        if c.spec {
            continue;
        }
        let mut f = 0;
        for e in &fr {
            if e.0 == c.name {
                f = e.1;
            }
        }
        let mut ms = 0;
        for e in &pg {
            if e.0 as usize == i {
                ms = e.1 / e.2;
            }
        }
        w.push(spec::Pl { name: c.name, team: c.team, color: c.color, frags: f, ping: ms, bot: c.bot, auth: c.auth, cc: c.cc });
    }
    let w = spec::ranked(w);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &w));
    ck!(pl_same(&h.unwrap(), &w));
    rc!("C19:joined");
}
/// C19: three clients with names of `len` bytes that differ at `pos`, each with own fields, score and ping.
pub fn join_long(len: usize, pos: usize, tl: usize, _: usize) {
    let b = byte();
    assume(b != 0 && b != b'\\' && b != b'"' && b != 10);
    let mut d = Demo::new();
    let mut infos = vec![];
    let mut names = vec![];
    let mut teams = vec![];
    for i in 0..3 {
        let mut n: Vec<u8> = (0..len).map(|j| b'a' + (j % 20) as u8).collect();
        n[pos.min(len - 1)] = [b'X', b, b'y'][i];
        let mut t = vec![b'T'; tl];
        t[(tl - 1).min(pos)] = [b'q', b'r', b][i];
        infos.push(mk::cat(&[b"\\team\\", &t, b"\\name\\", &n, b"\\*client\\x"]));
        names.push(n);
        teams.push(t);
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    d.all(1, &mk::spawn_body(&r));
    let mut fr = vec![];
    let mut pings = vec![];
    for i in 0..3 {
        pings.extend(mk::ping(i as u8, 3 + i as u16, 1));
        d.all(1, &mk::print(1, &mk::cat(&[&names[i], [b" died\n".as_slice(), b" suicides\n", b" was railed by x\n"][i]])));
        spec::add(&mut fr, &spec::text(&names[i]), [-1, -2, 0][i]);
    }
    d.all(1, &pings);
    let mut w = vec![];
    for i in 0..3 {
        let t = spec::text(&names[i]);
        let mut f = 0;
        for e in &fr {
            if e.0 == t {
                f = e.1;
            }
        }
        w.push(spec::Pl { name: t, team: spec::text(&teams[i]), color: [0, 0], frags: f, ping: 3 + i as u32, bot: false, auth: None, cc: None });
    }
    let g = a::players_from_parsing(&d.d);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &spec::ranked(w)));
    rc!("C19:long names");
}
/// C19: five clients whose names (and, with teams, team names) differ by an arbitrary byte at an end or inside.
pub fn join_affix(core: usize, spect: usize, teams: usize, _: usize) {
    let b = byte();
    assume(b != 0 && b != b'\\' && b != b'"' && b != 10);
    let names = mk::affixes([b"ab".as_slice(), b"\xe1x", b": y"][core], &[b]);
    let mut infos = vec![];
    for (i, n) in names.iter().enumerate() {
        infos.push(mk::cat(&[b"\\team\\", if teams == 1 { n } else { b"t" }, if (spect >> i) & 1 == 1 { b"\\*spectator\\1" } else { b"" }, b"\\name\\", n, b"\\*client\\x"]));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&r));
    let mut fr = vec![];
    let mut pings = vec![];
    for (i, n) in names.iter().enumerate() {
        for _ in 0..[2, 0, 3, 1, 4][i] {
            d.all(1, &mk::print(1, &mk::cat(&[n, b" died\n"])));
            spec::add(&mut fr, &spec::text(n), -1);
        }
        pings.extend(mk::ping(i as u8, 7 * i as u16, 1));
    }
    d.all(1, &pings);
    let mut w = vec![];
    for (i, n) in names.iter().enumerate() {
        if (spect >> i) & 1 == 1 {
            continue;
        }
        let t = spec::text(n);
        let mut f = 0;
        for e in &fr {
            if e.0 == t {
                f = e.1;
            }
        }
        w.push(spec::Pl { team: if teams == 1 { t.clone() } else { "t".into() }, name: t, color: [0, 0], frags: f, ping: 7 * i as u32, bot: false, auth: None, cc: None });
    }
    let g = a::players_from_parsing(&d.d);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &spec::ranked(w)));
    rc!("C19:affixes");
}
/// C19: many clients.
pub fn join_many(m: usize, sv: usize, mul: usize, _: usize) {
    let b = byte();
    assume(b != 0 && b != b'\\' && b != b'"' && b != 10);
    let mut d = Demo::new();
    let mut infos = vec![];
    let mut names = vec![];
    for i in 0..m {
        let mut n = vec![b'a' + ((i * mul) % 26) as u8, b'a' + (i / 26) as u8];
        if i == sv {
            n[1] = b;
        }
        infos.push(mk::cat(&[b"\\name\\", &n, b"\\team\\t", if i % 4 == 2 { b"\\*spectator\\1" } else { b"" }]));
        names.push(n);
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    d.all(1, &mk::spawn_body(&r));
    let mut fr = vec![];
    let mut pings = vec![];
    for i in 0..m {
        pings.extend(mk::ping(i as u8, 3 * i as u16, 1));
        if i % 3 != 0 {
            d.all(1, &mk::print(1, &mk::cat(&[&names[i], if i % 3 == 1 { b" died\n" } else { b" suicides\n" }])));
            spec::add(&mut fr, &spec::text(&names[i]), if i % 3 == 1 { -1 } else { -2 });
        }
    }
    d.all(1, &pings);
    let mut w = vec![];
    for (i, n) in names.iter().enumerate() {
        if i % 4 == 2 {
            continue;
        }
        let t = spec::text(n);
        let mut f = 0;
        for e in &fr {
            if e.0 == t {
                f = e.1;
            }
        }
        w.push(spec::Pl { name: t, team: "t".into(), color: [0, 0], frags: f, ping: 3 * i as u32, bot: false, auth: None, cc: None });
    }
    let g = a::players_from_parsing(&d.d);
    ck!(g.is_ok());
    ck!(pl_same(&g.unwrap(), &spec::ranked(w)));
    rc!("C19:many");
}

// ------------------------------------------------------------------ C20, C21

pub fn tm_same(g: &[Team], w: &[spec::Tm]) -> bool {
    if g.len() != w.len() {
        return false;
    }
    for i in 0..w.len() {
        let (x, y) = (&g[i], &w[i]);
        if x.name != y.name || x.color != y.color || x.frags != y.frags || x.ping != y.ping || !pl_same(&x.players, &y.players) {
            return false;
        }
    }
    true
}
pub fn real(p: &spec::Pl) -> Player {
    Player { name: p.name.clone(), team: p.team.clone(), color: p.color, frags: p.frags, ping: p.ping, is_bot: p.bot, auth_username: p.auth.clone(), auth_cc: p.cc.clone() }
}
pub fn base(i: usize) -> spec::Pl {
    spec::Pl { name: format!("n{}", i), team: "t".into(), color: [i as u8, 1], frags: i as i32, ping: 10 + i as u32, bot: i % 2 == 1, auth: if i % 2 == 0 { None } else { Some("a".into()) }, cc: None }
}
/// C20: `m` players whose team names are `n` arbitrary characters behind a common start.
pub fn tm_group(m: usize, n: usize, k: usize, _: usize) {
    let mut v = vec![];
    for i in 0..m {
        let mut p = base(i);
        p.team = format!("{}{}", ["", "Red"][k], ascii(n));
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    let w = spec::teams(&v);
    report(g.len() as u64);
    ck!(tm_same(&g, &w));
    rc!("C20:groups");
}
/// C20: scores are arbitrary.
pub fn tm_frags(m: usize, k: usize, split: usize, _: usize) {
    let mut v = vec![];
    for i in 0..m {
        let mut p = base(i);
        p.frags = if i < k { i32_() } else { [i32::MAX, i32::MIN, 0, -5][i % 4] };
        if split > 0 && i % split == 0 {
            p.team = "Other".into();
        }
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:scores");
}
/// C20: pings are arbitrary: `k` of `m` players have any `bits` wide ping.
pub fn tm_ping(m: usize, k: usize, bits: usize, big: usize) {
    let mut v = vec![];
    for i in 0..m {
        let mut p = base(i);
        p.ping = if i < k { if bits == 8 { byte() as u32 } else if bits == 16 { u16_() as u32 } else { u32_() } } else { [3, 40, 11, 7][i % 4] };
        if big == 1 && i >= k {
            p.ping += 4_000_000_000;
        }
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:pings");
}
/// C20: colours are arbitrary.
pub fn tm_color(m: usize, k: usize, pat: usize, _: usize) {
    let mut v = vec![];
    for i in 0..m {
        let mut p = base(i);
        let fixed = [
            [[4u8, 1], [13, 13], [4, 2]],
            [[4, 1], [13, 1], [13, 1]],
            [[4, 1], [4, 1], [13, 1]],
            [[0, 0], [1, 0], [0, 1]],
        ];
        p.color = if pat == 3 && i + k >= m {
            [0, byte()]
        } else if pat < 3 && i < k {
            [byte(), 1]
        } else {
            fixed[pat][i % 3]
        };
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:colours");
}
/// C20: large teams; every player has a different colour except `same` of one arbitrary colour.
pub fn tm_large(m: usize, same: usize, nteams: usize, _: usize) {
    let c = byte();
    let mut v = vec![];
    for i in 0..m {
        let mut p = base(i);
        p.color = if i % 2 == 1 && i / 2 < same { [c, 7] } else { [(i % 250) as u8, (i / 250) as u8] };
        p.team = format!("{}{}", if i % 2 == 0 { "t" } else { "T" }, i % nteams);
        p.ping = 100 + (i * i % 31) as u32;
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:large");
}
/// C20: the whole way from the statistics.
/// C20: team names that differ by an arbitrary character at an end or inside.
pub fn tm_affix(core: usize, wide: usize, _: usize, _: usize) {
    let mut v = vec![];
    let x = one_char(wide);
    for (i, t) in str_affixes(["ab", "Éa", " . ", "Red"][core], &x).into_iter().enumerate() {
        for j in 0..2 {
            let mut p = base(i * 2 + j);
            p.team = t.clone();
            v.push(p);
        }
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:affixes");
}
pub fn tm_long(len: usize, m: usize, pos: usize, _: usize) {
    let mut v = vec![];
    for i in 0..m {
        let mut p = base(i);
        let mut t = vec![b't'; len];
        t[pos.min(len - 1)] = if i == 1 { let b = byte(); assume(b < 128); b } else { [b'a', b'B', b'A', b'b'][i % 4] };
        p.team = String::from_utf8(t).unwrap();
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C20:long names");
}
pub fn tm_stats(m: usize, _: usize, _: usize, _: usize) {
    let mut s = KtxstatsV3::default();
    for i in 0..m {
        let mut q = KPlayer::default();
        q.name = format!("n{}", i);
        q.team = ["b", "a", "b", "A"][i % 4].into();
        q.stats.frags = byte() as i32;
        q.ping = i32_() >> 20;
        q.top_color = i as i32 / 2;
        s.players.push(q);
    }
    let g = a::teams_from_ktxstats(&s);
    ck!(g.is_ok());
    ck!(tm_same(&g.unwrap(), &spec::teams(&from_stats(&s))));
    rc!("C20:statistics");
}
/// C21: every order in which a hash table may hand out its first `k` entries: teams differing in case, equal colours.
pub fn hash_teams(m: usize, k: usize, kind: usize, _: usize) {
    hash_mode(k as u64);
    let mut v = vec![];
    for i in 0..m {
        let mut p = base(i);
        match kind {
            0 => p.team = ["red", "RED", "Red", "rEd"][i % 4].into(),
            1 => p.color = [[4u8, 4], [5, 5], [6, 6]][i % 3],
            2 => {
                p.team = ["b", "a", "B"][i % 3].into();
                p.color = [[4u8, 4], [5, 5]][i / 3 % 2];
            }
            _ => {
                p.color = [byte() & 1, 0];
                p.team = if i % 2 == 0 { "x".into() } else { "X".into() };
            }
        }
        v.push(p);
    }
    let g = a::teams_from_players(&v.iter().map(real).collect::<Vec<_>>());
    ck!(tm_same(&g, &spec::teams(&v)));
    rc!("C21:teams");
}
/// C21: players and names from messages with equal scores and equal names.
pub fn hash_players(m: usize, k: usize, kind: usize, _: usize) {
    let mut d = Demo::new();
    let mut infos = vec![];
    for i in 0..m {
        let n: &[u8] = [[b"aa".as_slice(), b"aa", b"ab", b"aB"], [b"q", b"Q", b"\xf1", b"\xd1"]][kind & 1][i % 4];
        infos.push(mk::cat(&[b"\\name\\", n, b"\\team\\", n, b"\\topcolor\\", &[b'0' + i as u8]]));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    d.all(1, &mk::spawn_body(&r));
    for i in 0..m {
        d.all(1, &mk::ping(i as u8, 7 * i as u16, 0));
    }
    d.all(1, &mk::print(1, b"aa was railed by Q\n"));
    d.all(1, &mk::print(1, b"aa was railed by ab\n"));
    hash_mode(k as u64);
    let mut w = vec![];
    for (i, c) in spec::clients(&d.d).unwrap().into_iter().enumerate() {
        let f = if c.name == "Q" || c.name == "ab" { 1 } else { 0 };
        w.push(spec::Pl { name: c.name, team: c.team, color: c.color, frags: f, ping: 7 * i as u32, bot: c.bot, auth: c.auth, cc: c.cc });
    }
    let ranked = spec::ranked(w);
    if kind < 2 {
        let g = mvdparser::players(&d.d);
        ck!(g.is_ok());
        ck!(pl_same(&g.unwrap(), &ranked));
        rc!("C21:players");
    } else {
        let names: Vec<String> = spec::clients(&d.d).unwrap().into_iter().map(|c| c.name).collect();
        let mut teams: Vec<String> = names.clone();
        teams.sort();
        teams.dedup();
        let g = mvdparser::player_names(&d.d);
        ck!(g.is_ok());
        ck!(g.unwrap() == spec::sorted(&names));
        let g = mvdparser::team_names(&d.d);
        ck!(g.is_ok());
        ck!(g.unwrap() == spec::sorted(&teams));
        rc!("C21:names");
    }
}
fn observe(v: &[u8], which: usize) -> String {
    fn pl(p: &[Player]) -> String {
        let mut s = String::new();
        for x in p {
            s.push_str(&x.name);
            s.push('/');
            s.push_str(&x.team);
            s.push((48 + x.color[0] % 64) as char);
            s.push((48 + x.ping % 64) as u8 as char);
            s.push((48 + (x.frags & 31)) as u8 as char);
            s.push(if x.is_bot { 'b' } else { 'h' });
        }
        s
    }
    fn cl(p: &[mvdparser::Client]) -> String {
        let mut s = String::new();
        for x in p {
            s.push_str(&x.name);
            s.push('/');
            s.push_str(&x.team);
            s.push((48 + x.color[0] % 64) as char);
            s.push((48 + x.number % 64) as char);
        }
        s
    }
    match which {
        0 => mvdparser::player_names(v).unwrap().join("/"),
        1 => mvdparser::spectator_names(v).unwrap().join("/"),
        2 => mvdparser::team_names(v).unwrap().join("/"),
        3 => cl(&a::clients(v).unwrap()),
        4 => cl(&mvdparser::player_clients(v).unwrap()),
        5 => cl(&mvdparser::spectator_clients(v).unwrap()),
        6 => pl(&a::players_from_parsing(v).unwrap()),
        7 => pl(&mvdparser::players(v).unwrap()),
        8 => {
            let mut s = String::new();
            for t in mvdparser::teams(v).unwrap() {
                s.push_str(&t.name);
                s.push((48 + t.color[0] % 64) as char);
                s.push((48 + t.ping % 64) as u8 as char);
                s.push_str(&pl(&t.players));
                s.push(';');
            }
            s
        }
        9 => mvdparser::server(v).unwrap().address,
        _ => {
            let mut s = String::new();
            for p in mvdparser::prints(v) {
                s.push_str(&spec::text(&p.content));
                s.push(';');
            }
            s
        }
    }
}
/// C21: one demo with ties everywhere, with (st) or without statistics: what is observed in the one fixed order of hash
/// tables equals what is observed in every other order of their first `k` entries.
pub fn hash_any(which: usize, m: usize, k: usize, st: usize) {
    let mut d = Demo::new();
    let mut infos = vec![];
    for i in 0..m {
        infos.push(mk::cat(&[
            b"\\name\\", [b"foo".as_slice(), b"FOO", b"Foo", b"fo\xef"][i % 4], b"\\team\\", [b"red".as_slice(), b"RED", b"blue"][i % 3],
            if which == 1 || which == 5 { b"\\*spectator\\1" } else { b"\\topcolor\\" }, &[b'1' + (i / 2) as u8],
        ]));
    }
    let r: Vec<&[u8]> = infos.iter().map(|x| x.as_slice()).collect();
    d.all(1, &mk::spawn_body(&r));
    for i in 0..m {
        d.all(1, &mk::ping(i as u8, 7, 0));
    }
    d.all(1, &mk::print(1, b"foo was railed by FOO\n"));
    d.all(1, &mk::print(1, b"FOO was railed by foo\n"));
    if st == 1 {
        let mut s = JS.to_vec();
        for i in 0..m {
            s.extend(mk::cat(&[
                if i > 0 { b",".as_slice() } else { b"" }, b"{\"top-color\": ", &[b'1' + (i / 2) as u8], b", \"bottom-color\": 2, \"ping\": 7, \"login\": \"\", \"name\": \"",
                [b"foo".as_slice(), b"foo", b"Foo", b"foo"][i % 4], b"\", \"team\": \"", [b"red".as_slice(), b"RED", b"blue"][i % 3], b"\", \"stats\": {\"frags\": 3, \"deaths\": 1}}",
            ]));
        }
        s.extend_from_slice(b"]}");
        d.raw(&stats_block(&s));
    }
    ck!(mvdparser::ktxstats_v3(&d.d).is_ok() == (st == 1));
    let want = observe(&d.d, which);
    hash_mode(k as u64);
    let got = observe(&d.d, which);
    ck!(got == want);
    rc!("C21:any");
}
/// C21: info strings with repeated keys.
pub fn hash_info(k: usize, kind: usize, _: usize, _: usize) {
    hash_mode(k as u64);
    if kind == 0 {
        let v = mk::spawn_body(&[b"\\name\\a\\team\\x\\name\\b\\team\\y\\topcolor\\1\\topcolor\\2"]);
        let c = a::clients(&v);
        ck!(c.is_ok());
        let c = c.unwrap();
        ck!(c.len() == 1 && c[0].name == "b" && c[0].team == "y" && c[0].color == [2, 0]);
    } else {
        let v = mk::serverinfo_body(b"\\map\\a\\mode\\x\\map\\b\\serverdemo\\f\\mode\\y");
        let s = mvdparser::serverinfo(&v);
        ck!(s.is_ok());
        let s = s.unwrap();
        ck!(s.map == Some("b".into()) && s.mode == Some("y".into()) && s.serverdemo == Some("f".into()));
    }
    rc!("C21:info");
}

// ------------------------------------------------------------------ C25

/// C25: any port, host name and IP of arbitrary characters.
pub fn sv_struct(n: usize, bits: usize, _: usize, _: usize) {
    let mut s = KtxstatsV3::default();
    s.hostname = ascii(n);
    s.ip = ascii(n);
    s.port = match bits {
        8 => byte() as u32,
        16 => u16_() as u32,
        17 => 65_500 + byte() as u32,
        18 => 999_999_900 + byte() as u32,
        19 => u32::MAX - byte() as u32,
        _ => u32_(),
    };
    let g = mvdparser::Server::from(&s);
    let mut digits = vec![];
    let mut p = s.port;
    loop {
        digits.insert(0, b'0' + (p % 10) as u8);
        p /= 10;
        if p == 0 {
            break;
        }
    }
    let mut addr = s.ip.clone();
    addr.push(':');
    addr.push_str(std::str::from_utf8(&digits).unwrap());
    ck!(g.address == addr);
    ck!(g.hostname == s.hostname && g.ip == s.ip && g.port == s.port);
    rc!("C25:struct");
}
/// C25: through the embedded text.
pub fn sv_json(n: usize, k: usize, _: usize, _: usize) {
    let b = bytes(n);
    let f: [&[u8]; 3] = [b"host name", b"10.0.0.1", b"28501"];
    let g = |i: usize| if i == k { b.clone() } else { f[i].to_vec() };
    let s = mk::cat(&[b"{\"version\": 3, \"map\": \"m\", \"hostname\": \"", &g(0), b"\", \"ip\": \"", &g(1), b"\", \"port\": ", &g(2), b", \"mode\": \"x\"}"]);
    let v = stats_block(&s);
    let g = mvdparser::server(&v);
    match KtxstatsV3::try_from(match std::str::from_utf8(&s) { Ok(x) => x, Err(_) => "" }) {
        Ok(x) => {
            ck!(g.is_ok());
            let g = g.unwrap();
            ck!(g.hostname == x.hostname && g.ip == x.ip && g.port == x.port);
            ck!(g.address == format!("{}:{}", x.ip, x.port));
            if k > 2 {
                ck!(g.hostname == "host name" && g.address == "10.0.0.1:28501");
            }
            rc!("C25:json");
        }
        Err(_) => {
            ck!(g.is_err());
            rc!("C25:unreadable");
        }
    }
}

// ------------------------------------------------------------------ C26

/// C26: the number is a fixed start and `n` arbitrary bytes; the mode is hoonymode or not; frames are there or not.
pub fn du_text(n: usize, k: usize, mode: usize, shape: usize) {
    let b = bytes(n);
    for &c in &b {
        assume(c != b',' && c < 128);
    }
    let num = mk::cat(&[[b"".as_slice(), b"600", b"-", b"0.", b"1e", b"9", b" ", b"1844674407370955161"][k], &b]);
    let s = match shape {
        0 => mk::cat(&[b"{\"version\": 3, \"map\": \"dm2\", \"duration\": ", &num, b", \"demo\": \"x\"}"]),
        1 => mk::cat(&[b"{\"version\": 3, \"duration\":", &num, b", \"demo\": 1}"]),
        _ => mk::cat(&[b"{\"version\": 3, \"duration\": ", &num, b"}"]),
    };
    let modes: [&[u8]; 4] = [b"\\mode\\2on2", b"\\mode\\hoonymode", b"", b"\\mode\\Hoonymode"];
    let mut d = Demo::new();
    d.all(5, &mk::serverinfo_body(&mk::cat(&[b"\\map\\x", modes[mode]])));
    d.all(100, &mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n"));
    d.all(200, &mk::print(2, b"The match is over\n"));
    d.raw(&stats_block(&s));
    let v = d.d;
    let got = mvdparser::match_duration(&v);
    ck!(got.is_ok());
    let got = got.unwrap();
    let st = std::str::from_utf8(&s).unwrap();
    let mut want = None;
    if let Some(x) = st.find("\"duration\": ") {
        let rest = &st[x + 12..];
        if let Some(y) = rest.find(',') {
            if y > 0 {
                if let Ok(f) = rest[..y].parse::<f64>() {
                    want = std::time::Duration::try_from_secs_f64(f).ok();
                }
            }
        }
    }
    let g2 = a::match_duration_from_ktxstats(&v);
    match want {
        Some(w) => ck!(g2.is_ok() && g2.unwrap() == w),
        None => ck!(g2.is_err()),
    }
    if mode == 1 {
        // hoonymode has no countdown
        ck!(crate::walk::exactly(got, 305, 0));
        rc!("C26:hoonymode");
    } else if let Some(w) = want {
        ck!(got == w);
        rc!("C26:recorded");
    } else {
        ck!(crate::walk::exactly(got, 305, 105));
        rc!("C26:derived");
    }
}
/// `len` characters: `phase` arbitrary ASCII characters that need no escape (at most one), 'x's, then characters of `w` bytes.
fn wide(len: usize, phase: usize, w: usize) -> String {
    let mut s = String::new();
    for i in 0..len {
        if i < phase {
            if i == 0 {
                let c = byte();
                assume(c >= 32 && c < 127 && c != b'"' && c != b'\\');
                s.push(c as char);
            } else {
                s.push('x');
            }
        } else {
            s.push([' ', '.', '\u{e9}', '\u{20ac}', '\u{1f600}'][w]);
        }
    }
    s
}
/// C03, C18, C25: long texts of multi-byte characters at any alignment in the host name and address and in the name, team and
/// account of a player.
pub fn wide_texts(len: usize, phase: usize, w: usize, _: usize) {
    let t = wide(len, phase, w);
    let s = mk::cat(&[
        b"{\"version\": 3, \"hostname\": \"", t.as_bytes(), b"\", \"ip\": \"", t.as_bytes(), b"\", \"port\": 27500, \"players\": [{\"name\": \"", t.as_bytes(), b"\", \"team\": \"", t.as_bytes(),
        b"\", \"login\": \"", t.as_bytes(), b"\", \"ping\": 12, \"top-color\": 4, \"bottom-color\": 5, \"stats\": {\"frags\": 3}}]}",
    ]);
    let v = stats_block(&s);
    let g = mvdparser::server(&v);
    ck!(g.is_ok());
    let g = g.unwrap();
    ck!(g.hostname == t && g.ip == t && g.port == 27500);
    ck!(g.address == t.clone() + ":27500");
    let p = mvdparser::players(&v);
    ck!(p.is_ok());
    let auth = if len == 0 { None } else { Some(t.clone()) };
    ck!(pl_same(&p.unwrap(), &[spec::Pl { name: t.clone(), team: t.clone(), color: [4, 5], frags: 3, ping: 12, bot: false, auth, cc: None }]));
    let q = mvdparser::teams(&v);
    ck!(q.is_ok());
    let q = q.unwrap();
    ck!(q.len() == 1 && q[0].name == t && q[0].frags == 3 && q[0].players.len() == 1);
    rc!("C25:wide");
}
/// C18: statistics that can be read but have no players, or lack the list.
pub fn pl_empty(k: usize, _: usize, _: usize, _: usize) {
    let mut d = Demo::new();
    d.all(1, &mk::spawn_body(&[b"\\name\\one\\team\\x", b"\\name\\two\\team\\y\\*bot\\1"]));
    d.all(1, &mk::ping(byte(), 44, 0));
    d.all(1, &mk::print(1, b"one was railed by two\n"));
    let s: &[u8] = [b"{\"version\": 3, \"players\": []}".as_slice(), b"{\"version\": 3}", b"{\"version\": 3, \"map\": \"dm2\", \"players\": [ ]}", b"{\"version\": 3, \"teams\": [\"x\"], \"players\": []}"][k];
    d.raw(&stats_block(s));
    let g = mvdparser::players(&d.d);
    let readable = mvdparser::ktxstats_v3(&d.d);
    ck!(g.is_ok());
    ck!(g.unwrap().len() == match readable { Ok(x) => x.players.len(), Err(_) => 2 });
    ck!(KtxstatsV3::try_from(std::str::from_utf8(s).unwrap_or("")).is_ok() == mvdparser::ktxstats_v3(&d.d).is_ok());
    rc!("C18:no players");
}
/// C17: good statistics stand before the last marker, whose block is of kind `k`: cut, of another kind, without room for
/// a header or with an arbitrary size.
pub fn kx_two(k: usize, n: usize, gap: usize, _: usize) {
    let mut v = vec![];
    block(&mut v, 1, 15, 3, 0, b"{\"version\": 3}");
    v.truncate(v.len());
    v.extend(vec![b'.'; gap]);
    let b = bytes(n);
    let body = mk::cat(&[START, &b, b"}"]);
    let l = body.len() as u32;
    match k {
        0 => {
            block(&mut v, 2, l + 2, 3, 0, &body);
            v.truncate(v.len() - 1);
        }
        1 => block(&mut v, 2, l + 2, 3 + u16_() % 3, 0, &body),
        2 => v.extend_from_slice(&body),
        3 => block(&mut v, 2, byte() as u32, 3, 0, &body),
        _ => block(&mut v, 2, l + 2, 3, 1 + u16_() % 2, &body),
    }
    kx_same(&v, B + line!());
    rc!("C17:two");
}
/// C26: the first entry is `n` arbitrary bytes; a good one follows in the same statistics (or only in ones before).
pub fn du_two(n: usize, k: usize, earlier: usize, _: usize) {
    let b = bytes(n);
    for &c in &b {
        assume(c != b',' && c < 128);
    }
    let num = mk::cat(&[[b"".as_slice(), b"6", b"x", b"-"][k], &b]);
    let mut d = Demo::new();
    d.all(5, &mk::serverinfo_body(b"\\map\\x\\mode\\2on2"));
    d.all(100, &mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n"));
    d.all(200, &mk::print(2, b"The match is over\n"));
    if earlier == 1 {
        d.raw(&stats_block(b"{\"version\": 3, \"duration\": 77, \"demo\": 1}"));
    }
    let tail: &[u8] = if earlier == 1 { b", \"demo\": 1}" } else { b", \"demo\": 1, \"duration\": 77, \"x\": 1}" };
    d.raw(&stats_block(&mk::cat(&[b"{\"version\": 3, \"duration\": ", &num, tail])));
    let got = mvdparser::match_duration(&d.d);
    ck!(got.is_ok());
    let mut want = None;
    if let Ok(f) = std::str::from_utf8(&num).unwrap().parse::<f64>() {
        want = std::time::Duration::try_from_secs_f64(f).ok();
    }
    match want {
        Some(w) => {
            ck!(got.unwrap() == w);
            rc!("C26:first entry");
        }
        None => {
            ck!(crate::walk::exactly(got.unwrap(), 305, 105));
            rc!("C26:neither entry");
        }
    }
}
