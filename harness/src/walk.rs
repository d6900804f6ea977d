//! C01 totality of the frame walkers, C05 print fidelity, C06 frame stepping and prefix stability, C07/C08 durations.
use crate::mk::{self, Demo};
use crate::spec;
use crate::sym::*;
const B: u32 = 10_000;
use std::time::Duration;

/// Run one entry point that walks frames; the result only matters for the digest.
fn walk_one(v: &[u8], which: usize) {
    report(match which {
        0 => mvdparser::prints(v).len() as u64,
        1 => mvdparser::frags_per_player_name(v).len() as u64,
        2 => mvdparser::all::flag_events_per_player_name(v).len() as u64,
        3 => mvdparser::all::ping_per_player_number(v).map_or(0, |x| x.len() as u64),
        4 => mvdparser::demo_duration(v).map_or(0, |x| x.as_millis() as u64),
        _ => mvdparser::all::match_duration_from_seeking(v).is_ok() as u64,
    });
}
/// C01: `n` arbitrary bytes.
pub fn total(n: usize, which: usize, _: usize, _: usize) {
    let v = bytes(n);
    walk_one(&v, which);
    rc!("C01:end");
}
/// C01: a well formed frame whose body starts like a message of interest, then arbitrary bytes, then more arbitrary bytes
/// after the frame.
pub fn total_body(n: usize, which: usize, k: usize, after: usize) {
    let pre: &[u8] = [b"\x08\x01".as_slice(), b"\x08\x02flag\x00\x08\x02", b"\x24", b"\x08\x01a was telefragged by his teammate\n\x00\x0e", b"\x0e", b"\x08\x02matchdate: "][k];
    let mut b = pre.to_vec();
    b.extend(bytes(n));
    let mut d = Demo::new();
    d.all(byte(), &b);
    d.raw(&bytes(after));
    walk_one(&d.d, which);
    rc!("C01:body");
}
/// C01: many frames, every duration byte at its maximum, many pings at their maximum.
pub fn total_large(frames: usize, which: usize, _: usize, _: usize) {
    let mut d = Demo::new();
    let hi = byte();
    let who = byte();
    for i in 0..frames {
        let b: Vec<u8> = match which {
            3 => mk::cat(&[&mk::ping(who, 0xff00 | hi as u16, 0), &mk::ping(i as u8, 0xffff, 0)]),
            1 => mk::print(1, b"abc suicides\n"),
            2 => mk::print(2, b"abc defends the \xd2\xc5\xc4 flag\n"),
            _ => vec![1],
        };
        d.all(if i % 64 == 0 { hi } else { 255 }, &b);
    }
    walk_one(&d.d, which);
    rc!("C01:large");
}

pub fn same_prints(v: &[u8], want: &[spec::P], id: u32) {
    let got = mvdparser::prints(v);
    let mut ok = got.len() == want.len();
    if ok {
        for i in 0..want.len() {
            let l = got[i].id.clone() as u32;
            let l = if l <= 3 { l as u8 } else { 9 };
            if l != want[i].0 || got[i].content != want[i].1 {
                ok = false;
                break;
            }
        }
    }
    report(got.len() as u64);
    check(ok, id);
}
/// C05: arbitrary bytes.
pub fn prints_raw(n: usize, _: usize, _: usize, _: usize) {
    let v = bytes(n);
    let want = spec::prints(&v);
    same_prints(&v, &want, B + line!());
    if !want.is_empty() {
        rc!("C05:raw nonempty");
    }
}
/// C05: one frame with an arbitrary body of n bytes, wrapped in any frame kind, after and before other print frames.
pub fn prints_body(n: usize, kind: usize, _: usize, _: usize) {
    let body = bytes(n);
    let mut d = Demo::new();
    d.all(3, &mk::print(2, b"first\n"));
    d.read(byte(), [1u8, 3, 4, 5, 6][kind], &body);
    d.all(1, &mk::print(3, b"last\n"));
    let want = spec::prints(&d.d);
    same_prints(&d.d, &want, B + line!());
    if want.len() >= 4 {
        rc!("C05:several in one frame");
    }
}
/// C05: prints written out one by one must come back one by one: contents, level, order; spread over frames by choice.
/// `m` prints of up to `n` arbitrary bytes each.
pub fn prints_list(m: usize, n: usize, _: usize, _: usize) {
    let mut want: Vec<spec::P> = vec![];
    let mut d = Demo::new();
    let mut body: Vec<u8> = vec![];
    for i in 0..m {
        let id = byte();
        let c = bytes(choice(n + 1));
        for &x in &c {
            assume(x != 0);
        }
        body.extend(mk::print(id, &c));
        if !c.is_empty() && want.last() != Some(&(spec::level(id), c.clone())) {
            want.push((spec::level(id), c));
        } else {
            rc!("C05:dropped");
        }
        if i + 1 == m || flag() {
            if flag() {
                body.push(1);
                body.extend_from_slice(b"\x08\x02ignored\x00");
            }
            d.all(7, &body);
            body.clear();
        }
    }
    same_prints(&d.d, &want, B + line!());
    if want.len() == m {
        rc!("C05:all kept");
    }
}
/// C05: long contents and many prints.
pub fn prints_long(len: usize, many: usize, _: usize, _: usize) {
    let mut want: Vec<spec::P> = vec![];
    let mut d = Demo::new();
    for i in 0..many {
        let mut c = vec![b'x'; len];
        let a = byte();
        assume(a != 0);
        if len > 0 {
            c[len - 1] = a;
            c[len / 2] = b'0' + (i % 10) as u8;
        }
        let id = (i % 4) as u8;
        d.read(1, [6u8, 1, 3, 4][i % 4], &mk::print(id, &c));
        if i % 3 == 0 {
            d.set(1, &[0; 8]);
        }
        if len > 0 {
            want.push((id, c));
        }
    }
    same_prints(&d.d, &want, B + line!());
    rc!("C05:long");
}

/// Everything the walkers report about `v`, as a comparable value.
#[derive(PartialEq)]
struct Seen {
    prints: Vec<(u8, Vec<u8>)>,
    frags: Vec<(String, i32)>,
    flags: Vec<(String, String)>,
    pings: Vec<(u8, u32)>,
}
fn seen(v: &[u8], which: usize) -> Seen {
    let mut s = Seen { prints: vec![], frags: vec![], flags: vec![], pings: vec![] };
    match which {
        0 => {
            for p in mvdparser::prints(v) {
                let l = p.id.clone() as u32;
                s.prints.push((if l <= 3 { l as u8 } else { 9 }, p.content));
            }
        }
        1 => {
            s.frags = mvdparser::frags_per_player_name(v).into_iter().collect();
            s.frags.sort();
        }
        2 => {
            s.flags = mvdparser::all::flag_events_per_player_name(v).into_iter().map(|(k, v)| (k, format!("{v:?}"))).collect();
            s.flags.sort();
        }
        _ => {
            s.pings = mvdparser::all::ping_per_player_number(v).map(|m| m.into_iter().collect()).unwrap_or_default();
            s.pings.sort();
        }
    }
    s
}
fn content(i: usize) -> Vec<u8> {
    match i {
        0 => mk::print(1, b"ab died\n"),
        1 => mk::print(2, b"ab defends the \xd2\xc5\xc4 flag\n"),
        2 => mk::ping(3, 40, 0),
        _ => mk::print(1, b"ab was railed by cd\n"),
    }
}
fn prefix_demo() -> Demo {
    let mut d = Demo::new();
    d.all(1, &content(0)).all(2, &content(1)).all(3, &content(2));
    d
}
/// C06: complete frames followed by `n` arbitrary bytes that do not form a complete frame: nothing of it may show.
pub fn prefix(n: usize, which: usize, _: usize, _: usize) {
    let p = prefix_demo();
    let tail = bytes(n);
    assume(spec::frames(&tail).is_empty());
    let mut full = p.d.clone();
    full.extend_from_slice(&tail);
    let a = seen(&full, which);
    let b = seen(&p.d, which);
    ck!(a == b);
    ck!(!b.prints.is_empty() || !b.frags.is_empty() || !b.flags.is_empty() || !b.pings.is_empty());
    rc!("C06:tail");
}
/// C06: a frame cut anywhere (its announced size is arbitrary and larger than what is left) contributes nothing.
pub fn cut(len: usize, which: usize, kind: usize, _: usize) {
    let p = prefix_demo();
    let mut q = Demo::new();
    q.read(9, [1u8, 3, 4, 5, 6][kind], &content(if which == 3 { 2 } else if which == 2 { 1 } else { 3 }));
    let full_len = q.d.len();
    let keep = full_len.saturating_sub(len + 1);
    let mut v = p.d.clone();
    v.extend_from_slice(&q.d[..keep]);
    let a = seen(&v, which);
    let b = seen(&p.d, which);
    ck!(a == b);
    rc!("C06:cut");
}
/// C06: the announced size of the last frame is any 32 bit number.
pub fn size(which: usize, kind: usize, _: usize, _: usize) {
    let p = prefix_demo();
    let body = content(if which == 3 { 2 } else if which == 2 { 1 } else { 3 });
    let n = u32_();
    assume(n as usize > body.len());
    let mut v = p.d.clone();
    let cmd = [1u8, 3, 4, 5, 6][kind];
    v.extend_from_slice(&[1, cmd]);
    if cmd == 3 {
        v.extend_from_slice(&bytes(4));
    }
    v.extend_from_slice(&n.to_le_bytes());
    v.extend_from_slice(&body);
    let a = seen(&v, which);
    let b = seen(&p.d, which);
    ck!(a == b);
    rc!("C06:size");
}
/// C06: frames of every kind in front are stepped over exactly: `k` frames with arbitrary kind bits, header bytes and
/// bodies of up to n arbitrary bytes that hold no message of interest, then the frames of interest.
pub fn step(k: usize, n: usize, which: usize, _: usize) {
    let mut v: Vec<u8> = vec![];
    for _ in 0..k {
        let cmd = byte();
        v.push(byte());
        v.push(cmd);
        let kind = cmd & 7;
        if kind == 3 {
            v.extend(bytes(4));
        }
        let body = if kind == 0 || kind == 7 {
            vec![]
        } else if kind == 2 {
            bytes(8)
        } else {
            let l = choice(n + 1);
            v.extend_from_slice(&(l as u32).to_le_bytes());
            bytes(l)
        };
        if kind != 0 && kind != 7 && !body.is_empty() {
            assume(body[0] != 8 && body[0] != 36);
            rc!("C06:stepped body");
        }
        v.extend(body);
    }
    let mut q = Demo::new();
    q.all(1, &content(0)).read(2, 3, &content(1)).all(3, &content(2)).read(1, 4, &content(3)).read(1, 5, &content(0)).read(1, 1, &content(1));
    v.extend_from_slice(&q.d);
    let a = seen(&v, which);
    let b = seen(&q.d, which);
    ck!(a == b);
    rc!("C06:step");
}
/// C06: one concrete large body (kind by parameter), so sizes above one and two bytes are stepped over too.
pub fn step_large(len: usize, kind: usize, which: usize, _: usize) {
    let mut d = Demo::new();
    let mut body = vec![1u8; len];
    if len > 2 {
        body[1] = byte();
        body[len - 1] = byte();
    }
    d.read(byte(), [1u8, 3, 4, 5, 6][kind], &body);
    let mut q = Demo::new();
    q.all(1, &content(0)).read(2, 3, &content(1)).all(3, &content(2));
    d.raw(&q.d);
    let a = seen(&d.d, which);
    let b = seen(&q.d, which);
    ck!(a == b);
    rc!("C06:step large");
}

const OVER: &[u8] = b"The match is over";
const STANDBY: &[u8] = b"4status\0Standby\0";
/// `got` is the time of the frames up to millisecond `end` without that up to `begin`.
pub fn exactly(got: Duration, end: u64, begin: u64) -> bool {
    got == Duration::from_millis(end) - Duration::from_millis(begin)
}
pub fn end_of(v: &[u8]) -> usize {
    spec::rfind(v, OVER).or_else(|| spec::rfind(v, STANDBY)).unwrap_or(v.len())
}
/// C07: arbitrary bytes (no marker fits): the sum of all complete frames.
pub fn demo_raw(n: usize, _: usize, _: usize, _: usize) {
    let v = bytes(n);
    let got = mvdparser::demo_duration(&v).unwrap_or(Duration::MAX);
    ck!(exactly(got, spec::ms_before(&v, v.len()), 0));
    rc!("C07:raw");
}
/// C07: `n` arbitrary bytes, a marker, `tail` arbitrary bytes and frames.
pub fn demo_front(n: usize, which: usize, tail: usize, frames: usize) {
    let mut v = bytes(n);
    v.extend_from_slice([OVER, STANDBY, b"The match is ove", b"4status\0Standby"][which]);
    v.extend(bytes(tail));
    for _ in 0..frames {
        v.extend_from_slice(&[byte(), 6, 1, 0, 0, 0, 1]);
    }
    let got = mvdparser::demo_duration(&v).unwrap_or(Duration::MAX);
    ck!(exactly(got, spec::ms_before(&v, end_of(&v)), 0));
    rc!("C07:front");
}
/// C07: `m` frames with arbitrary durations; markers in frames chosen by parameter bits (2 bits a frame: 1 over, 2 standby,
/// 3 both); a marker that has been cut short does not count.
pub fn demo_marks(m: usize, marks: usize, cutlen: usize, _: usize) {
    let mut d = Demo::new();
    for i in 0..m {
        let k = (marks >> (2 * i)) & 3;
        let mut body = vec![1u8];
        if k & 1 == 1 {
            body.extend(mk::print(2, &mk::cat(&[OVER, b"\n"])));
        }
        if k & 2 == 2 {
            body.extend_from_slice(STANDBY);
        }
        let b = if i < 2 { byte() } else { 200 };
        match i % 3 {
            0 => d.all(b, &body),
            1 => d.read(b, 3, &body),
            _ => d.read(b, 1, &body),
        };
    }
    d.all(123, &OVER[..cutlen.min(16)]);
    let got = mvdparser::demo_duration(&d.d).unwrap_or(Duration::MAX);
    let want = spec::ms_before(&d.d, end_of(&d.d));
    ck!(exactly(got, want, 0));
    ck!(exactly(mvdparser::all::match_duration_from_seeking(&d.d).unwrap_or(Duration::MAX), want, 0));
    rc!("C07:marks");
}
/// C07: long demos.
pub fn demo_long(m: usize, _: usize, _: usize, _: usize) {
    let mut d = Demo::new();
    let b = byte();
    for i in 0..m {
        if i % 5 == 4 {
            d.set(77, &[0; 8]);
        } else {
            d.all(if i % 97 == 0 { b } else { (i % 251) as u8 }, &[1]);
        }
    }
    let got = mvdparser::demo_duration(&d.d).unwrap_or(Duration::MAX);
    ck!(exactly(got, spec::ms_before(&d.d, d.d.len()), 0));
    rc!("C07:long");
}

/// C08: frames, a matchdate print in frame `at` (after `off` arbitrary bytes of that frame), an end marker in frame
/// `over` (none if >= m); a mode in serverinfo by parameter; frame `mode / 8` lasts an arbitrary time.
pub fn seek(m: usize, at: usize, over: usize, mode: usize) {
    let (mode, sv) = (mode & 7, mode >> 3);
    let mut d = Demo::new();
    let modes: [&[u8]; 6] = [b"", b"\\mode\\hoonymode", b"\\mode\\2on2", b"\\mode\\hoonymode2", b"\\mode\\ffa\\mode\\hoonymode", b"\\ktxmode\\hoonymode"];
    let hoony = mode == 1 || mode == 4;
    if mode > 0 {
        d.all(5, &mk::serverinfo_body(&mk::cat(&[b"\\map\\dm2", modes[mode]])));
    }
    let base = d.d.len();
    for i in 0..m {
        let mut body = vec![];
        if i == at {
            if flag() {
                body.push(1);
                rc!("C08:matchdate inside a frame");
            }
            body.extend(mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n"));
        }
        if i == over {
            body.extend(mk::print(2, &mk::cat(&[OVER, b"\n"])));
        }
        if body.is_empty() {
            body.push(1);
        }
        let b = if i == sv { byte() } else { (100 + 31 * i) as u8 };
        if i % 2 == 0 { d.all(b, &body) } else { d.read(b, 3, &body) };
    }
    let v = d.d;
    let start = spec::find(&v, b"\x08\x02matchdate: ");
    ck!(start.is_some() == (at < m) && base <= v.len());
    let end = spec::ms_before(&v, end_of(&v));
    let cd = mvdparser::countdown_duration(&v);
    let md = mvdparser::match_duration(&v);
    if hoony {
        ck!(cd.unwrap_or(Duration::MAX) == Duration::ZERO);
        ck!(exactly(md.unwrap_or(Duration::MAX), end, 0));
        rc!("C08:hoony");
    } else if let Some(o) = start {
        let before = spec::ms_before(&v, o);
        ck!(exactly(cd.unwrap_or(Duration::MAX), before, 0));
        if end >= before {
            ck!(md.is_ok());
            ck!(exactly(md.unwrap(), end, before));
            rc!("C08:match");
        } else {
            ck!(md.is_err());
            rc!("C08:ends before start");
        }
    } else {
        ck!(cd.is_err());
        ck!(exactly(md.unwrap_or(Duration::MAX), end, 0));
        rc!("C08:no countdown");
    }
}
/// C08: two announcements in frames `a1` and `a2` (none if >= m; the earlier counts), the end in frames `o1` and, for
/// shape bit 0, also earlier; shape bit 1: standby instead; one byte of the first announcement's text is arbitrary.
pub fn seek_two(m: usize, a1: usize, a2: usize, shape: usize) {
    let mut d = Demo::new();
    let k = shape >> 2;
    for i in 0..m {
        let mut body = vec![];
        if i == a1 || i == a2 {
            let mut t = mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n");
            if i == a1 && k < 13 {
                t[k] = byte();
            }
            body.extend(t);
        }
        if i + 1 == m || (shape & 1 == 1 && i == 1) {
            if shape & 2 == 2 {
                body.extend_from_slice(STANDBY);
            } else {
                body.extend(mk::print(2, &mk::cat(&[OVER, b"\n"])));
            }
        }
        if body.is_empty() {
            body.push(1);
        }
        let b = (50 + 37 * i) as u8;
        match i % 3 {
            0 => d.all(b, &body),
            1 => d.read(b, 3, &body),
            _ => d.read(b, 5, &body),
        };
        if i % 2 == 1 {
            d.set(9, &[3; 8]);
        }
    }
    d.all(200, &[1]);
    let v = d.d;
    let end = spec::ms_before(&v, end_of(&v));
    let cd = mvdparser::countdown_duration(&v);
    let md = mvdparser::match_duration(&v);
    match spec::find(&v, b"\x08\x02matchdate: ") {
        Some(o) => {
            let before = spec::ms_before(&v, o);
            ck!(exactly(cd.unwrap_or(Duration::MAX), before, 0));
            ck!(md.is_ok() == (end >= before));
            if end >= before {
                ck!(exactly(md.unwrap(), end, before));
            }
            rc!("C08:two");
        }
        None => {
            ck!(cd.is_err());
            ck!(exactly(md.unwrap_or(Duration::MAX), end, 0));
            rc!("C08:two none");
        }
    }
}

/// C01: one frame with `n` messages of one kind (`shape`: 0 prints, 1 the same print, 2 flag events, 3 pings, 4 score
/// updates behind a team kill, 5 empty prints), an arbitrary byte in every hundredth; then the same number of tiny frames.
pub fn total_scale(n: usize, which: usize, shape: usize, _: usize) {
    let mut b = vec![];
    if shape == 4 {
        b.extend(mk::print(1, b"abc was telefragged by his teammate\n"));
    }
    for i in 0..n {
        let x = if i % (n / 2 + 1) == n / 2 { byte() } else { b'0' + (i % 10) as u8 };
        b.extend(match shape {
            0 => mk::print(2, &[x, b'a' + (i % 26) as u8]),
            1 => mk::print(1, b"abc died\n"),
            2 => mk::print(2, &mk::cat(&[&[x], b" defends the \xd2\xc5\xc4 flag\n"])),
            3 => mk::ping(x, 0xfff0, 0),
            4 => vec![14, x, 1, 0],
            _ => mk::print(2, b""),
        });
    }
    let mut d = Demo::new();
    d.all(byte(), &b);
    for _ in 0..n {
        d.all(255, &[]);
    }
    walk_one(&d.d, which);
    rc!("C01:scale");
}
/// C05: `n` prints in one frame, each different from its neighbours, of `len` bytes, some of them arbitrary; then a second
/// such frame.
pub fn prints_many(n: usize, len: usize, frames: usize, _: usize) {
    let mut want: Vec<spec::P> = vec![];
    let mut d = Demo::new();
    for f in 0..frames {
        let mut b = vec![];
        for i in 0..n {
            let mut c = vec![b'x'; len];
            c[0] = b'0' + ((i + f * n) % 200) as u8;
            if len > 1 && i + 1 == n {
                let a = byte();
                assume(a != 0);
                c[len - 1] = a;
            }
            let id = (i % 4) as u8;
            b.extend(mk::print(id, &c));
            if want.last() != Some(&(id, c.clone())) {
                want.push((id, c));
            }
        }
        d.all(1, &b);
    }
    same_prints(&d.d, &want, B + line!());
    rc!("C05:many");
}
/// C07, C08: big frames (`len` bytes) before the match date announcement, between it and the end marker (`over`: 0 none,
/// 1 text, 2 standby) and behind it.
pub fn far(len: usize, over: usize, kind: usize, _: usize) {
    let mut d = Demo::new();
    let c = [1u8, 3, 4, 5, 6][kind];
    let big = vec![1u8; len];
    let t = byte();
    d.read(t, c, &big).all(7, &mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n")).read(11, c, &big);
    match over {
        1 => d.all(13, &mk::print(2, b"The match is over\n")),
        2 => d.all(13, STANDBY),
        _ => d.all(13, &[1]),
    };
    d.read(17, c, &big).all(if over == 0 { 250 } else { byte() }, &[1]);
    let v = d.d;
    let end = spec::ms_before(&v, end_of(&v));
    let before = spec::ms_before(&v, spec::find(&v, b"\x08\x02matchdate: ").unwrap_or(0));
    ck!(exactly(mvdparser::demo_duration(&v).unwrap_or(Duration::MAX), end, 0));
    ck!(exactly(mvdparser::countdown_duration(&v).unwrap_or(Duration::MAX), before, 0));
    ck!(exactly(mvdparser::match_duration(&v).unwrap_or(Duration::MAX), end, before));
    rc!("C08:far");
}
