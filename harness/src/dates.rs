//! C04 totality of dates and durations, C22 timestamps, C23 time zones.
use crate::mk;
use crate::spec;
use crate::sym::*;
use mvdparser::all as a;
const B: u32 = 40_000;

const NEEDLE: &[u8] = b"\x08\x02matchdate: ";
fn date_demo(s: &[u8]) -> Vec<u8> {
    mk::cat(&[b"\x01\x06..", NEEDLE, s, b"\n\x00rest\n"])
}
fn date_one(v: &[u8], which: usize) {
    report(match which {
        0 => a::matchdate_string(v).map_or(0, |x| x.len() as u64),
        1 => a::matchdate(v).map_or(0, |x| x.timestamp() as u64),
        2 => a::timestamp(v).map_or(0, |x| x.timestamp() as u64),
        3 => a::countdown_duration(v).map_or(0, |x| x.as_millis() as u64),
        4 => a::match_duration(v).map_or(0, |x| x.as_millis() as u64),
        5 => a::match_duration_from_ktxstats(v).map_or(0, |x| x.as_millis() as u64),
        _ => a::demo_duration(v).map_or(0, |x| x.as_millis() as u64),
    });
}
/// C04: `n` arbitrary bytes.
pub fn date_total(n: usize, which: usize, _: usize, _: usize) {
    let v = bytes(n);
    date_one(&v, which);
    rc!("C04:raw");
}
/// C04: behind a marker: `pre` bytes of a date, `n` arbitrary bytes, the rest of the date, or the end of the data.
pub fn date_text(n: usize, which: usize, pre: usize, cut: usize) {
    let t = b"2024-04-22 10:38:05 CEST";
    let mut s = t[..pre.min(24)].to_vec();
    s.extend(bytes(n));
    if s.len() < 24 && cut == 0 {
        let k = s.len();
        s.extend_from_slice(&t[k..]);
    }
    let v = if cut == 2 { mk::cat(&[NEEDLE, &s]) } else { date_demo(&s) };
    date_one(&v, which);
    rc!("C04:date");
}
/// C04: arbitrary bytes in place of the epoch and of the duration.
pub fn date_epoch(n: usize, which: usize, k: usize, _: usize) {
    let mut v = mk::serverinfo_body(&mk::cat(&[b"\\map\\a\\epoch\\", [b"".as_slice(), b"17137", b"214748364", b"-214748364"][k], &bytes(n), b"\\mode\\x"]));
    v.extend(date_demo(b"2024-04-22 10:38:05 CEST"));
    date_one(&v, which);
    rc!("C04:epoch");
}
/// One statistics block holding `s`.
pub fn stats_block(s: &[u8]) -> Vec<u8> {
    let n = (s.len() as u32 + 2).to_le_bytes();
    mk::cat(&[b"\x00\x03\x00\x00\x00\x00", &(s.len() as u32 + 8).to_le_bytes(), &n, b"\x03\x00\x00\x00", s])
}
pub fn date_dur(n: usize, which: usize, k: usize, _: usize) {
    let b = bytes(n);
    let s = mk::cat(&[b"{\"version\": 3, \"duration\": ", [b"".as_slice(), b"1e", b"-", b"600.", b"1844674407370955161", b"na", b"in"][k], &b, b", \"x\": 1}"]);
    let v = stats_block(&s);
    date_one(&v, which);
    rc!("C04:duration");
}
/// C04: many frames of the longest duration around the markers.
pub fn date_large(m: usize, which: usize, _: usize, _: usize) {
    let mut d = mk::Demo::new();
    let b = byte();
    d.all(b, &mk::print(2, b"matchdate: 2024-04-22 10:38:05 CEST\n"));
    for _ in 0..m {
        d.all(255, &[1]);
    }
    d.all(255, &mk::print(2, b"The match is over\n"));
    date_one(&d.d, which);
    rc!("C04:large");
}

const DATES: [&[u8]; 8] = [
    b"2024-02-28 23:59:59", b"2023-02-28 00:00:00", b"2000-12-31 12:30:30", b"1999-01-01 00:29:59", b"1900-02-28 23:00:00", b"2024-12-31 23:59:30", b"1970-01-01 05:00:00", b"2038-01-19 03:14:07",
];
const TZS: [&[u8]; 12] = [b"UTC", b"CEST", b"PST", b"-03", b"+0530", b"NST", b"-1200", b"LINT", b"+1200", b"ACWST", b"NT", b"MIT"];
/// C22: the announced text itself.
fn text_same(v: &[u8], id: u32) {
    let got = a::matchdate_string(v);
    let want = spec::matchdate_text(v);
    check(got.is_ok() == want.is_some(), id);
    if let (Ok(g), Some(w)) = (got, want) {
        check(g.as_bytes() == w, id);
    }
}
fn date_same(v: &[u8], id: u32) -> bool {
    text_same(v, id);
    let got = a::matchdate(v);
    let ts = mvdparser::timestamp(v);
    match spec::matchdate(v) {
        None => {
            check(got.is_err(), id);
            check(ts.is_err(), id);
            false
        }
        Some(None) => {
            check(got.is_err() == ts.is_err(), id);
            false
        }
        Some(Some(t)) => {
            check(got.is_ok() && ts.is_ok(), id);
            let g = got.unwrap().timestamp();
            report(g as u64);
            check(g == t, id);
            check(ts.unwrap().timestamp() == t, id);
            true
        }
    }
}
/// C22: the digits selected by `mask` (bit i: digit i of yyyymmddhhmmss) are arbitrary.
pub fn ts_digits(mask: usize, base: usize, tz: usize, _: usize) {
    let mut s = DATES[base].to_vec();
    let pos = [0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18];
    for i in 0..14 {
        if (mask >> i) & 1 == 1 {
            let b = byte();
            assume(b >= b'0' && b <= b'9');
            s[pos[i]] = b;
        }
    }
    s.push(b' ');
    s.extend_from_slice(TZS[tz]);
    if date_same(&date_demo(&s), B + line!()) {
        rc!("C22:date");
    } else {
        rc!("C22:no date");
    }
}
/// C22: one arbitrary byte anywhere in the text.
pub fn ts_byte(k: usize, base: usize, tz: usize, _: usize) {
    let mut s = mk::cat(&[DATES[base], b" ", TZS[tz]]);
    if k < s.len() {
        s[k] = byte();
    }
    date_same(&date_demo(&s), B + line!());
    rc!("C22:byte");
}
/// C22: the text cut or extended to `len` bytes; `nl` 0: no line end follows; the last byte is arbitrary.
pub fn ts_len(len: usize, nl: usize, tz: usize, _: usize) {
    let mut s = mk::cat(&[DATES[0], b" ", TZS[tz]]);
    s.resize(len, b'T');
    if len > 0 {
        s[len - 1] = byte();
    }
    let v = if nl == 0 { mk::cat(&[b"..", NEEDLE, &s]) } else { date_demo(&s) };
    date_same(&v, B + line!());
    rc!("C22:length");
}
/// C22: one byte of the announcement's marker is arbitrary; a second announcement may follow.
pub fn ts_marker(k: usize, second: usize, _: usize, _: usize) {
    let mut m = NEEDLE.to_vec();
    m[k] = byte();
    let mut v = mk::cat(&[b"xx", &m, b"2024-04-22 10:38:05 CEST\n\x00"]);
    if second == 1 {
        v.extend(date_demo(b"2025-05-23 11:39:06 UTC"));
    }
    date_same(&v, B + line!());
    rc!("C22:marker");
}
/// C22: the epoch is `n` arbitrary bytes behind a fixed start; with (md) or without a match date announcement.
pub fn ts_epoch(n: usize, k: usize, md: usize, _: usize) {
    let val = mk::cat(&[[b"".as_slice(), b"17137", b"214748364", b"-214748364", b"00", b"1713"][k], &bytes(n)]);
    for &c in &val {
        assume(c != b'"' && c != 0);
    }
    let info = mk::cat(&[b"\\map\\dm2\\epoch\\", &val, b"\\mode\\2on2"]);
    let mut v = mk::serverinfo_body(&info);
    if md == 1 {
        v.extend(date_demo(b"2024-04-22 10:38:05 CEST"));
    }
    if md == 2 {
        v.extend(date_demo(b"2024-04-22 10:38:05 XXXX"));
    }
    let e = spec::int(spec::info(&spec::color_stripped(&info), "epoch"));
    let got = mvdparser::timestamp(&v);
    let te = a::timestamp_from_epoch(&v);
    match e {
        Some(x) => {
            ck!(got.is_ok() && te.is_ok());
            ck!(got.unwrap().timestamp() == x as i64);
            ck!(te.unwrap().timestamp() == x as i64);
            rc!("C22:epoch");
        }
        None => {
            ck!(te.is_err());
            if md == 1 {
                ck!(got.is_ok());
                ck!(got.unwrap().timestamp() == 1713775085);
                rc!("C22:fallback");
            } else {
                ck!(got.is_err());
                rc!("C22:neither");
            }
        }
    }
}

/// C22: the announcement stands behind `pad` bytes, other prints and texts that are no announcement.
pub fn ts_far(pad: usize, k: usize, base: usize, tz: usize) {
    let b = byte();
    let mut v = vec![[0u8, b'.', 8, 2, b'm'][k % 5]; pad];
    v.push(b);
    v.extend(match k {
        0 => vec![],
        1 => mk::print(3, b"matchdate: 2024-04-22 10:38:05 CEST\n"),
        2 => mk::print(1, b"matchdate: 2020-01-01 00:00:00 UTC\n"),
        3 => b"\x08\x02matchdate\x00\x08\x02Matchdate: 2020-01-01 00:00:00 UTC\n".to_vec(),
        _ => mk::serverinfo_body(b"\\matchdate\\2020-01-01 00:00:00 UTC\\map\\a"),
    });
    v.extend(date_demo(&mk::cat(&[DATES[base], b" ", TZS[tz]])));
    date_same(&v, B + line!());
    rc!("C22:far");
}
/// C23: the zone is `n` arbitrary bytes after a fixed start.
pub fn tz_any(n: usize, k: usize, _: usize, _: usize) {
    let z = mk::cat(&[[b"".as_slice(), b"+", b"-", b"+0", b"-1", b"A", b"EST"][k], &bytes(n)]);
    let s = mk::cat(&[b"2024-04-22 10:38:05 ", &z]);
    let v = date_demo(&s);
    if date_same(&v, B + line!()) {
        rc!("C23:known zone");
    } else {
        rc!("C23:unknown zone");
    }
}
/// C23: zone `i` of the table, with byte `k` arbitrary.
pub fn tz_entry(i: usize, k: usize, _: usize, _: usize) {
    let mut z = spec::ZONES[i].0.as_bytes().to_vec();
    if k < z.len() {
        z[k] = byte();
    }
    let v = date_demo(&mk::cat(&[b"2023-12-31 18:00:00 ", &z]));
    date_same(&v, B + line!());
    rc!("C23:entry");
}
/// C22: the first announcement has `n` arbitrary bytes in the text (k: what surrounds them); a good one follows.
pub fn ts_two(k: usize, n: usize, pos: usize, gap: usize) {
    let b = bytes(n);
    let s = match k {
        0 => b,
        1 => mk::cat(&[b"2024-04-22 10:38:05 ", &b]),
        2 => mk::cat(&[b"2024-04-22 10:38:05 XX", &b]),
        _ => {
            let mut s = b"2024-04-22 10:38:05 CEST".to_vec();
            for (i, c) in b.iter().enumerate() {
                s[pos + i] = *c;
            }
            s
        }
    };
    let mut v = mk::cat(&[b"..", NEEDLE, &s, b"\n\x00"]);
    v.extend(vec![b'.'; gap]);
    v.extend(date_demo(b"2025-05-23 11:39:06 UTC"));
    date_same(&v, B + line!());
    rc!("C22:two");
}
