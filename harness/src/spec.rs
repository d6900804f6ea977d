//! Reference semantics of the demo format, written from the documented behaviour and kept apart from the code under
//! test: plain index arithmetic on the input bytes, no shared helpers.

pub struct Fr {
    pub dur: u8,
    pub at: usize,
    pub body: (usize, usize),
    pub end: usize,
}

/// The complete frames at the start of the data.
pub fn frames(d: &[u8]) -> Vec<Fr> {
    let mut out = vec![];
    let mut at = 0usize;
    while at + 2 <= d.len() {
        let dur = d[at];
        let kind = d[at + 1] & 7;
        let mut h = at + 2;
        if kind == 3 {
            h += 4;
        }
        let n = if kind == 0 || kind == 7 {
            0
        } else if kind == 2 {
            8
        } else {
            if h + 4 > d.len() {
                break;
            }
            let n = d[h] as usize | (d[h + 1] as usize) << 8 | (d[h + 2] as usize) << 16 | (d[h + 3] as usize) << 24;
            h += 4;
            n
        };
        if h > d.len() || n > d.len() - h {
            break;
        }
        out.push(Fr { dur, at, body: (h, h + n), end: h + n });
        at = h + n;
    }
    out
}

pub fn find(d: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > d.len() {
        return None;
    }
    let mut i = 0;
    while i + n.len() <= d.len() {
        if d[i..i + n.len()] == *n {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn rfind(d: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > d.len() {
        return None;
    }
    let mut i = d.len() - n.len() + 1;
    while i > 0 {
        i -= 1;
        if d[i..i + n.len()] == *n {
            return Some(i);
        }
    }
    None
}
pub fn zero(d: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while i < d.len() {
        if d[i] == 0 {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// One printed line: level 0..=3 (9: unknown level) and its bytes.
pub type P = (u8, Vec<u8>);
pub fn level(id: u8) -> u8 {
    if id <= 3 { id } else { 9 }
}
/// The leading print messages of a message body.
pub fn leading_prints(b: &[u8]) -> Vec<P> {
    let mut out = vec![];
    let mut i = 0;
    while i + 1 < b.len() && b[i] == 8 {
        let Some(e) = zero(b, i + 2) else { break };
        out.push((level(b[i + 1]), b[i + 2..e].to_vec()));
        i = e + 1;
    }
    out
}
pub fn prints(d: &[u8]) -> Vec<P> {
    let mut out: Vec<P> = vec![];
    for f in frames(d) {
        for p in leading_prints(&d[f.body.0..f.body.1]) {
            if p.1.is_empty() {
                continue;
            }
            if let Some(q) = out.last() {
                if *q == p {
                    continue;
                }
            }
            out.push(p);
        }
    }
    out
}

/// Latin-1 style text of raw bytes.
pub fn text(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        s.push(c as char);
    }
    s
}
/// Number of milliseconds of the frames that start before `off`.
pub fn ms_before(d: &[u8], off: usize) -> u64 {
    let mut t = 0u64;
    for f in frames(d) {
        if f.at < off {
            t += f.dur as u64;
        }
    }
    t
}

pub const DEATHS: [&str; 17] = [
    " sleeps with the fishes", " sucks it down", " gulped a load of slime", " can't exist on slime alone", " burst into flames",
    " turned into hot slag", " visits the Volcano God", " cratered", " fell to his death", " fell to her death", " blew up",
    " was spiked", " was zapped", " ate a lavaball", " died", " tried to leave", " was squished",
];
pub const WEAPON_SUICIDES: [&str; 11] = [
    " tries to put the pin back in", " becomes bored with life", " discovers blast radius", " electrocutes himself",
    " electrocutes herself", " railcutes himself", " railcutes herself", " discharges into the slime",
    " discharges into the lava", " discharges into the water", " heats up the water",
];
pub const TEAMKILLS: [&str; 6] = [
    " squished a teammate", " mows down a teammate", " checks his glasses", " checks her glasses",
    " gets a frag for the other team", " loses another friend",
];
pub const TEAMKILLED: [&str; 6] = [
    " was telefragged by his teammate", " was telefragged by her teammate", " was crushed by his teammate",
    " was crushed by her teammate", " was jumped by his teammate", " was jumped by her teammate",
];
/// killer, text, victim, rest
pub const KILLER_FIRST: [(&str, &str); 3] = [(" stomps ", ""), (" squishes ", ""), (" rips ", " a new one")];
/// victim, text, killer, rest
pub const VICTIM_FIRST: [(&str, &str); 28] = [
    (" was ax-murdered by ", ""), (" softens ", "'s fall"), (" tried to catch ", ""), (" was crushed by ", ""),
    (" was jumped by ", ""), (" chewed on ", "'s boomstick"), (" was body pierced by ", ""), (" was nailed by ", ""),
    (" was railed by ", ""), (" was telefragged by ", ""), (" accepts ", "'s discharge"), (" drains ", "'s batteries"),
    (" was lead poisoned by ", ""), (" accepts ", "'s shaft"), (" ate 2 loads of ", "'s buckshot"), (" was perforated by ", ""),
    (" was punctured by ", ""), (" was ventilated by ", ""), (" ate 8 loads of ", "'s buckshot"), (" gets a natural disaster from ", ""),
    (" rides ", "'s rocket"), (" was gibbed by ", "'s rocket"), (" was straw-cuttered by ", ""), (" eats ", "'s pineapple"),
    (" was gibbed by ", "'s grenade"), (" was brutalized by ", "'s quad rocket"), (" was smeared by ", "'s quad rocket"),
    (" was hooked by ", ""),
];

/// A tally by name, in order of first appearance.
pub fn add(t: &mut Vec<(String, i32)>, name: &str, v: i32) {
    for e in t.iter_mut() {
        if e.0 == name {
            e.1 += v;
            return;
        }
    }
    t.push((name.to_string(), v));
}

/// key\value pairs of an info string; later values replace earlier ones.
pub fn info_get(s: &str, key: &str) -> Option<String> {
    let t = s.trim_matches('\\');
    let parts: Vec<&str> = t.split('\\').collect();
    let mut r = None;
    let mut i = 0;
    while i + 1 < parts.len() {
        if parts[i] == key {
            r = Some(parts[i + 1].to_string());
        }
        i += 2;
    }
    r
}
pub fn color_stripped(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        let c = c & 127;
        s.push(match c {
            16 => '[',
            17 => ']',
            18..=27 => (c + 30) as char,
            32..=126 => c as char,
            0 | 5 | 14 | 15 | 28 => '•',
            _ => ' ',
        });
    }
    s
}

/// The text of the announced match date. None: an error.
pub fn matchdate_text(d: &[u8]) -> Option<&[u8]> {
    let at = find(d, b"\x08\x02matchdate: ")? + 13;
    let mut e = at;
    while e < d.len() && d[e] != b'\n' {
        e += 1;
    }
    if e == d.len() || e - at < 22 || e - at > 25 || std::str::from_utf8(&d[at..e]).is_err() {
        return None;
    }
    Some(&d[at..e])
}

/// The info text of the server, as raw bytes.
pub fn serverinfo(d: &[u8]) -> Option<Vec<u8>> {
    let w = &d[..d.len().min(1280)];
    let a = find(w, b"fullserverinfo \"")? + 16;
    let mut e = a;
    while e < w.len() && w[e] != b'"' {
        e += 1;
    }
    if e == w.len() || e == a {
        return None;
    }
    Some(w[a..e].to_vec())
}
/// An info string as it is before the pairs are split: outer blanks, a trailing literal \n, quotes and doubled or
/// trailing backslashes do not count.
pub fn info_clean(s: &str) -> String {
    let mut t = s.trim();
    while t.ends_with("\\n") {
        t = &t[..t.len() - 2];
    }
    let mut out = String::new();
    let mut last = false; // an unpaired backslash precedes
    for c in t.chars() {
        if c == '\\' {
            if last {
                last = false;
                continue;
            }
            last = true;
        } else {
            last = false;
        }
        if c != '"' {
            out.push(c);
        }
    }
    out
}
pub fn info(s: &str, key: &str) -> Option<String> {
    info_get(&info_clean(s), key)
}
pub fn int(s: Option<String>) -> Option<i32> {
    let s = s?;
    let b = s.as_bytes();
    let (neg, digits) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if digits.is_empty() {
        return None;
    }
    let mut v = 0i64;
    for &c in digits {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (c - b'0') as i64;
        if v > 3_000_000_000 {
            return None;
        }
    }
    if neg {
        v = -v;
    }
    if v < i32::MIN as i64 || v > i32::MAX as i64 {
        return None;
    }
    Some(v as i32)
}
/// The info strings of the clients, raw.
pub fn clientinfo(d: &[u8]) -> Option<Vec<Vec<u8>>> {
    let start = find(d, b"\x09cmd spawn")?;
    let mut out = vec![];
    let mut at = start;
    loop {
        // a name within 512 bytes
        let end = (at + 512).min(d.len());
        let Some(n) = find(&d[at..end], b"\\name\\") else { break };
        let mut from = at + n;
        while from > 0 && d[from - 1] != 0 {
            from -= 1;
        }
        if from == 0 {
            break;
        }
        let mut to = from;
        while to < d.len() && d[to] != 0 {
            to += 1;
        }
        if to == d.len() || to - from < 7 || to - from > 256 {
            break;
        }
        out.push(d[from..to].to_vec());
        at = to;
        if at >= start + 24 * 512 {
            break;
        }
    }
    Some(out)
}
#[derive(Clone)]
pub struct Cl {
    pub number: u8,
    pub name: String,
    pub team: String,
    pub color: [u8; 2],
    pub spec: bool,
    pub bot: bool,
    pub auth: Option<String>,
    pub cc: Option<String>,
}
pub fn clients(d: &[u8]) -> Option<Vec<Cl>> {
    let mut out = vec![];
    for (i, b) in clientinfo(d)?.iter().enumerate() {
        let s = text(b);
        out.push(Cl {
            number: i as u8,
            name: info(&s, "name").unwrap_or_default(),
            team: info(&s, "team").unwrap_or_default(),
            color: [int(info(&s, "topcolor")).unwrap_or(0) as u8, int(info(&s, "bottomcolor")).unwrap_or(0) as u8],
            spec: int(info(&s, "*spectator")).unwrap_or(0) != 0,
            bot: int(info(&s, "*bot")).unwrap_or(0) != 0,
            auth: info(&s, "*auth"),
            cc: info(&s, "*flag"),
        });
    }
    Some(out)
}
/// The key names are sorted by: plain text, lower case.
pub fn sort_key(name: &str) -> String {
    let b: Vec<u8> = name.chars().map(|c| c as u32 as u8).collect();
    let mut s = String::new();
    for c in color_stripped(&b).chars() {
        s.push(if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c });
    }
    s
}
/// Stable insertion sort by that key.
pub fn sorted(names: &[String]) -> Vec<String> {
    let mut out: Vec<(String, String)> = vec![];
    for n in names {
        let k = sort_key(n);
        let mut i = out.len();
        while i > 0 && out[i - 1].0 > k {
            i -= 1;
        }
        out.insert(i, (k, n.clone()));
    }
    out.into_iter().map(|x| x.1).collect()
}
/// Time zone abbreviations and their offset in minutes.
pub const ZONES: [(&str, i32); 191] = [
    ("ACDT", 630), ("ACST", 570), ("ACT", 570), ("ACWST", 525), ("ADT", -180), ("AEDT", 660), ("AEST", 600),
    ("AFT", 270), ("AKDT", -480), ("AKST", -540), ("ALMT", 360), ("AMST", -180), ("AMT", 240), ("ANAT", 720),
    ("AQTT", 300), ("ART", -180), ("AST", 180), ("AWST", 480), ("AZOST", 0), ("AZOT", -60), ("AZT", 240),
    ("BIOT", 360), ("BIT", -720), ("BNT", 480), ("BOT", -240), ("BRST", -120), ("BRT", -180), ("BST", 60),
    ("BTT", 360), ("CAT", 120), ("CCT", 390), ("CDT", -300), ("CEST", 120), ("CET", 60), ("CHADT", 825),
    ("CHAST", 765), ("CHOST", 540), ("CHOT", 480), ("CHST", 600), ("CHUT", 600), ("CIST", -480), ("CKT", -600),
    ("CLST", -180), ("CLT", -240), ("COST", -240), ("COT", -300), ("CST", -360), ("CVT", -60), ("CWST", 525),
    ("CXT", 420), ("DAVT", 420), ("DDUT", 600), ("DFT", 60), ("EASST", -300), ("EAST", -360), ("EAT", 180),
    ("ECT", -300), ("EDT", -240), ("EEST", 180), ("EET", 120), ("EGST", 0), ("EGT", -60), ("EST", -300), ("FET", 180),
    ("FJT", 720), ("FKST", -180), ("FKT", -240), ("FNT", -120), ("GALT", -360), ("GAMT", -540), ("GET", 240),
    ("GFT", -180), ("GILT", 720), ("GIT", -540), ("GMT", 0), ("GST", -120), ("GYT", -240), ("HAEC", 120),
    ("HDT", -540), ("HKT", 480), ("HMT", 300), ("HOVST", 480), ("HOVT", 420), ("HST", -600), ("ICT", 420),
    ("IDLW", -720), ("IDT", 180), ("IOT", 360), ("IRDT", 270), ("IRKT", 480), ("IRST", 210), ("IST", 60),
    ("JST", 540), ("KALT", 120), ("KGT", 360), ("KOST", 660), ("KRAT", 420), ("KST", 540), ("LHST", 630),
    ("LINT", 840), ("MAGT", 720), ("MART", -570), ("MAWT", 300), ("MDT", -360), ("MEST", 120), ("MET", 60),
    ("MHT", 720), ("MIST", 660), ("MIT", -570), ("MMT", 390), ("MSK", 180), ("MST", -420), ("MUT", 240), ("MVT", 300),
    ("MYT", 480), ("NCT", 660), ("NDT", -150), ("NFT", 660), ("NOVT", 420), ("NPT", 345), ("NST", -210), ("NT", -210),
    ("NUT", -660), ("NZDT", 780), ("NZST", 720), ("OMST", 360), ("ORAT", 300), ("PDT", -420), ("PET", -300),
    ("PETT", 720), ("PGT", 600), ("PHOT", 780), ("PHST", 480), ("PHT", 480), ("PKT", 300), ("PMDT", -120),
    ("PMST", -180), ("PONT", 660), ("PST", -480), ("PWT", 540), ("PYST", -180), ("PYT", -240), ("RET", 240),
    ("ROTT", -180), ("SAKT", 660), ("SAMT", 240), ("SAST", 120), ("SBT", 660), ("SCT", 240), ("SDT", -600),
    ("SGT", 480), ("SLST", 330), ("SRET", 660), ("SRT", -180), ("SST", 480), ("SYOT", 180), ("TAHT", -600),
    ("TFT", 300), ("THA", 420), ("TJT", 300), ("TKT", 780), ("TLT", 540), ("TMT", 300), ("TOT", 780), ("TRT", 180),
    ("TST", 480), ("TVT", 720), ("ULAST", 540), ("ULAT", 480), ("UTC", 0), ("UYST", -120), ("UYT", -180),
    ("UZT", 300), ("VET", -240), ("VLAT", 600), ("VOLT", 180), ("VOST", 360), ("VUT", 660), ("WAKT", 720),
    ("WAST", 120), ("WAT", 60), ("WEST", 60), ("WET", 0), ("WGST", -120), ("WGT", -180), ("WIB", 420), ("WIT", 540),
    ("WITA", 480), ("WST", 480), ("YAKT", 540), ("YEKT", 300),
];
/// The offset in minutes of a zone text: a listed abbreviation, or a sign with two digits of hours and optionally two of
/// minutes (a colon does not count), at most 12 hours.
pub fn zone(z: &str) -> Option<i32> {
    for (a, v) in ZONES {
        if a == z {
            return Some(v);
        }
    }
    let b = z.as_bytes();
    if b.is_empty() || (b[0] != b'+' && b[0] != b'-') {
        return None;
    }
    let mut d = vec![];
    for &c in &b[1..] {
        if c == b':' {
            continue;
        }
        if c < b'0' || c > b'9' {
            return None;
        }
        d.push((c - b'0') as i32);
    }
    let (h, m) = match d.len() {
        2 => (d[0] * 10 + d[1], 0),
        4 => (d[0] * 10 + d[1], d[2] * 10 + d[3]),
        _ => return None,
    };
    if m > 59 || h * 60 + m > 12 * 60 {
        return None;
    }
    Some(if b[0] == b'-' { -(h * 60 + m) } else { h * 60 + m })
}
pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_days(y: i64, m: i64) -> i64 {
    match m {
        2 => if leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Seconds since 1970 of a civil date and time (second 60 counts as 59).
pub fn seconds(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> Option<i64> {
    if mo < 1 || mo > 12 || d < 1 || d > month_days(y, mo) || h > 23 || mi > 59 || s > 60 {
        return None;
    }
    const BEFORE: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    // years 0..=9999: days before the year, counted from year 0
    let p = y + 399; // = (y - 1) + 400, never negative
    let days = 365 * y + p / 4 - p / 100 + p / 400 - 96 + BEFORE[mo as usize - 1] + if mo > 2 && leap(y) { 1 } else { 0 } + d - 1;
    Some((days - 719528 + 0) * 86400 + h * 3600 + mi * 60 + if s == 60 { 59 } else { s })
}
/// The announced match date as seconds since 1970, if its date part has the plain form yyyy-mm-dd hh:mm:ss.
/// None: no valid date. Some(None): another form of date, not specified here.
pub fn matchdate(d: &[u8]) -> Option<Option<i64>> {
    let at = find(d, b"\x08\x02matchdate: ")? + 13;
    let mut e = at;
    while e < d.len() && d[e] != b'\n' {
        e += 1;
    }
    if e == d.len() || e - at < 22 || e - at > 25 {
        return None;
    }
    let s = std::str::from_utf8(&d[at..e]).ok()?;
    if !s.is_char_boundary(19) || !s.is_char_boundary(20) {
        return None;
    }
    let off = zone(&s[20..])?;
    let b = &s.as_bytes()[..19];
    let pat = b"dddd-dd-dd dd:dd:dd";
    for i in 0..19 {
        let ok = if pat[i] == b'd' { b[i].is_ascii_digit() } else { b[i] == pat[i] };
        if !ok {
            // blanks and signs in odd places may still be read as a date
            return Some(None);
        }
    }
    let n = |i: usize, k: usize| {
        let mut v = 0i64;
        for j in i..i + k {
            v = v * 10 + (b[j] - b'0') as i64;
        }
        v
    };
    Some(Some(seconds(n(0, 4), n(5, 2), n(8, 2), n(11, 2), n(14, 2), n(17, 2))? - off as i64 * 60))
}

/// The text of the embedded statistics. None: an error.
pub fn ktx(d: &[u8]) -> Option<Vec<u8>> {
    let at = rfind(d, b"{\"version\": ")?;
    if at < 18 {
        return None;
    }
    let u = |p: usize, n: usize| -> usize {
        let mut v = 0usize;
        for i in 0..n {
            v |= (d[p + i] as usize) << (8 * i);
        }
        v
    };
    let mut out = vec![];
    let mut h = at - 18 + 10; // header of the block
    loop {
        if h + 8 > d.len() {
            break;
        }
        let size = u(h, 4);
        if size < 2 || u(h + 4, 2) != 3 {
            break;
        }
        let n = size - 2;
        let b = h + 8;
        if n > d.len() - b {
            return None;
        }
        out.extend_from_slice(&d[b..b + n]);
        if u(h + 6, 2) == 0 {
            break;
        }
        h = b + n + 10;
    }
    std::str::from_utf8(&out).ok()?;
    Some(out)
}
#[derive(Clone, PartialEq)]
pub struct Pl {
    pub name: String,
    pub team: String,
    pub color: [u8; 2],
    pub frags: i32,
    pub ping: u32,
    pub bot: bool,
    pub auth: Option<String>,
    pub cc: Option<String>,
}
/// Best score first, then by name, then as given.
pub fn ranked(v: Vec<Pl>) -> Vec<Pl> {
    let mut out: Vec<Pl> = vec![];
    for p in v {
        let mut i = out.len();
        while i > 0 && (out[i - 1].frags < p.frags || (out[i - 1].frags == p.frags && out[i - 1].name > p.name)) {
            i -= 1;
        }
        out.insert(i, p);
    }
    out
}
pub struct Tm {
    pub name: String,
    pub color: [u8; 2],
    pub frags: i32,
    pub ping: u32,
    pub players: Vec<Pl>,
}
/// ASCII team names only.
pub fn teams(v: &[Pl]) -> Vec<Tm> {
    let mut groups: Vec<Vec<Pl>> = vec![];
    for p in v {
        let mut hit = false;
        for g in groups.iter_mut() {
            if g[0].team == p.team {
                g.push(p.clone());
                hit = true;
                break;
            }
        }
        if !hit {
            groups.push(vec![p.clone()]);
        }
    }
    let mut out: Vec<Tm> = vec![];
    for g in groups {
        let n = g.len() as u64;
        let mut frags = 0i64;
        let mut ping = 0u64;
        for p in &g {
            frags += p.frags as i64;
            ping += p.ping as u64;
        }
        let mut color = g[0].color;
        if n > 2 {
            let mut best = 0;
            for p in &g {
                let mut c = 0;
                for q in &g {
                    if q.color == p.color {
                        c += 1;
                    }
                }
                if c > best {
                    best = c;
                    color = p.color;
                }
            }
        }
        let t = Tm {
            name: g[0].team.clone(),
            color,
            frags: if frags > i32::MAX as i64 { i32::MAX } else if frags < i32::MIN as i64 { i32::MIN } else { frags as i32 },
            ping: ((2 * ping + n) / (2 * n)) as u32,
            players: g,
        };
        // the characters used here are the first 256
        let low = |s: &str| -> Vec<u32> {
            s.chars().map(|c| c as u32).map(|c| if (65..=90).contains(&c) || ((192..=222).contains(&c) && c != 215) { c + 32 } else { c }).collect()
        };
        let mut i = out.len();
        while i > 0 && (low(&out[i - 1].name), out[i - 1].name.as_bytes().to_vec()) > (low(&t.name), t.name.as_bytes().to_vec()) {
            i -= 1;
        }
        out.insert(i, t);
    }
    out
}
