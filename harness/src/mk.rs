//! Construction of demo data around symbolic parts.
use crate::sym::{assume, byte, bytes};
#[derive(Default)]
pub struct Demo {
    pub d: Vec<u8>,
}
impl Demo {
    pub fn new() -> Self {
        Demo { d: vec![] }
    }
    /// A frame whose body size is written explicitly.
    pub fn read(&mut self, dur: u8, cmd: u8, body: &[u8]) -> &mut Self {
        self.d.push(dur);
        self.d.push(cmd);
        if cmd & 7 == 3 {
            self.d.extend_from_slice(&[0, 0, 0, 0]);
        }
        self.d.extend_from_slice(&(body.len() as u32).to_le_bytes());
        self.d.extend_from_slice(body);
        self
    }
    /// A frame of target kind `kind` (1, 3 to 6) with an arbitrary duration, target and mask.
    pub fn any(&mut self, kind: u8, body: &[u8]) -> &mut Self {
        self.d.push(byte());
        self.d.push(kind | byte() << 3);
        if kind == 3 {
            self.d.extend(bytes(4));
        }
        self.d.extend_from_slice(&(body.len() as u32).to_le_bytes());
        self.d.extend_from_slice(body);
        self
    }
    /// Something that is no event for anybody, `g` below `NFILL`; true if it counts as a frame with a body.
    /// From 12 on it is a print.
    pub fn filler(&mut self, g: usize) -> bool {
        match g {
            0..=4 => {
                self.any([1, 3, 4, 5, 6][g], &[]);
                return false;
            }
            5 | 6 => {
                self.d.push(byte());
                self.d.push([0, 7][g - 5] | byte() << 3);
                return false;
            }
            7 => {
                self.d.push(byte());
                self.d.push(2 | byte() << 3);
                self.d.extend_from_slice(&[0; 8]);
            }
            8 => {
                self.any(6, &[1]);
            }
            9 => {
                self.any(4, &[0; 2000]);
            }
            10 => {
                self.any(5, &[3, byte(), byte(), 1, 1]);
            }
            11 => {
                self.any(6, b"\x1ano flag here\n\0");
            }
            12 => {
                self.any(6, &print(0, b"you got the rockets\n"));
            }
            13 => {
                self.any(6, &print(2, b"the flag is gone\n"));
            }
            14 => {
                self.any(1, &print(3, b"abc: hi\n"));
            }
            _ => {
                self.any(6, &cat(&[&print(2, b"x"), &print(1, b"hello\n")]));
            }
        }
        true
    }
    pub fn all(&mut self, dur: u8, body: &[u8]) -> &mut Self {
        self.read(dur, 6, body)
    }
    pub fn set(&mut self, dur: u8, body: &[u8; 8]) -> &mut Self {
        self.d.push(dur);
        self.d.push(2);
        self.d.extend_from_slice(body);
        self
    }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.d.extend_from_slice(b);
        self
    }
}
pub fn print(id: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![8, id];
    v.extend_from_slice(content);
    v.push(0);
    v
}
pub fn stuff(content: &[u8]) -> Vec<u8> {
    let mut v = vec![9];
    v.extend_from_slice(content);
    v.push(0);
    v
}
pub fn cat(xs: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for x in xs {
        v.extend_from_slice(x);
    }
    v
}
/// updateping + updatepl
pub fn ping(p: u8, ms: u16, pl: u8) -> Vec<u8> {
    let m = ms.to_le_bytes();
    vec![36, p, m[0], m[1], 53, p, pl]
}
pub fn upfrags(p: u8, f: i16) -> Vec<u8> {
    let m = f.to_le_bytes();
    vec![14, p, m[0], m[1]]
}
/// userinfo update: slot, uid (its high byte is zero), info string
pub fn userinfo(slot: u8, uid: u8, info: &[u8]) -> Vec<u8> {
    let mut v = vec![40, slot, uid, 0, 0, 0];
    v.extend_from_slice(info);
    v.push(0);
    v
}
/// The signon frame with the client list.
pub fn spawn_body(infos: &[&[u8]]) -> Vec<u8> {
    let mut v = stuff(b"cmd spawn 1 0\n");
    for (i, x) in infos.iter().enumerate() {
        v.extend_from_slice(&userinfo(i as u8, (i as u8).wrapping_add(1).max(1), x));
    }
    v
}
pub fn serverinfo_body(info: &[u8]) -> Vec<u8> {
    let mut v = stuff(&cat(&[b"fullserverinfo \"", info, b"\"\n"]));
    v.push(0);
    v
}

/// Five texts around `core` that differ by an affix of `x` only.
pub fn affixes(core: &[u8], x: &[u8]) -> Vec<Vec<u8>> {
    vec![core.to_vec(), cat(&[core, x]), cat(&[x, core]), cat(&[&core[..1], x, &core[1..]]), cat(&[x, core, x])]
}
/// A word of `n` arbitrary letters, digits or signs of one range.
pub fn word(n: usize, kind: usize) -> Vec<u8> {
    let (lo, hi) = [(b'a', b'z'), (b'A', b'Z'), (b'0', b'9'), (0xe1, 0xfa), (b'#', b'9'), (0x12, 0x1b)][kind];
    let v = bytes(n);
    let mut ok = true;
    for &c in &v {
        ok &= (c >= lo) & (c <= hi);
    }
    assume(ok);
    v
}
pub fn word_str(n: usize, kind: usize) -> String {
    crate::spec::text(&word(n, kind))
}
