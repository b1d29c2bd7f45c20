//! Standard MIDI File writer and (for the sample files) parser, independent of the code under test.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    On { ch: u8, note: u8, vel: u8 },
    Off { ch: u8, note: u8, vel: u8 },
    Cc { ch: u8, ctl: u8, val: u8 },
    Pc { ch: u8, prog: u8 },
    Bend { ch: u8, val: u16 },
    Pressure { ch: u8, val: u8 },
    PolyP { ch: u8, note: u8, val: u8 },
    Tempo(u32),
    Meta(u8, Vec<u8>),
    SysEx(u8, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub tick: u64,
    pub k: K,
}

#[derive(Clone, Debug)]
pub struct Smf {
    pub tpb: u16,
    /// per track, in file order (ticks non-decreasing)
    pub tracks: Vec<Vec<Ev>>,
    /// ticks between a track's last event and its end-of-track
    pub eot_delta: Vec<u64>,
}

impl K {
    pub fn channel(&self) -> Option<u8> {
        match *self {
            K::On { ch, .. }
            | K::Off { ch, .. }
            | K::Cc { ch, .. }
            | K::Pc { ch, .. }
            | K::Bend { ch, .. }
            | K::Pressure { ch, .. }
            | K::PolyP { ch, .. } => Some(ch),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct WriteOpts {
    pub running_status: bool,
    /// write note-offs as note-on with velocity zero
    pub off_as_on0: bool,
}

fn vlq(out: &mut Vec<u8>, v: u64) {
    assert!(v < 1 << 28, "vlq {}", v);
    let mut buf = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 {
        buf.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    buf.reverse();
    out.extend(buf);
}

impl Smf {
    pub fn to_bytes(&self, o: WriteOpts) -> Vec<u8> {
        let mut out = Vec::new();
        out.extend(b"MThd");
        out.extend(&6u32.to_be_bytes());
        out.extend(&1u16.to_be_bytes());
        out.extend(&(self.tracks.len() as u16).to_be_bytes());
        out.extend(&self.tpb.to_be_bytes());
        for (ti, t) in self.tracks.iter().enumerate() {
            let mut b = Vec::new();
            let mut last = 0u64;
            let mut status: Option<u8> = None;
            for e in t {
                assert!(e.tick >= last, "track events out of order");
                // the longest time between two events is 2^28-1 ticks
                while e.tick - last >= 1 << 28 {
                    vlq(&mut b, (1 << 28) - 1);
                    b.extend(&[0xff, 1, 0]);
                    last += (1 << 28) - 1;
                    status = None;
                }
                vlq(&mut b, e.tick - last);
                last = e.tick;
                let mut chan = |b: &mut Vec<u8>, st: u8, data: &[u8]| {
                    if !(o.running_status && status == Some(st)) {
                        b.push(st);
                    }
                    status = Some(st);
                    b.extend(data);
                };
                match e.k {
                    K::On { ch, note, vel } => chan(&mut b, 0x90 | ch, &[note, vel]),
                    K::Off { ch, note, vel } => {
                        if o.off_as_on0 {
                            chan(&mut b, 0x90 | ch, &[note, 0])
                        } else {
                            chan(&mut b, 0x80 | ch, &[note, vel])
                        }
                    }
                    K::Cc { ch, ctl, val } => chan(&mut b, 0xb0 | ch, &[ctl, val]),
                    K::Pc { ch, prog } => chan(&mut b, 0xc0 | ch, &[prog]),
                    K::Bend { ch, val } => {
                        chan(&mut b, 0xe0 | ch, &[(val & 0x7f) as u8, (val >> 7) as u8 & 0x7f])
                    }
                    K::Pressure { ch, val } => chan(&mut b, 0xd0 | ch, &[val]),
                    K::PolyP { ch, note, val } => chan(&mut b, 0xa0 | ch, &[note, val]),
                    K::Tempo(us) => {
                        b.extend(&[0xff, 0x51, 3, (us >> 16) as u8, (us >> 8) as u8, us as u8]);
                        status = None;
                    }
                    K::Meta(ty, ref d) => {
                        b.extend(&[0xff, ty]);
                        vlq(&mut b, d.len() as u64);
                        b.extend(d);
                        status = None;
                    }
                    K::SysEx(ty, ref d) => {
                        b.push(ty);
                        vlq(&mut b, d.len() as u64);
                        b.extend(d);
                        status = None;
                    }
                }
            }
            vlq(&mut b, self.eot_delta.get(ti).cloned().unwrap_or(0));
            b.extend(&[0xff, 0x2f, 0]);
            out.extend(b"MTrk");
            out.extend(&(b.len() as u32).to_be_bytes());
            out.extend(b);
        }
        out
    }

    pub fn random_opts(rng: &mut Rng) -> WriteOpts {
        WriteOpts { running_status: rng.chance(1, 2), off_as_on0: rng.chance(1, 2) }
    }

    /// Parses a format-1 file (used for the repository's sample pieces).
    pub fn parse(d: &[u8]) -> Result<Smf, String> {
        let be16 = |p: usize| ((d[p] as u32) << 8) | d[p + 1] as u32;
        let be32 = |p: usize| (be16(p) << 16) | be16(p + 2);
        if d.len() < 14 || &d[0..4] != b"MThd" {
            return Err("no MThd".into());
        }
        if be16(8) != 1 {
            return Err(format!("format {}", be16(8)));
        }
        let tpb = be16(12) as u16;
        let mut p = 8 + be32(4) as usize;
        let mut tracks = Vec::new();
        let mut eot_delta = Vec::new();
        while p + 8 <= d.len() {
            let len = be32(p + 4) as usize;
            let is_trk = &d[p..p + 4] == b"MTrk";
            p += 8;
            let end = (p + len).min(d.len());
            if !is_trk {
                p = end;
                continue;
            }
            let mut evs = Vec::new();
            let mut tick = 0u64;
            let mut status = 0u8;
            let mut eot = 0;
            while p < end {
                let mut delta = 0u64;
                loop {
                    let b = d[p];
                    p += 1;
                    delta = (delta << 7) | (b & 0x7f) as u64;
                    if b < 0x80 {
                        break;
                    }
                }
                let vl = |p: &mut usize| {
                    let mut v = 0usize;
                    loop {
                        let b = d[*p];
                        *p += 1;
                        v = (v << 7) | (b & 0x7f) as usize;
                        if b < 0x80 {
                            return v;
                        }
                    }
                };
                if d[p] == 0xff {
                    let ty = d[p + 1];
                    p += 2;
                    let n = vl(&mut p);
                    let data = d[p..p + n].to_vec();
                    p += n;
                    if ty == 0x2f {
                        eot = delta;
                        break;
                    }
                    tick += delta;
                    if ty == 0x51 && n == 3 {
                        evs.push(Ev {
                            tick,
                            k: K::Tempo((data[0] as u32) << 16 | (data[1] as u32) << 8 | data[2] as u32),
                        });
                    } else {
                        evs.push(Ev { tick, k: K::Meta(ty, data) });
                    }
                    continue;
                }
                tick += delta;
                if d[p] == 0xf0 || d[p] == 0xf7 {
                    let ty = d[p];
                    p += 1;
                    let n = vl(&mut p);
                    evs.push(Ev { tick, k: K::SysEx(ty, d[p..p + n].to_vec()) });
                    p += n;
                    continue;
                }
                if d[p] >= 0x80 {
                    status = d[p];
                    p += 1;
                }
                let ch = status & 0xf;
                let a = d[p];
                let b = if p + 1 < d.len() { d[p + 1] } else { 0 };
                let (k, n) = match status >> 4 {
                    8 => (K::Off { ch, note: a, vel: b }, 2),
                    9 => {
                        if b == 0 {
                            (K::Off { ch, note: a, vel: 0 }, 2)
                        } else {
                            (K::On { ch, note: a, vel: b }, 2)
                        }
                    }
                    0xa => (K::PolyP { ch, note: a, val: b }, 2),
                    0xb => (K::Cc { ch, ctl: a, val: b }, 2),
                    0xc => (K::Pc { ch, prog: a }, 1),
                    0xd => (K::Pressure { ch, val: a }, 1),
                    0xe => (K::Bend { ch, val: a as u16 | (b as u16) << 7 }, 2),
                    _ => return Err(format!("bad status {:x} at {}", status, p)),
                };
                p += n;
                evs.push(Ev { tick, k });
            }
            p = end;
            tracks.push(evs);
            eot_delta.push(eot);
        }
        Ok(Smf { tpb, tracks, eot_delta })
    }
}

/// Does a track's tag lie across the end of the buffer of the library that reads the file? (An 8 KB
/// buffer that starts at the beginning of the file and anew at each status byte that is left out.)
pub fn tag_across_buffer(d: &[u8]) -> bool {
    const CAP: usize = 8192;
    let be32 = |p: usize| d.get(p..p + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as usize);
    let mut limit = CAP;
    let mut p = 14;
    // the end of the buffer that holds position p
    fn at(limit: &mut usize, p: usize) -> usize {
        while *limit <= p {
            *limit += CAP;
        }
        *limit
    }
    while p < d.len() {
        let end = at(&mut limit, p);
        if end - p < 4 && d.len() > end {
            return true;
        }
        let len = match be32(p + 4) {
            Some(l) => l,
            None => return false,
        };
        p += 8;
        let stop = (p + len).min(d.len());
        let mut status = 0u8;
        let vl = |p: &mut usize| -> Option<usize> {
            let mut x = 0usize;
            loop {
                let b = *d.get(*p)?;
                *p += 1;
                x = (x << 7) | (b & 0x7f) as usize;
                if b < 0x80 {
                    return Some(x);
                }
            }
        };
        while p < stop {
            if vl(&mut p).is_none() || p >= d.len() {
                return false;
            }
            if d[p] == 0xff || d[p] == 0xf0 || d[p] == 0xf7 {
                p += if d[p] == 0xff { 2 } else { 1 };
                match vl(&mut p) {
                    Some(n) => p += n,
                    None => return false,
                }
                continue;
            }
            if d[p] >= 0x80 {
                status = d[p];
                p += 1;
            } else {
                limit = p;
            }
            p += if status >> 4 == 0xc || status >> 4 == 0xd { 1 } else { 2 };
        }
        p = stop;
    }
    false
}
