//! Decoder and player for the sound driver's command streams, written from the driver's format.
use std::collections::BTreeSet;

/// number of operand bytes of commands E0..FA
pub const ARGS: [usize; 27] = [
    1, 1, 2, 3, 0, 1, 2, 1, 2, 1, 1, 3, 0, 1, 2, 3, 1, 3, 3, 0, 1, 3, 0, 3, 3, 3, 1,
];

pub const TIE: u8 = 0xc8;
pub const REST: u8 = 0xc9;
pub const CALL: u8 = 0xef;
pub const SLIDE: u8 = 0xf9;

#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub at: usize,
    pub dur: Option<u8>,
    pub velq: Option<u8>,
    pub op: u8,
    pub args: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct RawTrack {
    pub start: usize,
    /// length in bytes including the end marker
    pub len: usize,
    pub cmds: Vec<Raw>,
}

/// Parses one track at sound-RAM address `start`.
pub fn parse_track(mem: &dyn Fn(usize) -> Result<u8, String>, start: usize) -> Result<RawTrack, String> {
    let mut p = start;
    let mut cmds = Vec::new();
    loop {
        let at = p;
        let mut b = mem(p)?;
        p += 1;
        if b == 0 {
            return Ok(RawTrack { start, len: p - start, cmds });
        }
        let mut dur = None;
        let mut velq = None;
        if b < 0x80 {
            dur = Some(b);
            b = mem(p)?;
            p += 1;
            if b < 0x80 {
                velq = Some(b);
                b = mem(p)?;
                p += 1;
                if b < 0x80 {
                    return Err(format!("byte {:02x} at {:04x}: command expected after duration and velocity", b, p - 1));
                }
            }
        }
        let mut args = Vec::new();
        if b >= 0xe0 {
            if b > 0xfa {
                return Err(format!("invalid command {:02x} at {:04x}", b, p - 1));
            }
            for _ in 0..ARGS[(b - 0xe0) as usize] {
                args.push(mem(p)?);
                p += 1;
            }
        }
        cmds.push(Raw { at, dur, velq, op: b, args });
        if cmds.len() > 200_000 {
            return Err("track too long".into());
        }
    }
}

/// One step of a flattened track: a note/tie/rest with the driver state it is played with, or a
/// command.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Play { op: u8, dur: u8, velq: Option<u8> },
    Cmd { op: u8, args: Vec<u8> },
}

#[derive(Clone, Debug)]
pub struct SongTrack {
    pub raw: RawTrack,
    pub items: Vec<Item>,
    /// addresses and counts of the loop calls
    pub calls: Vec<(usize, u8)>,
}

#[derive(Clone, Debug, Default)]
pub struct DecodedSong {
    /// one entry per part position; None = null pointer
    pub tracks: Vec<Option<SongTrack>>,
    pub bodies: Vec<RawTrack>,
    pub looped: bool,
}

/// Decodes a top-level track with all its loop calls expanded.
pub fn decode_track(
    mem: &dyn Fn(usize) -> Result<u8, String>,
    start: usize,
    bodies: &mut Vec<RawTrack>,
) -> Result<SongTrack, String> {
    let raw = parse_track(mem, start)?;
    let mut items = Vec::new();
    let mut calls = Vec::new();
    let mut dur: Option<u8> = None;
    let mut velq: Option<u8> = None;
    let seen: BTreeSet<usize> = bodies.iter().map(|b| b.start).collect();
    let mut seen = seen;
    fn play(
        cmds: &[Raw],
        items: &mut Vec<Item>,
        dur: &mut Option<u8>,
        velq: &mut Option<u8>,
    ) -> Result<(), String> {
        for c in cmds {
            if c.dur.is_some() {
                *dur = c.dur;
            }
            if c.velq.is_some() {
                *velq = c.velq;
            }
            if c.op < 0xe0 {
                let d = dur.ok_or(format!("note at {:04x} before any duration", c.at))?;
                items.push(Item::Play { op: c.op, dur: d, velq: *velq });
            } else {
                items.push(Item::Cmd { op: c.op, args: c.args.clone() });
            }
            if items.len() > 2_000_000 {
                return Err("song too long".into());
            }
        }
        Ok(())
    }
    for c in &raw.cmds {
        if c.op == CALL {
            if c.dur.is_some() {
                dur = c.dur;
            }
            if c.velq.is_some() {
                velq = c.velq;
            }
            let target = c.args[0] as usize | (c.args[1] as usize) << 8;
            let count = c.args[2];
            if count == 0 {
                return Err(format!("loop call at {:04x} with count 0", c.at));
            }
            calls.push((target, count));
            let body = parse_track(mem, target).map_err(|e| format!("loop body {:04x}: {}", target, e))?;
            if body.cmds.iter().any(|c| c.op == CALL) {
                return Err(format!("nested loop call in body {:04x}", target));
            }
            for _ in 0..count {
                play(&body.cmds, &mut items, &mut dur, &mut velq)?;
            }
            if seen.insert(target) {
                bodies.push(body);
            }
        } else {
            play(std::slice::from_ref(c), &mut items, &mut dur, &mut velq)?;
        }
    }
    Ok(SongTrack { raw, items, calls })
}

/// A note as the driver plays it.
#[derive(Clone, Debug)]
pub struct Heard {
    pub track: usize,
    pub start: u64,
    /// slot length: own duration plus ties
    pub len: u64,
    /// duration of the first segment
    #[allow(dead_code)]
    pub first: u8,
    pub ties: usize,
    pub pitch: u8,
    pub vel: Option<u8>,
    pub q: Option<u8>,
    pub instr: Option<u8>,
    pub vol: Option<u8>,
    /// reached by a slide (delay, time, start of the command the slide belongs to, its duration)
    pub slid: Option<(u8, u8, u64, u8)>,
    /// a command came between the note and the end of its last segment
    pub changes: Vec<(u64, u8, Vec<u8>)>,
}

#[derive(Clone, Debug, Default)]
pub struct Performance {
    pub notes: Vec<Heard>,
    /// (track, time, value)
    pub tempos: Vec<(usize, u64, u8)>,
    pub lengths: Vec<Option<u64>>,
    pub commands: u64,
}

/// Plays a decoded song (all parts' first pass), as the driver would.
pub fn perform(song: &DecodedSong) -> Result<Performance, String> {
    let mut p = Performance::default();
    for (ti, t) in song.tracks.iter().enumerate() {
        let t = match t {
            None => {
                p.lengths.push(None);
                continue;
            }
            Some(t) => t,
        };
        let mut now = 0u64;
        let mut instr = None;
        let mut vol = None;
        // index of the sounding note
        let mut cur: Option<usize> = None;
        let mut slide: Option<(u8, u8, u64, u8, u8)> = None;
        let mut last_play: Option<(u64, u8)> = None;
        for it in &t.items {
            p.commands += 1;
            match it {
                Item::Play { op, dur, velq } => {
                    if *dur == 0 || *dur > 0x7f {
                        return Err(format!("track {}: duration {}", ti, dur));
                    }
                    let vel = velq.map(|v| v & 0xf);
                    let q = velq.map(|v| v >> 4);
                    match *op {
                        0x80..=0xc7 => {
                            if slide.is_some() {
                                return Err(format!("track {} step {}: slide followed by a struck note", ti, now));
                            }
                            cur = Some(p.notes.len());
                            p.notes.push(Heard {
                                track: ti,
                                start: now,
                                len: *dur as u64,
                                first: *dur,
                                ties: 0,
                                pitch: *op,
                                vel,
                                q,
                                instr,
                                vol,
                                slid: None,
                                changes: vec![],
                            });
                        }
                        TIE => {
                            if let Some((delay, time, s0, d0, target)) = slide.take() {
                                if cur.is_none() {
                                    return Err(format!("track {} step {}: slide from silence", ti, now));
                                }
                                cur = Some(p.notes.len());
                                p.notes.push(Heard {
                                    track: ti,
                                    start: now,
                                    len: *dur as u64,
                                    first: *dur,
                                    ties: 0,
                                    pitch: target,
                                    vel,
                                    q,
                                    instr,
                                    vol,
                                    slid: Some((delay, time, s0, d0)),
                                    changes: vec![],
                                });
                            } else {
                                match cur {
                                    None => {
                                        return Err(format!("track {} step {}: tie after silence", ti, now))
                                    }
                                    Some(i) => {
                                        p.notes[i].len += *dur as u64;
                                        p.notes[i].ties += 1;
                                    }
                                }
                            }
                        }
                        REST => {
                            if slide.is_some() {
                                return Err(format!("track {} step {}: slide followed by a rest", ti, now));
                            }
                            cur = None;
                        }
                        x => return Err(format!("track {} step {}: percussion note {:02x}", ti, now, x)),
                    }
                    last_play = Some((now, *dur));
                    now += *dur as u64;
                }
                Item::Cmd { op, args } => {
                    match *op {
                        0xe0 => instr = Some(args[0]),
                        0xed => vol = Some(args[0]),
                        0xe7 => p.tempos.push((ti, now, args[0])),
                        SLIDE => {
                            if slide.is_some() {
                                return Err(format!("track {} step {}: two slides in a row", ti, now));
                            }
                            let (s0, d0) = last_play
                                .ok_or(format!("track {} step {}: slide before any note", ti, now))?;
                            slide = Some((args[0], args[1], s0, d0, args[2]));
                        }
                        _ => {}
                    }
                    if let Some(i) = cur {
                        p.notes[i].changes.push((now, *op, args.clone()));
                    }
                }
            }
        }
        if slide.is_some() {
            return Err(format!("track {}: slide at the end", ti));
        }
        p.lengths.push(Some(now));
    }
    Ok(p)
}
