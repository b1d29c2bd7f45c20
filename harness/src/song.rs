//! The JSON song format: parsing, writing, flattening and generating.
use crate::nspc::{Item, CALL, REST, SLIDE, TIE};
use crate::rng::Rng;
use serde_json::{json, Map, Value};

pub const OPS: [(&str, u8, usize); 27] = [
    ("SetInstrument", 0xe0, 1),
    ("Pan", 0xe1, 1),
    ("PanFade", 0xe2, 2),
    ("Vibrato", 0xe3, 3),
    ("VibratoOff", 0xe4, 0),
    ("MasterVolume", 0xe5, 1),
    ("MasterVolumeFade", 0xe6, 2),
    ("Tempo", 0xe7, 1),
    ("TempoFade", 0xe8, 2),
    ("GlobalTranspose", 0xe9, 1),
    ("ChannelTranspose", 0xea, 1),
    ("Tremolo", 0xeb, 3),
    ("TremoloOff", 0xec, 0),
    ("ChannelVolume", 0xed, 1),
    ("ChannelVolumeFade", 0xee, 2),
    ("CallLoop", 0xef, 2),
    ("VibratoFade", 0xf0, 1),
    ("PitchEnvelopeTo", 0xf1, 3),
    ("PitchEnvelopeFrom", 0xf2, 3),
    ("PitchEnvelopeOff", 0xf3, 0),
    ("Tuning", 0xf4, 1),
    ("EchoVolume", 0xf5, 3),
    ("EchoOff", 0xf6, 0),
    ("EchoParams", 0xf7, 3),
    ("EchoVolumeFade", 0xf8, 3),
    ("PitchSlide", 0xf9, 3),
    ("PercussionPatchBase", 0xfa, 1),
];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cmd {
    pub dur: Option<u8>,
    pub vel: Option<u8>,
    pub sus: Option<u8>,
    /// note byte (80..c7), TIE, REST or command byte
    pub op: u8,
    /// operands; for CALL: target track, count
    pub args: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Song {
    pub part: Vec<usize>,
    pub tracks: Vec<Vec<Cmd>>,
}

fn opt_u8(v: &Value) -> Result<Option<u8>, String> {
    match v {
        Value::Null => Ok(None),
        _ => v.as_u64().filter(|&x| x < 256).map(|x| Some(x as u8)).ok_or(format!("not a byte: {}", v)),
    }
}

impl Song {
    pub fn from_json(text: &[u8]) -> Result<Song, String> {
        let v: Value = serde_json::from_slice(text).map_err(|e| e.to_string())?;
        let parts = v["parts"].as_array().ok_or("no parts")?;
        if parts.len() != 1 {
            return Err(format!("{} parts", parts.len()));
        }
        let part = parts[0]["tracks"]
            .as_array()
            .ok_or("no part tracks")?
            .iter()
            .map(|x| x.as_u64().map(|x| x as usize).ok_or("bad track index".to_string()))
            .collect::<Result<Vec<_>, _>>()?;
        let mut tracks = Vec::new();
        for t in v["tracks"].as_array().ok_or("no tracks")? {
            let mut cmds = Vec::new();
            for c in t["commands"].as_array().ok_or("no commands")? {
                let (name, args): (&str, Vec<usize>) = match &c["command"] {
                    Value::String(s) => (s, vec![]),
                    Value::Object(o) if o.len() == 1 => {
                        let (k, v) = o.iter().next().unwrap();
                        let a = match v {
                            Value::Array(a) => {
                                a.iter().map(|x| x.as_u64().unwrap_or(9999) as usize).collect()
                            }
                            x => vec![x.as_u64().unwrap_or(9999) as usize],
                        };
                        (k, a)
                    }
                    x => return Err(format!("bad command {}", x)),
                };
                let (op, args) = match name {
                    "Note" => (args[0] as u8, vec![]),
                    "Tie" => (TIE, args),
                    "Rest" => (REST, args),
                    n => {
                        let o = OPS.iter().find(|o| o.0 == n).ok_or(format!("unknown command {}", n))?;
                        (o.1, args)
                    }
                };
                cmds.push(Cmd {
                    dur: opt_u8(&c["duration"])?,
                    vel: opt_u8(&c["velocity"])?,
                    sus: opt_u8(&c["sustain"])?,
                    op,
                    args,
                });
            }
            tracks.push(cmds);
        }
        Ok(Song { part, tracks })
    }

    pub fn to_value(&self) -> Value {
        let tracks: Vec<Value> = self
            .tracks
            .iter()
            .map(|t| {
                let cmds: Vec<Value> = t
                    .iter()
                    .map(|c| {
                        let command = match c.op {
                            TIE => json!("Tie"),
                            REST => json!("Rest"),
                            0x80..=0xdf => json!({ "Note": c.op }),
                            op => {
                                let o = OPS.iter().find(|o| o.1 == op).unwrap();
                                match c.args.len() {
                                    0 => json!(o.0),
                                    1 => {
                                        let mut m = Map::new();
                                        m.insert(o.0.into(), json!(c.args[0]));
                                        Value::Object(m)
                                    }
                                    _ => {
                                        let mut m = Map::new();
                                        m.insert(o.0.into(), json!(c.args));
                                        Value::Object(m)
                                    }
                                }
                            }
                        };
                        json!({"duration": c.dur, "velocity": c.vel, "sustain": c.sus, "command": command})
                    })
                    .collect();
                json!({ "commands": cmds })
            })
            .collect();
        json!({"parts": [{"tracks": self.part}], "tracks": tracks})
    }

    pub fn to_json(&self) -> Vec<u8> {
        serde_json::to_vec(&self.to_value()).unwrap()
    }

    /// A top-level track with its loop calls expanded. The call commands themselves are dropped.
    pub fn flatten(&self, track: usize) -> Result<Vec<Cmd>, String> {
        let mut out = Vec::new();
        for c in &self.tracks[track] {
            if c.op == CALL {
                let body = self.tracks.get(c.args[0]).ok_or(format!("call of track {}", c.args[0]))?;
                if c.args[1] < 1 || c.args[1] > 255 {
                    return Err(format!("loop count {}", c.args[1]));
                }
                if body.iter().any(|c| c.op == CALL) {
                    return Err("nested loop call".into());
                }
                for _ in 0..c.args[1] {
                    out.extend(body.iter().cloned());
                }
            } else {
                out.push(c.clone());
            }
        }
        Ok(out)
    }

    /// The items a driver should see for a top-level track, preamble included: durations given by
    /// the commands, velocity and articulation carried over when not given.
    pub fn expected_items(&self, pos: usize) -> Result<Vec<Item>, String> {
        let mut out = Vec::new();
        if pos == 0 {
            out.push(Item::Cmd { op: 0xfa, args: vec![0x19] });
            out.push(Item::Cmd { op: 0xe5, args: vec![0xc8] });
        }
        out.push(Item::Cmd { op: 0xed, args: vec![0xc8] });
        let mut dur: Option<u8> = None;
        let mut vel: Option<u8> = None;
        let mut sus: Option<u8> = None;
        for c in self.flatten(self.part[pos])? {
            if let Some(d) = c.dur.filter(|&d| d > 0) {
                dur = Some(d);
            }
            if let Some(v) = c.vel.filter(|&v| v > 0) {
                vel = Some(v);
            }
            if let Some(s) = c.sus.filter(|&s| s > 0) {
                sus = Some(s);
            }
            if c.op < 0xe0 {
                let velq = match (vel, sus) {
                    (None, None) => None,
                    (v, s) => Some(v.unwrap_or(0xd) | s.unwrap_or(7) << 4),
                };
                out.push(Item::Play { op: c.op, dur: dur.ok_or("note without duration")?, velq });
            } else {
                out.push(Item::Cmd { op: c.op, args: c.args.iter().map(|&a| a as u8).collect() });
            }
        }
        Ok(out)
    }

    /// an upper bound of what the song takes in a ROM
    pub fn most_bytes(&self) -> usize {
        64 + self.tracks.iter().map(|t| 8 + t.iter().map(|c| 3 + 1 + c.args.len()).sum::<usize>()).sum::<usize>()
    }

    /// appends small loop bodies until the song has `n` tracks, and calls of some of them
    pub fn add_tracks(&mut self, rng: &mut Rng, n: usize) {
        let old = self.tracks.len();
        while self.tracks.len() < n {
            let i = self.tracks.len();
            let body = vec![Cmd { dur: Some(1 + (i % 96) as u8), vel: Some(rng.byte(1, 15)), sus: Some(rng.byte(1, 7)), op: rng.byte(0x80, 0xc7), args: vec![] }];
            self.tracks.push(body);
        }
        for i in 0..rng.us(3, 12) {
            let t = match i {
                0 => self.tracks.len() - 1,
                1 => old,
                _ => rng.us(old, self.tracks.len() - 1),
            };
            let at = *rng.pick(&self.part);
            self.tracks[at].push(Cmd { dur: None, vel: None, sus: None, op: CALL, args: vec![t, rng.us(1, 4)] });
        }
    }

    /// removes the tracks that are neither in the part nor called
    pub fn drop_uncalled(&mut self) {
        let mut keep: Vec<bool> = (0..self.tracks.len()).map(|i| self.part.contains(&i)).collect();
        for i in 0..self.tracks.len() {
            if keep[i] {
                for c in self.tracks[i].clone() {
                    if c.op == CALL {
                        keep[c.args[0]] = true;
                    }
                }
            }
        }
        let mut new = vec![0; keep.len()];
        let mut n = 0;
        for i in 0..keep.len() {
            new[i] = n;
            n += keep[i] as usize;
        }
        let mut i = 0;
        self.tracks.retain(|_| {
            i += 1;
            keep[i - 1]
        });
        for t in &mut self.part {
            *t = new[*t];
        }
        for t in &mut self.tracks {
            for c in t {
                if c.op == CALL {
                    c.args[0] = new[c.args[0]];
                }
            }
        }
    }

    pub fn total_commands(&self) -> usize {
        self.tracks.iter().map(|t| t.len()).sum()
    }
}

/// Compares decoded items with expected ones. A note played with no velocity given so far may have
/// any (default) velocity.
pub fn items_match(exp: &[Item], got: &[Item]) -> Result<(), String> {
    for i in 0..exp.len().max(got.len()) {
        match (exp.get(i), got.get(i)) {
            (Some(Item::Play { op, dur, velq: None }), Some(Item::Play { op: o2, dur: d2, .. }))
                if op == o2 && dur == d2 => {}
            (Some(Item::Play { op, dur, velq: Some(_) }), Some(Item::Play { op: o2, dur: d2, .. }))
                if op == o2 && dur == d2 && (*op == REST) => {}
            (a, b) => {
                if a != b {
                    return Err(format!(
                        "item {} of {}/{}: expected {:x?}, ROM has {:x?} (around: expected {:x?}, ROM {:x?})",
                        i,
                        exp.len(),
                        got.len(),
                        a,
                        b,
                        &exp[i.saturating_sub(2).min(exp.len())..(i + 3).min(exp.len())],
                        &got[i.saturating_sub(2).min(got.len())..(i + 3).min(got.len())]
                    ));
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
pub struct GenSong {
    pub max_tracks: usize,
    pub max_cmds: usize,
    /// loop bodies to add by hand
    pub loops: bool,
    /// every command kind rather than mostly notes
    pub all_ops: bool,
}

fn gen_cmd(rng: &mut Rng, st: &mut (bool, bool), all_ops: bool, partial: bool) -> Vec<Cmd> {
    let dur = |rng: &mut Rng| {
        *rng.pick(&[1u8, 2, 3, 6, 12, 24, 48, 96, 0x7e, 0x7f, 5, 7]) as u8
    };
    let play = rng.chance(if all_ops { 5 } else { 9 }, 10);
    if play {
        let w = rng.weighted(&[6, 2, 2]);
        let op = match w {
            // percussion notes are a driver feature the converter itself doesn't use
            0 if all_ops && rng.chance(1, 12) => rng.byte(0xca, 0xdf),
            0 => rng.byte(0x80, 0xc7),
            1 => TIE,
            _ => REST,
        };
        // a duration is given unless one is already running
        let d = if !st.0 || rng.chance(7, 10) { Some(dur(rng)) } else { None };
        st.0 = true;
        let (vel, sus) = if op == REST {
            (None, None)
        } else if !st.1 || rng.chance(6, 10) {
            if partial && st.1 && rng.chance(1, 3) {
                if rng.chance(1, 2) {
                    (Some(rng.byte(1, 15)), None)
                } else {
                    (None, Some(rng.byte(1, 7)))
                }
            } else {
                (Some(rng.byte(1, 15)), Some(rng.byte(1, 7)))
            }
        } else {
            (None, None)
        };
        if vel.is_some() && sus.is_some() {
            st.1 = true;
        }
        // zero stands for a value that isn't given, as in the tool's own exports
        let zero = |rng: &mut Rng, x: Option<u8>| if x.is_none() && rng.chance(1, 8) { Some(0) } else { x };
        let (vel, sus) = (zero(rng, vel), zero(rng, sus));
        vec![Cmd { dur: d, vel, sus, op, args: vec![] }]
    } else {
        let o = loop {
            let o = rng.pick(&OPS);
            if o.1 != CALL && o.1 != SLIDE {
                break o;
            }
            if o.1 == SLIDE && rng.chance(1, 2) {
                break o;
            }
        };
        let args = (0..o.2)
            .map(|_| if rng.chance(1, 5) { *rng.pick(&[0usize, 1, 0x7f, 0x80, 0xff]) } else { rng.us(0, 255) })
            .collect();
        // commands may carry a duration, too, which is that of the following notes
        let (mut d, mut vel, mut sus) = (None, None, None);
        if all_ops && rng.chance(1, 8) {
            d = Some(dur(rng));
            st.0 = true;
            if rng.chance(1, 3) {
                vel = Some(rng.byte(1, 15));
                sus = Some(rng.byte(1, 7));
                st.1 = true;
            }
        }
        vec![Cmd { dur: d, vel, sus, op: o.1, args }]
    }
}

impl GenSong {
    pub fn gen(&self, rng: &mut Rng) -> Song {
        let nt = rng.us(1, self.max_tracks.min(8).max(1));
        let nbodies = match rng.below(4) {
            _ if !self.loops => 0,
            0 if self.max_cmds >= 80 => rng.us(5, 40),
            _ => rng.us(0, 4),
        };
        let mut tracks: Vec<Vec<Cmd>> = Vec::new();
        for _ in 0..nt {
            let n = rng.us(1, self.max_cmds.max(1));
            let mut st = (false, false);
            let mut cmds = Vec::new();
            let partial_ok = nbodies == 0;
            while cmds.len() < n {
                if nbodies > 0 && rng.chance(1, 6) {
                    cmds.push(Cmd {
                        dur: None,
                        vel: None,
                        sus: None,
                        op: CALL,
                        args: vec![nt + rng.us(0, nbodies - 1), *rng.pick(&[1usize, 2, 3, 4, 17, 255])],
                    });
                    // the driver state after a call is the body's; a velocity can only be written
                    // with a duration, which the tool doesn't follow through the call
                    st = match rng.below(3) {
                        0 => (false, false),
                        1 => (false, true),
                        _ => {
                            let op = rng.byte(0x80, 0xc7);
                            cmds.push(Cmd { dur: None, vel: None, sus: None, op, args: vec![] });
                            (false, true)
                        }
                    };
                } else {
                    cmds.extend(gen_cmd(rng, &mut st, self.all_ops, partial_ok));
                }
            }
            tracks.push(cmds);
        }
        for _ in 0..nbodies {
            let n = rng.us(1, 12);
            let mut st = (false, false);
            let mut cmds = Vec::new();
            while cmds.len() < n {
                cmds.extend(gen_cmd(rng, &mut st, self.all_ops, false));
            }
            // a body always sets duration, velocity and articulation, so that the state after a
            // call is defined
            if !(st.0 && st.1) {
                cmds.push(Cmd { dur: Some(12), vel: Some(9), sus: Some(5), op: 0x90, args: vec![] });
            }
            tracks.push(cmds);
        }
        // every body is called at least once
        for b in 0..nbodies {
            let t = rng.us(0, nt - 1);
            tracks[t].push(Cmd { dur: None, vel: None, sus: None, op: CALL, args: vec![nt + b, rng.us(1, 3)] });
        }
        Song { part: (0..nt).collect(), tracks }
    }
}
