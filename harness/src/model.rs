//! What a MIDI file means: the reference model the decoded songs are compared with.
use crate::smf::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Note {
    pub ch: u8,
    pub note: u8,
    pub vel: u8,
    pub on: u64,
    /// None: never ended
    pub off: Option<u64>,
    pub prog: Option<u8>,
    /// controller 7 value when the note starts
    pub vol: u8,
    /// volumes that may also be in force at the onset, because they are set within the same step
    pub vol_alt: Vec<u8>,
    /// the channel's controller 7 events after the onset and before the end
    pub vol_during: Vec<(u64, u8)>,
    pub porta: bool,
    pub port_time: u16,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub tpb: u64,
    pub notes: Vec<Note>,
    pub tempos: Vec<(u64, u32)>,
    /// time of the last channel event
    pub end: u64,
    pub max_poly: usize,
    /// note-ons on an already sounding note of the channel
    pub retriggers: usize,
}

pub fn fold_pitch(n: u8) -> u8 {
    let mut n = n as i32;
    while n < 24 {
        n += 12;
    }
    while n > 95 {
        n -= 12;
    }
    n as u8
}

pub const SNARE: u8 = 0x13;
pub const CYMBAL: u8 = 0x0c;

impl Note {
    pub fn is_snare(&self) -> bool {
        self.ch == 9 && (self.note == 38 || self.note == 40)
    }
    /// the driver's note byte
    pub fn pitch_byte(&self) -> u8 {
        let n = if self.is_snare() { 68 } else { self.note };
        fold_pitch(n) + 0x68
    }
    pub fn instrument(&self) -> Option<u8> {
        if self.ch == 9 {
            Some(if self.is_snare() { SNARE } else { CYMBAL })
        } else {
            self.prog.map(instrument_for)
        }
    }
}

impl Model {
    pub fn floor(&self, t: u64) -> u64 {
        t * 24 / self.tpb
    }
    pub fn ceil(&self, t: u64) -> u64 {
        (t * 24 + self.tpb - 1) / self.tpb
    }
    /// at least one step long: must be heard
    pub fn required(&self, n: &Note) -> bool {
        match n.off {
            Some(off) => (off - n.on) * 24 >= self.tpb,
            // lasts to the end of the piece
            None => (self.end - n.on) * 24 >= self.tpb,
        }
    }

    pub fn of(smf: &Smf) -> Model {
        let mut per_ch: Vec<Vec<(u64, u8, K, usize)>> = vec![Vec::new(); 16];
        let mut tempos: Vec<(u64, u32)> = Vec::new();
        let mut end = 0;
        for (ti, t) in smf.tracks.iter().enumerate() {
            for e in t {
                if let K::Tempo(us) = e.k {
                    tempos.push((e.tick, us));
                }
                if let Some(ch) = e.k.channel() {
                    end = end.max(e.tick);
                    let pr = match e.k {
                        K::Off { .. } => 0,
                        K::On { vel: 0, .. } => 0,
                        K::On { .. } => 2,
                        _ => 1,
                    };
                    per_ch[ch as usize].push((e.tick, pr, e.k.clone(), ti));
                }
            }
        }
        tempos.sort_by_key(|&(t, _)| t);
        let mut m = Model { tpb: smf.tpb as u64, notes: Vec::new(), tempos, end, max_poly: 0, retriggers: 0 };
        for (ch, evs) in per_ch.iter_mut().enumerate() {
            drop_zero_length(evs);
            evs.sort_by_key(|e| (e.0, e.1));
            let mut prog = None;
            let mut cc: BTreeMap<u8, u8> = BTreeMap::new();
            let mut open: BTreeMap<u8, usize> = BTreeMap::new();
            let mut vols: Vec<(u64, u8)> = Vec::new();
            let first = m.notes.len();
            for (tick, _, k, _) in evs.iter() {
                match *k {
                    K::Pc { prog: p, .. } => prog = Some(p),
                    K::Cc { ctl, val, .. } => {
                        if ctl == 7 {
                            vols.push((*tick, val));
                        }
                        cc.insert(ctl, val);
                    }
                    K::Off { note, .. } | K::On { note, vel: 0, .. } => {
                        if let Some(i) = open.remove(&note) {
                            m.notes[i].off = Some(*tick);
                        }
                    }
                    K::On { note, vel, .. } => {
                        if let Some(i) = open.remove(&note) {
                            m.notes[i].off = Some(*tick);
                            m.retriggers += 1;
                        }
                        open.insert(note, m.notes.len());
                        m.notes.push(Note {
                            ch: ch as u8,
                            note,
                            vel,
                            on: *tick,
                            off: None,
                            prog,
                            vol: *cc.get(&7).unwrap_or(&100),
                            vol_alt: vec![],
                            vol_during: vec![],
                            porta: *cc.get(&65).unwrap_or(&0) >= 64,
                            port_time: (*cc.get(&5).unwrap_or(&0) as u16) << 8
                                | *cc.get(&37).unwrap_or(&0) as u16,
                        });
                    }
                    _ => {}
                }
            }
            for i in first..m.notes.len() {
                let on = m.notes[i].on;
                let c = m.ceil(on);
                let alts = vols
                    .iter()
                    .filter(|&&(t, _)| t > on && m.floor(t) <= c)
                    .map(|&(_, v)| v)
                    .collect::<Vec<_>>();
                m.notes[i].vol_alt = alts;
                let off = m.notes[i].off.unwrap_or(u64::MAX);
                m.notes[i].vol_during = vols.iter().cloned().filter(|&(t, _)| t > on && t < off).collect();
            }
        }
        // peak polyphony over all channels (ends before starts on the same tick)
        let mut pts: Vec<(u64, i32)> = Vec::new();
        for n in &m.notes {
            if n.off == Some(n.on) {
                continue;
            }
            pts.push((n.on, 1));
            if let Some(off) = n.off {
                pts.push((off, -1));
            }
        }
        pts.sort();
        let mut cur = 0i32;
        for (_, d) in pts {
            cur += d;
            m.max_poly = m.max_poly.max(cur as usize);
        }
        m
    }
}

/// A note that starts while it is not sounding and ends on the same tick (in file order) is no note.
fn drop_zero_length(evs: &mut Vec<(u64, u8, K, usize)>) {
    let ntracks = evs.iter().map(|e| e.3).max().map_or(0, |m| m + 1);
    let mut dead = vec![false; evs.len()];
    for tr in 0..ntracks {
        let mut open: BTreeMap<u8, (usize, u64)> = BTreeMap::new();
        for i in 0..evs.len() {
            if evs[i].3 != tr {
                continue;
            }
            let tick = evs[i].0;
            match evs[i].2 {
                K::Off { note, .. } | K::On { note, vel: 0, .. } => {
                    if let Some((j, t)) = open.remove(&note) {
                        if t == tick {
                            dead[i] = true;
                            dead[j] = true;
                        }
                    }
                }
                K::On { note, .. } => {
                    if open.contains_key(&note) {
                        // already sounding: a restart, whose end is a later note-off
                        open.insert(note, (i, u64::MAX));
                    } else {
                        open.insert(note, (i, tick));
                    }
                }
                _ => {}
            }
        }
    }
    let mut i = 0;
    evs.retain(|_| {
        i += 1;
        !dead[i - 1]
    });
}

/// General MIDI program -> instrument number of the game, written out independently of the
/// code under test from its documented instrument list.
pub fn instrument_for(prog: u8) -> u8 {
    const PIANO: u8 = 24;
    const CHIME: u8 = 14;
    const CHOIR: u8 = 21;
    const STRINGS: u8 = 9;
    const OCARINA: u8 = 13;
    const OOF: u8 = 23;
    const HARP: u8 = 15;
    const TIMPANI: u8 = 2;
    const TRUMPET: u8 = 17;
    const TROMBONE: u8 = 11;
    const HORN: u8 = 18;
    const FLUTE: u8 = 22;
    const TWEET: u8 = 8;
    const SQUARE: u8 = 3;
    const SAW: u8 = 4;
    const SINE: u8 = 5;
    const DSAW1: u8 = 6;
    const DSAW2: u8 = 7;
    const RAIN: u8 = 1;
    const SPLASH: u8 = 16;
    match prog {
        0..=7 => PIANO,
        8..=15 => CHIME,
        16..=20 => CHOIR,
        21 => STRINGS,
        22 => OCARINA,
        23 => OOF,
        24..=39 => PIANO,
        40..=45 => STRINGS,
        46 => HARP,
        47 => TIMPANI,
        48..=51 => STRINGS,
        52..=54 => CHOIR,
        55 => STRINGS,
        56 => TRUMPET,
        57 => TROMBONE,
        58 => HORN,
        59 => TRUMPET,
        60..=63 => HORN,
        64 | 65 => TRUMPET,
        66 | 67 => TROMBONE,
        68..=70 => HORN,
        71..=73 => FLUTE,
        74..=77 => OCARINA,
        78 => TWEET,
        79 => OCARINA,
        80 => SQUARE,
        81 => SAW,
        82 => OCARINA,
        83..=85 => DSAW1,
        86 | 87 => DSAW2,
        88..=90 => SINE,
        91 => CHOIR,
        92..=95 => SINE,
        96..=103 => RAIN,
        104..=108 => PIANO,
        109 => HORN,
        110 => STRINGS,
        111 => HORN,
        112 | 113 => CHIME,
        114 => TIMPANI,
        115 => SNARE,
        116..=118 => TIMPANI,
        119 => CYMBAL,
        120 | 121 => OOF,
        122 => SPLASH,
        123 => TWEET,
        124 => CHIME,
        125 => OOF,
        126 => RAIN,
        _ => OOF,
    }
}
