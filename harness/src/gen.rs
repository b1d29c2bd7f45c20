//! Generator of MIDI pieces.
use crate::rng::Rng;
use crate::smf::*;

#[derive(Clone, Debug)]
pub struct Style {
    /// Some(true): everything on the 1/24-beat grid; Some(false): arbitrary ticks
    pub grid: Option<bool>,
    pub porta: bool,
    pub controls: bool,
    pub tempo: bool,
    pub inert: bool,
    pub drums: bool,
    pub long: bool,
    pub sub_step: bool,
    pub max_notes: usize,
    pub repeats: bool,
    /// notes that are never ended, or struck again while they sound
    pub odd_ends: bool,
}

impl Style {
    pub fn all() -> Style {
        Style {
            grid: None,
            porta: false,
            controls: true,
            tempo: true,
            inert: true,
            drums: true,
            long: true,
            sub_step: true,
            max_notes: 260,
            repeats: true,
            odd_ends: true,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Piece {
    pub smf: Smf,
    /// must be accepted by the converter
    pub guaranteed: bool,
    pub desc: String,
    #[allow(dead_code)]
    pub grid: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct GNote {
    pub on: u64,
    pub off: u64,
    pub note: u8,
    pub vel: u8,
}

/// the end of a note that is never ended
pub const NEVER: u64 = u64::MAX;

pub const GRID_TPB: [u16; 14] = [24, 48, 72, 96, 120, 144, 168, 192, 240, 384, 480, 960, 1920, 15360];
pub const ODD_TPB: [u16; 20] =
    [1, 2, 5, 7, 10, 11, 23, 25, 50, 100, 101, 250, 256, 300, 500, 1000, 1023, 9999, 32749, 32767];

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub tpb: u64,
    pub grid: bool,
    pub st: Style,
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, st: &Style) -> Gen<'a> {
        let grid = match st.grid {
            Some(g) => g,
            None => rng.chance(1, 2),
        };
        let tpb = if grid {
            *rng.pick(&GRID_TPB)
        } else {
            match rng.below(3) {
                0 => *rng.pick(&ODD_TPB),
                1 => rng.range(1, 2000) as u16,
                _ => *rng.pick(&GRID_TPB),
            }
        } as u64;
        Gen { rng, tpb, grid, st: st.clone() }
    }

    /// the smallest tick count that is at least `steps` steps
    pub fn ticks(&self, steps: u64) -> u64 {
        ((steps * self.tpb + 23) / 24).max(1)
    }

    /// a duration of about `steps` steps, never below one step unless sub-step notes are allowed
    pub fn dur(&mut self, steps: u64) -> u64 {
        let t = self.ticks(steps);
        if self.grid {
            t
        } else {
            let j = self.rng.below(t / 3 + 2);
            let one = self.ticks(1);
            let x = if self.rng.chance(1, 2) { t + j } else { (t + 1).saturating_sub(j) };
            if self.st.sub_step && self.rng.chance(1, 30) {
                x.max(1).min(self.rng.range(1, one))
            } else {
                x.max(one)
            }
        }
    }

    fn steps_pick(&mut self) -> u64 {
        match self.rng.weighted(&[10, 4, if self.st.long { 1 } else { 0 }]) {
            0 => *self.rng.pick(&[1, 2, 3, 4, 6, 8, 12, 12, 24, 24, 36, 48]),
            1 => self.rng.range(1, 130),
            _ => match self.rng.below(4) {
                0 => self.rng.range(120, 135),
                1 => self.rng.range(1, 6) * 127,
                2 => self.rng.range(127, 3000),
                _ => 127 * self.rng.range(2, 40) + self.rng.range(0, 2),
            },
        }
    }

    pub fn vel(&mut self) -> u8 {
        match self.rng.below(4) {
            0 => self.rng.byte(1, 20),
            1 => 127,
            _ => self.rng.byte(1, 127),
        }
    }

    pub fn pitch(&mut self) -> u8 {
        match self.rng.weighted(&[8, 2, 1]) {
            0 => self.rng.byte(40, 80),
            1 => *self.rng.pick(&[23, 24, 25, 94, 95, 96]),
            _ => self.rng.byte(0, 127),
        }
    }

    /// one monophonic line from `start`; at most `n` notes, within `end`
    pub fn melody(&mut self, start: u64, end: u64, n: usize) -> Vec<GNote> {
        let mut out: Vec<GNote> = Vec::new();
        let mut t = start;
        let legato = self.rng.below(4);
        let base = self.rng.byte(0, 255);
        let few_pitches = self.rng.chance(1, 3);
        let fixed_vel = if self.rng.chance(1, 2) { Some(self.vel()) } else { None };
        while out.len() < n && t < end {
            let s = self.steps_pick();
            let d = self.dur(s);
            let mut p = self.pitch();
            if few_pitches {
                p = 40 + (p.wrapping_add(base)) % 3;
            }
            let off = (t + d).min(end);
            if (off - t) * 24 >= self.tpb || self.st.sub_step {
                let vel = fixed_vel.unwrap_or_else(|| self.vel());
                out.push(GNote { on: t, off, note: p, vel });
            }
            t = off;
            let gap = match legato {
                0 => 0,
                1 => {
                    if self.rng.chance(1, 2) {
                        0
                    } else {
                        self.steps_pick()
                    }
                }
                2 => (s * self.rng.range(0, 8)) / 8 + self.rng.below(2),
                _ => {
                    // rests that complete a slot of eighths
                    let e = self.rng.range(1, 7);
                    if s % e == 0 && self.rng.chance(2, 3) {
                        s / e * (8 - e)
                    } else {
                        s / 16
                    }
                }
            };
            if gap > 0 {
                t += if self.grid { self.ticks(gap) } else { self.dur(gap) };
            }
        }
        out
    }

    /// a motif repeated with small variations, to give loop compression something to do
    pub fn repeated(&mut self, start: u64, end: u64, n: usize) -> Vec<GNote> {
        // (now and then a whole section)
        let k = if self.rng.chance(1, 6) { self.rng.us(8, (n / 2).max(9)) } else { self.rng.us(1, 7) };
        let motif = self.melody(0, u64::MAX / 4, k);
        let mut period = motif.last().map_or(1, |m| m.off);
        if self.rng.chance(1, 2) {
            let r = self.rng.range(1, 24);
            period += self.ticks(r);
        }
        let alt = self.melody(0, period, k);
        let mut out = Vec::new();
        let mut t = start;
        let shape = self.rng.below(4);
        while out.len() < n && t < end {
            let which = match shape {
                0 => 0,
                1 => self.rng.below(4),
                2 => {
                    if self.rng.chance(1, 6) {
                        3
                    } else {
                        0
                    }
                }
                _ => self.rng.below(2),
            };
            let src = if which == 3 { &alt } else { &motif };
            for m in src {
                if t + m.off <= end {
                    out.push(GNote { on: t + m.on, off: t + m.off, ..*m });
                }
            }
            t += period;
            if shape == 1 && self.rng.chance(1, 5) {
                let s = self.steps_pick();
                t += self.ticks(s);
            }
        }
        out
    }

    /// up to `p` simultaneous notes
    pub fn poly(&mut self, start: u64, end: u64, n: usize, p: usize) -> Vec<GNote> {
        let mut out: Vec<GNote> = Vec::new();
        if self.rng.chance(1, 2) {
            // chords
            let mut t = start;
            while out.len() < n && t < end {
                let s = self.steps_pick();
                let d = self.dur(s);
                let k = self.rng.us(1, p);
                let root = self.rng.byte(0, 100);
                let mut used = vec![];
                for j in 0..k {
                    let note = if self.rng.chance(1, 10) { self.pitch() } else { root.wrapping_add(j as u8 * 4).min(127) };
                    if used.contains(&note) {
                        continue;
                    }
                    used.push(note);
                    let mut dd = d;
                    if self.rng.chance(1, 4) {
                        let one = self.ticks(1);
                        dd = (d / 2).max(one.min(d));
                        if self.grid {
                            dd = (dd + one - 1) / one * one;
                        }
                    }
                    out.push(GNote { on: t, off: (t + dd).min(end), note, vel: self.vel() });
                }
                t += d;
                if self.rng.chance(1, 4) {
                    let s = self.steps_pick();
                    t += self.dur(s);
                }
            }
        } else {
            // independent overlapping lines, each on its own pitches
            let per = (n / p).max(1);
            for j in 0..p {
                let s0 = self.rng.below(48);
                let st = start + self.ticks(s0);
                for mut m in self.melody(st, end, per) {
                    m.note = (m.note / p as u8) * p as u8 + j as u8;
                    if m.note > 127 {
                        m.note -= p as u8;
                    }
                    out.push(m);
                }
            }
        }
        out.retain(|m| m.off > m.on);
        // the same pitch must not overlap itself within the channel
        out.sort_by_key(|m| (m.note, m.on));
        let mut keep: Vec<GNote> = Vec::new();
        for m in out {
            if let Some(l) = keep.last() {
                if l.note == m.note && l.off > m.on {
                    continue;
                }
            }
            keep.push(m);
        }
        keep.sort_by_key(|m| (m.on, m.note));
        keep
    }

    pub fn drums(&mut self, start: u64, end: u64, n: usize) -> Vec<GNote> {
        let mut v = if self.rng.chance(1, 2) { self.repeated(start, end, n) } else { self.melody(start, end, n) };
        for m in v.iter_mut() {
            m.note = *self.rng.pick(&[38, 40, 38, 36, 42, 46, 49, 51, 35, 57, 81, 27]);
        }
        v
    }
}

/// A channel's music.
#[derive(Clone, Debug)]
pub struct Part {
    pub ch: u8,
    pub notes: Vec<GNote>,
    pub other: Vec<Ev>,
}

/// Note events of a part in file order.
pub fn part_events(rng: &mut Rng, p: &Part) -> Vec<Ev> {
    // key: (tick, class); ends before starts by default, sometimes sloppy
    let mut evs: Vec<(u64, u64, Ev)> = Vec::new();
    let sloppy = rng.chance(1, 4);
    for n in &p.notes {
        let on_class = if sloppy { rng.below(4) } else { 2 };
        evs.push((n.on, on_class, Ev { tick: n.on, k: K::On { ch: p.ch, note: n.note, vel: n.vel } }));
        if n.off == NEVER {
            continue;
        }
        let off_class = if sloppy && n.off > n.on { rng.below(4) } else { 0 };
        evs.push((n.off, off_class, Ev { tick: n.off, k: K::Off { ch: p.ch, note: n.note, vel: 64 } }));
    }
    for e in &p.other {
        evs.push((e.tick, rng.below(4), e.clone()));
    }
    evs.sort_by_key(|e| (e.0, e.1));
    evs.into_iter().map(|e| e.2).collect()
}

/// Distributes parts over tracks (all of one channel in one track) with the tempo events in front.
pub fn assemble(rng: &mut Rng, tpb: u64, parts: &[Part], tempos: &[Ev]) -> Smf {
    let ntracks = match rng.below(3) {
        0 => 1,
        1 => parts.len().max(1),
        _ => rng.us(1, parts.len().max(1)),
    };
    let conductor = rng.chance(1, 2);
    let mut tracks: Vec<Vec<Ev>> = vec![Vec::new(); ntracks];
    for (i, p) in parts.iter().enumerate() {
        let t = if ntracks == parts.len() { i } else { rng.us(0, ntracks - 1) };
        tracks[t].extend(part_events(rng, p));
    }
    for t in tracks.iter_mut() {
        t.sort_by_key(|e| e.tick);
    }
    if conductor {
        tracks.insert(0, tempos.to_vec());
    } else {
        let mut first = std::mem::replace(&mut tracks[0], vec![]);
        let mut merged = tempos.to_vec();
        if rng.chance(1, 2) {
            std::mem::swap(&mut first, &mut merged);
        }
        merged.extend(first);
        merged.sort_by_key(|e| e.tick);
        tracks[0] = merged;
    }
    let n = tracks.len();
    let eot_delta = (0..n).map(|_| if rng.chance(1, 3) { rng.below(2000) } else { 0 }).collect();
    Smf { tpb: tpb as u16, tracks, eot_delta }
}

pub fn inert_event(rng: &mut Rng, ch: u8, tick: u64) -> Ev {
    let k = match rng.below(6) {
        0 => K::Bend { ch, val: rng.below(16384) as u16 },
        1 => K::Pressure { ch, val: rng.byte(0, 127) },
        2 => K::PolyP { ch, note: rng.byte(0, 127), val: rng.byte(0, 127) },
        3 => K::Cc { ch, ctl: *rng.pick(&[0u8, 1, 2, 3, 4, 6, 8, 10, 11, 32, 38, 39, 64, 66, 67, 68, 69, 84, 91, 93, 96, 98, 99, 100, 101, 120, 121, 122, 123, 124, 125, 126, 127]), val: rng.byte(0, 127) },
        4 => K::Meta(*rng.pick(&[1u8, 2, 3, 4, 5, 6, 7]), (0..rng.below(20)).map(|_| 0x41u8).collect()),
        _ => {
            let mut d: Vec<u8> = (0..rng.below(10)).map(|_| 0x11u8).collect();
            d.push(0xf7);
            K::SysEx(0xf0, d)
        }
    };
    Ev { tick, k }
}

pub fn gen_tempo(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => 0xffffff,
        1 => 1,
        2 => rng.range(1, 50_000) as u32,
        3 => rng.range(1, 0xffffff) as u32,
        4 => (60_000_000 / rng.range(20, 300)) as u32,
        5 => (60_000_000.0 / rng.range(20, 300) as f64).ceil() as u32,
        _ => rng.range(200_000, 1_200_000) as u32,
    }
}

/// A piece of long sections that come again note for note (one voice per channel).
pub fn gen_sections(rng: &mut Rng, many: bool) -> Piece {
    let st = Style { grid: Some(true), sub_step: false, odd_ends: false, ..Style::all() };
    let mut g = Gen::new(rng, &st);
    let tpb = g.tpb;
    let nch = g.rng.us(1, 3);
    let mut parts = Vec::new();
    let mut desc = String::from("sections:");
    for c in 0..nch {
        let k = if many { g.rng.us(20, 60) } else { g.rng.us(40, 240) };
        let reps = if many { g.rng.us(20, 60) } else { g.rng.us(2, 4) };
        let section = g.melody(0, u64::MAX / 8, k);
        let period = section.iter().map(|n| n.off).max().unwrap_or(1);
        // (there is a longest piece)
        let reps = reps.min((20_000 * tpb / period) as usize).max(1);
        let mut notes = Vec::new();
        let mut t = 0;
        for r in 0..reps {
            notes.extend(section.iter().map(|n| GNote { on: n.on + t, off: n.off + t, ..*n }));
            t += period;
            if r + 1 < reps && g.rng.chance(1, 3) {
                let len = g.ticks(6);
                notes.push(GNote { on: t, off: t + len, note: 40 + r as u8, vel: 99 });
                t += len;
            }
        }
        desc.push_str(&format!(" {}x{}", k, reps));
        parts.push(Part { ch: c as u8, notes, other: vec![] });
    }
    let smf = assemble(rng, tpb, &parts, &[]);
    Piece { smf, guaranteed: true, desc, grid: true }
}

/// A whole piece in the given style.
pub fn gen_piece(rng: &mut Rng, st: &Style) -> Piece {
    let mut g = Gen::new(rng, st);
    let tpb = g.tpb;
    let grid = g.grid;
    let mut chans: Vec<u8> = (0..16).collect();
    g.rng.shuffle(&mut chans);
    if !st.drums {
        chans.retain(|&c| c != 9);
    } else if g.rng.chance(1, 2) {
        // percussion more often than one in sixteen
        chans.retain(|&c| c != 9);
        chans.insert(g.rng.below(3) as usize, 9);
    }
    let mode = g.rng.weighted(&[4, 3, 3]);
    let mut parts: Vec<Part> = Vec::new();
    let mut guaranteed = true;
    let total = g.rng.us(3, st.max_notes.max(4));
    let long_end = u64::MAX / 8;
    let mut turns_desc = 0;
    match mode {
        0 => {
            // up to eight voices in separate channels with chords
            let mut budget = 8usize;
            let nch = g.rng.us(1, 8);
            for i in 0..nch {
                if budget == 0 {
                    break;
                }
                let ch = chans[i];
                let p = if g.rng.chance(1, 2) { 1 } else { g.rng.us(1, budget.min(5)) };
                let n = (total / nch).max(1);
                let s0 = if g.rng.chance(1, 2) { 0 } else { g.rng.below(400) };
                let start = if g.rng.chance(1, 2) { 0 } else { g.dur(s0 + 1) };
                let notes = if ch == 9 && p == 1 {
                    g.drums(start, long_end, n)
                } else if p == 1 {
                    if st.repeats && g.rng.chance(1, 2) {
                        g.repeated(start, long_end, n)
                    } else {
                        g.melody(start, long_end, n)
                    }
                } else {
                    g.poly(start, long_end, n, p)
                };
                budget -= p;
                parts.push(Part { ch, notes, other: vec![] });
            }
        }
        1 | _ => {
            // groups of channels taking turns on a voice
            let ngroups = g.rng.us(1, 8);
            let nch = g.rng.us(ngroups, 15);
            for i in 0..nch.min(chans.len()) {
                parts.push(Part { ch: chans[i], notes: vec![], other: vec![] });
            }
            let n_all = parts.len();
            let seg_steps = *g.rng.pick(&[6u64, 24, 48, 96, 200]);
            let segs = g.rng.us(1, 10);
            for gr in 0..ngroups {
                let members: Vec<usize> = (0..n_all).filter(|i| i % ngroups == gr).collect();
                if members.is_empty() {
                    continue;
                }
                let mut t = 0;
                let mut guard = 0;
                while guard < segs {
                    guard += 1;
                    let len = g.dur(seg_steps);
                    let who = *g.rng.pick(&members);
                    let n = (total / (ngroups * segs)).max(1);
                    let ch = parts[who].ch;
                    let poly = mode == 2 && g.rng.chance(1, 6);
                    let notes = if poly {
                        guaranteed = false;
                        g.poly(t, t + len, n, 2)
                    } else if ch == 9 {
                        g.drums(t, t + len, n)
                    } else {
                        g.melody(t, t + len, n)
                    };
                    parts[who].notes.extend(notes);
                    t += len;
                    turns_desc += 1;
                }
            }
            parts.retain(|p| !p.notes.is_empty());
            if parts.is_empty() {
                let notes = g.melody(0, long_end, 4);
                parts.push(Part { ch: 0, notes, other: vec![] });
            }
        }
    }
    // the tool refuses pieces of more than 40960 beats
    for p in parts.iter_mut() {
        p.notes.retain(|n| n.off <= 35000 * tpb);
    }
    parts.retain(|p| !p.notes.is_empty());
    if parts.is_empty() {
        parts.push(Part { ch: chans[0], notes: vec![GNote { on: 0, off: g.ticks(24), note: 60, vel: 100 }], other: vec![] });
    }
    let end = parts.iter().flat_map(|p| p.notes.iter().map(|n| n.off)).max().unwrap_or(1);
    // control events
    for p in parts.iter_mut() {
        let ch = p.ch;
        let mut times: Vec<u64> = p.notes.iter().flat_map(|n| vec![n.on, n.off]).collect();
        times.push(0);
        let pick_time = |g: &mut Gen| -> u64 {
            if g.rng.chance(2, 3) {
                *g.rng.pick(&times)
            } else if g.grid {
                let one = g.ticks(1);
                g.rng.below(end / one + 1) * one
            } else {
                g.rng.below(end + 1)
            }
        };
        if st.controls {
            if g.rng.chance(3, 4) {
                p.other.push(Ev { tick: 0, k: K::Pc { ch, prog: g.rng.byte(0, 127) } });
            }
            for _ in 0..g.rng.weighted(&[4, 2, 1, 1]) {
                let tick = pick_time(&mut g);
                p.other.push(Ev { tick, k: K::Pc { ch, prog: g.rng.byte(0, 127) } });
            }
            for _ in 0..g.rng.weighted(&[4, 2, 1, 1, 1]) {
                let tick = pick_time(&mut g);
                let val = *g.rng.pick(&[0u8, 1, 64, 100, 127, 90]);
                p.other.push(Ev { tick, k: K::Cc { ch, ctl: 7, val } });
            }
        }
        if st.porta && g.rng.chance(2, 3) {
            for _ in 0..g.rng.us(1, 6) {
                let tick = pick_time(&mut g);
                let k = match g.rng.below(4) {
                    0 | 1 => K::Cc { ch, ctl: 65, val: *g.rng.pick(&[0u8, 63, 64, 127, 127, 127]) },
                    2 => K::Cc { ch, ctl: 37, val: g.rng.byte(0, 127) },
                    _ => K::Cc { ch, ctl: 5, val: *g.rng.pick(&[0u8, 0, 1, 2, 9, 127]) },
                };
                p.other.push(Ev { tick, k });
            }
        }
        if st.inert {
            for _ in 0..g.rng.weighted(&[3, 1, 1, 1]) {
                let tick = pick_time(&mut g);
                let e = inert_event(g.rng, ch, tick);
                p.other.push(e);
            }
        }
    }
    let mut tempos = Vec::new();
    if st.tempo {
        let mut times: Vec<u64> = vec![0];
        for p in &parts {
            for n in p.notes.iter().take(40) {
                times.push(n.on);
                times.push(n.off);
                times.push((n.on + n.off) / 2);
            }
        }
        for _ in 0..g.rng.weighted(&[3, 4, 2, 2, 2, 1]) {
            let tick = if g.rng.chance(1, 2) { *g.rng.pick(&times) } else { g.rng.below(end + 1) };
            let tick = if grid {
                let one = g.ticks(1);
                tick / one * one
            } else {
                tick
            };
            let us = gen_tempo(g.rng);
            tempos.push(Ev { tick, k: K::Tempo(us) });
        }
        tempos.sort_by_key(|e| e.tick);
    }
    let desc = format!(
        "mode {} tpb {} grid {} channels {:?} turns {} notes {} end {}",
        mode,
        tpb,
        grid,
        parts.iter().map(|p| p.ch).collect::<Vec<_>>(),
        turns_desc,
        parts.iter().map(|p| p.notes.len()).sum::<usize>(),
        end
    );
    let mut odd = "";
    if st.odd_ends && g.rng.chance(1, 6) {
        // struck again while sounding
        for _ in 0..g.rng.us(1, 4) {
            let i = g.rng.us(0, parts.len() - 1);
            let j = g.rng.us(0, parts[i].notes.len() - 1);
            let n = parts[i].notes[j];
            let steps = (n.off - n.on) * 24 / tpb;
            if steps >= 2 {
                let at = g.rng.range(1, steps - 1);
                let on = n.on + g.ticks(at);
                let off = match g.rng.below(3) {
                    0 => n.off,
                    1 => (on + g.ticks(1)).min(n.off),
                    _ => (on + n.off + 1) / 2 / g.ticks(1) * g.ticks(1),
                };
                if on < n.off && off > on {
                    let vel = g.vel();
                    parts[i].notes.push(GNote { on, off, note: n.note, vel });
                    odd = " struck again";
                }
            }
        }
    }
    if st.odd_ends && g.rng.chance(1, 6) {
        // never ended
        for _ in 0..g.rng.us(1, 2) {
            let i = g.rng.us(0, parts.len() - 1);
            let last = parts[i].notes.iter().map(|n| n.on).max().unwrap_or(0);
            let any = g.rng.chance(1, 4);
            let which: Vec<usize> = (0..parts[i].notes.len()).filter(|&j| any || parts[i].notes[j].on == last).collect();
            let j = *g.rng.pick(&which);
            parts[i].notes[j].off = NEVER;
            guaranteed = guaranteed && mode == 0 && !any;
            odd = " with hanging notes";
        }
    }
    let desc = desc + odd;
    let smf = assemble(g.rng, tpb, &parts, &tempos);
    Piece { smf, guaranteed, desc, grid }
}
