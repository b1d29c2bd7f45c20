//! C07, C08, C10, C11, C12, C18: what is heard compared with the MIDI file.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::nspc::*;
use crate::rom::*;
use crate::smf::*;
use serde_json::json;

fn optimize_flag(case: &mut Case) -> bool {
    case.rng.chance(2, 3)
}

/// The repository's sample pieces, transformed: real music as a workload.
pub fn sample_piece(case: &mut Case) -> Option<Piece> {
    let dir = case.env.repo.join("sample");
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .ok()?
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.extension().map_or(false, |e| e == "mid"))
        .collect();
    files.sort();
    if files.is_empty() {
        return None;
    }
    let f = case.rng.pick(&files).clone();
    let mut smf = Smf::parse(&std::fs::read(&f).ok()?).ok()?;
    let mut desc = f.file_name().unwrap().to_string_lossy().into_owned();
    match case.rng.below(4) {
        0 => {}
        1 => {
            let d = case.rng.us(1, 40) as i32 - 20;
            desc += &format!(" transposed {}", d);
            for t in smf.tracks.iter_mut() {
                for e in t.iter_mut() {
                    match e.k {
                        K::On { ch, ref mut note, .. } | K::Off { ch, ref mut note, .. } if ch != 9 => {
                            *note = (*note as i32 + d).max(0).min(127) as u8
                        }
                        _ => {}
                    }
                }
            }
        }
        2 => {
            let k = case.rng.range(1, 9);
            desc += &format!(" resolution /{}", k);
            smf.tpb = (smf.tpb as u64 * k / 5).max(1).min(32767) as u16;
        }
        _ => {
            let k = case.rng.us(2, 5);
            desc += &format!(" without every {}th channel", k);
            for t in smf.tracks.iter_mut() {
                t.retain(|e| e.k.channel().map_or(true, |c| (c as usize + 1) % k != 0));
                // keep times: absolute ticks are unaffected
            }
        }
    }
    Some(Piece { smf, guaranteed: false, desc, grid: false })
}

fn music_case(case: &mut Case, st: &Style, samples: u64) -> Result<Option<(Piece, Model, Observed)>, Fail> {
    let p = if case.rng.below(100) < samples {
        match sample_piece(case) {
            Some(p) => {
                case.count("real_pieces", 1);
                p
            }
            None => gen_piece(&mut case.rng, st),
        }
    } else {
        gen_piece(&mut case.rng, st)
    };
    let opt = optimize_flag(case);
    let m = Model::of(&p.smf);
    match observe_piece(case, &p, opt)? {
        None => Ok(None),
        Some(o) => {
            if case.verbose {
                println!("{}", p.desc);
            }
            Ok(Some((p, m, o)))
        }
    }
}

pub fn c07(case: &mut Case) -> Res {
    let mut st = Style::all();
    st.porta = case.rng.chance(1, 6);
    let (_, m, o) = match music_case(case, &st, 6)? {
        None => return Ok(()),
        Some(x) => x,
    };
    check_notes(case, &m, &o)
}

fn check_notes(case: &mut Case, m: &Model, o: &Observed) -> Res {
    pair_basic(m, &o.perf).map_err(|e| v(format!("notes: {}", e)))?;
    pair_notes(m, &o.perf, &|n, h| {
        onset_ok(m, n, h) && length_ok(m, n, h).is_ok() && (h.slid.is_none() || n.porta)
    })
    .map_err(|e| v(format!("note lengths: {}", e)))?;
    case.count("notes_expected", m.notes.len() as u64);
    case.count("tied_notes", o.perf.notes.iter().filter(|h| h.ties > 0).count() as u64);
    case.count("folded_pitches", m.notes.iter().filter(|n| n.note < 24 || n.note > 95).count() as u64);
    case.count("very_long_notes", o.perf.notes.iter().filter(|h| h.len > 127 * 2).count() as u64);
    let used: Vec<usize> = o.perf.lengths.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
    case.count("voices", used.len() as u64);
    Ok(())
}

/// A piece timed in seconds, not beats: it cannot be converted by the beat, so it is refused.
fn in_seconds(case: &mut Case) -> Res {
    let mut p = huge_piece(case);
    let rate = *case.rng.pick(&[24i8, 25, 29, 30, 25]);
    let parts = *case.rng.pick(&[1u8, 2, 4, 8, 10, 40, 80, 100, 255]);
    p.smf.tpb = u16::from_be_bytes([(-rate) as u8, parts]);
    let bytes = p.smf.to_bytes(WriteOpts::default());
    case.write("seconds.mid", &bytes);
    case.sig(crate::rng::hash_bytes(&bytes));
    let run = case.run(&["midi2json", "seconds.mid", "seconds.json"]);
    if run.ok() {
        viol!("a piece timed in seconds ({} frames of {} parts) is converted as if it had {} ticks per beat", rate, parts, p.smf.tpb);
    }
    if !run.clean_failure() {
        viol!("a piece timed in seconds: {}", run.brief());
    }
    case.count("pieces_timed_in_seconds", 1);
    Ok(())
}

pub fn c08(case: &mut Case) -> Res {
    if case.rng.chance(1, 60) {
        return in_seconds(case);
    }
    let mut st = Style::all();
    st.long = true;
    st.grid = if case.rng.chance(4, 5) { Some(false) } else { Some(true) };
    st.max_notes = 400;
    st.porta = case.rng.chance(1, 6);
    // a very long rest and very long notes now and then
    let huge = case.rng.chance(1, 12);
    let (p, m, o) = if huge {
        let p = huge_piece(case);
        let m = Model::of(&p.smf);
        case.count("huge_pieces", 1);
        match observe_piece(case, &p, true)? {
            None => return Ok(()),
            Some(o) => (p, m, o),
        }
    } else {
        match music_case(case, &st, 4)? {
            None => return Ok(()),
            Some(x) => x,
        }
    };
    if m.notes.is_empty() {
        return Ok(());
    }
    check_notes(case, &m, &o)?;
    let (lo, hi) = (m.floor(m.end), m.ceil(m.end));
    for (i, l) in o.perf.lengths.iter().enumerate() {
        if let Some(l) = *l {
            if l < lo || l > hi {
                viol!("track {} lasts {} steps, the piece {:.3} ({})", i, l, m.end as f64 * 24.0 / m.tpb as f64, p.desc);
            }
            case.count("track_lengths_checked", 1);
        }
    }
    for &(t, step, _) in &o.perf.tempos {
        // every tempo command is within a step of some tempo event
        if !m.tempos.iter().any(|&(tick, _)| step >= m.floor(tick.min(m.end)) && step <= m.ceil(tick.min(m.end))) {
            viol!("tempo command on track {} at step {} matches no tempo event", t, step);
        }
    }
    if 24 % m.tpb != 0 && m.tpb % 24 != 0 {
        case.count("odd_resolutions", 1);
    }
    case.count("steps_played", o.perf.lengths.iter().flatten().sum());
    Ok(())
}

fn huge_piece(case: &mut Case) -> Piece {
    let rng = &mut case.rng;
    let tpb = *rng.pick(&[1u64, 24, 96, 100, 480, 960, 1000, 7, 15360, 32766, 32767]);
    let nch = rng.us(1, 3);
    // at most 40960 beats in all, 0x0fffffff ticks between two events
    let most = (0x0fff_ffff / tpb - 2).min(5600);
    let mut parts = vec![];
    for ch in 0..nch {
        let mut t = 0u64;
        let mut notes = vec![];
        for _ in 0..rng.us(1, 3) {
            t += tpb * rng.range(0, most);
            let d = (tpb * rng.range(0, most) + rng.below(tpb)).max(tpb);
            notes.push(GNote { on: t, off: t + d, note: rng.byte(24, 95), vel: 100 });
            t += d;
        }
        // some short notes afterwards to see the drift
        for _ in 0..20 {
            let d = (tpb / 2).max(1);
            notes.push(GNote { on: t, off: t + d, note: rng.byte(24, 95), vel: 90 });
            t += d;
        }
        parts.push(Part { ch: ch as u8, notes, other: vec![] });
    }
    let smf = assemble(rng, tpb, &parts, &[]);
    Piece { smf, guaranteed: true, desc: format!("huge tpb {} channels {}", tpb, nch), grid: tpb % 24 == 0 }
}

pub fn c10(case: &mut Case) -> Res {
    let mut st = Style::all();
    st.tempo = false;
    st.porta = case.rng.chance(1, 6);
    st.max_notes = 120;
    st.long = false;
    let (_, m, o) = match music_case(case, &st, 4)? {
        None => return Ok(()),
        Some(x) => x,
    };
    if m.notes.iter().any(|n| n.off.is_none()) {
        case.count("pieces_with_hanging_notes", 1);
    }
    let instr_ok = |n: &Note, h: &Heard| match n.instrument() {
        Some(i) => h.instr == Some(i),
        None => h.instr.map_or(true, |i| i == instrument_for(0)),
    };
    let vol_ok = |n: &Note, h: &Heard| match h.vol {
        Some(x) => x == n.vol * 2 || n.vol_alt.iter().any(|&a| a * 2 == x),
        None => false,
    };
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && instr_ok(n, h))
        .map_err(|e| v(format!("instruments: {}", e)))?;
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && vol_ok(n, h)).map_err(|e| v(format!("volumes: {}", e)))?;
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && vol_ok(n, h) && instr_ok(n, h))
        .map_err(|e| v(format!("instruments and volumes: {}", e)))?;
    // while a note sounds, its voice follows the channel's volume and keeps its instrument
    let hold_ok = |n: &Note, h: &Heard| {
        let end = (h.start + h.len).min(m.floor(n.off.unwrap_or(m.end)));
        let inner: Vec<&(u64, u8, Vec<u8>)> = h.changes.iter().filter(|c| c.0 > h.start && c.0 < end).collect();
        if inner.iter().any(|c| c.1 == 0xe0 && Some(c.2[0]) != h.instr) {
            return false;
        }
        let mut at: Vec<u64> = inner.iter().map(|c| c.0).collect();
        for &(t, _) in &n.vol_during {
            at.push(m.floor(t));
            at.push(m.ceil(t));
        }
        at.into_iter().filter(|&s| s > h.start.max(m.ceil(n.on)) && s < end).all(|s| {
            let now = h.changes.iter().filter(|c| c.0 <= s && c.1 == 0xed).last().map(|c| c.2[0]).or(h.vol);
            let sure = n.vol_during.iter().filter(|e| m.ceil(e.0) <= s).last().map_or(n.vol, |e| e.1);
            let maybe = n.vol_during.iter().filter(|e| m.floor(e.0) <= s && s < m.ceil(e.0)).map(|e| e.1);
            maybe.chain(Some(sure)).any(|x| now == Some(x * 2))
        })
    };
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && vol_ok(n, h) && instr_ok(n, h) && hold_ok(n, h))
        .map_err(|e| v(format!("volume or instrument while the note sounds: {}", e)))?;
    case.count("volume_changes_in_notes", m.notes.iter().map(|n| n.vol_during.len() as u64).sum());
    case.count("percussion_notes", m.notes.iter().filter(|n| n.ch == 9).count() as u64);
    case.count("notes_with_program", m.notes.iter().filter(|n| n.prog.is_some()).count() as u64);
    case.count("notes_with_own_volume", m.notes.iter().filter(|n| n.vol != 100).count() as u64);
    // voices on which several channels were heard
    let mate = pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && vol_ok(n, h) && instr_ok(n, h)).unwrap();
    for t in 0..8 {
        let mut chs: Vec<u8> =
            o.perf.notes.iter().enumerate().filter(|x| x.1.track == t).map(|x| m.notes[mate[x.0]].ch).collect();
        chs.sort();
        chs.dedup();
        if chs.len() > 1 {
            case.count("shared_voices", 1);
        }
    }
    Ok(())
}

pub fn c11(case: &mut Case) -> Res {
    let mut st = Style::all();
    st.tempo = case.rng.chance(1, 4);
    st.controls = case.rng.chance(1, 3);
    st.porta = case.rng.chance(1, 4);
    st.grid = if case.rng.chance(3, 4) { Some(true) } else { None };
    let (_, m, o) = match music_case(case, &st, 4)? {
        None => return Ok(()),
        Some(x) => x,
    };
    let vel_ok = |n: &Note, h: &Heard| h.vel == Some((n.vel / 8).max(1));
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && vel_ok(n, h)).map_err(|e| v(format!("velocity: {}", e)))?;
    let art_ok = |n: &Note, h: &Heard| -> bool {
        if h.slid.is_some() {
            return true;
        }
        let q = match h.q {
            Some(q) if q >= 1 && q <= 7 => q as u64,
            _ => return false,
        };
        let off = n.off.unwrap_or(m.end);
        for e in [m.floor(off), m.ceil(off)] {
            if e <= h.start {
                continue;
            }
            let l = e - h.start;
            if h.ties > 0 {
                if h.len == l && q == 7 {
                    return true;
                }
                continue;
            }
            if h.len > 127 {
                return false;
            }
            if h.len == l && q == 7 {
                return true;
            }
            if h.len > l && 8 * l == h.len * q {
                return true;
            }
            if h.len > l && q == 7 && 8 * (l + 1) >= 7 * h.len {
                return true;
            }
        }
        !m.required(n)
    };
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && vel_ok(n, h) && art_ok(n, h))
        .map_err(|e| v(format!("articulation: {}", e)))?;
    case.count("soft_notes", m.notes.iter().filter(|n| n.vel < 8).count() as u64);
    for h in &o.perf.notes {
        case.count(&format!("articulation_{}", h.q.unwrap_or(0)), 1);
    }
    Ok(())
}

/// The tempo values acceptable for an event.
fn tempo_ok(us: u32, factor: f64, val: u8) -> bool {
    let check = |bpm: f64| {
        let x = (bpm * factor).floor();
        for d in [-1.0f64, 0.0, 1.0] {
            let y = (x + d).max(1.0).min(255.0);
            if y as u8 == val {
                return true;
            }
        }
        false
    };
    if us == 0 {
        // (endless speed times zero is anything)
        return if factor == 0.0 { val > 0 } else { val == if factor > 0.0 { 255 } else { 1 } };
    }
    let x = 6e7 / us as f64;
    check((x * (1.0 - 1e-6)).ceil()) || check((x * (1.0 + 1e-6)).ceil()) || check(x.ceil())
}

pub fn c12(case: &mut Case) -> Res {
    let mut st = Style::all();
    st.controls = case.rng.chance(1, 3);
    st.max_notes = 80;
    st.inert = false;
    let p = if case.rng.chance(1, 16) { sample_piece(case) } else { None };
    let mut p = match p {
        Some(p) => p,
        None => gen_piece(&mut case.rng, &st),
    };
    if case.rng.chance(1, 3) {
        // a dense tempo curve
        let end = Model::of(&p.smf).end.max(1);
        let n = case.rng.us(5, 40);
        let mut extra: Vec<Ev> = (0..n)
            .map(|i| Ev { tick: end * i as u64 / n as u64, k: K::Tempo(400_000 + 7919 * i as u32) })
            .collect();
        // all tempo events must be in one track for their order to be defined
        for t in p.smf.tracks.iter_mut() {
            t.retain(|e| !matches!(e.k, K::Tempo(_)));
        }
        p.smf.tracks[0].append(&mut extra);
        p.smf.tracks[0].sort_by_key(|e| e.tick);
    }
    let m = Model::of(&p.smf);
    let opt = optimize_flag(case);
    let (factor, o) = if case.rng.chance(1, 3) {
        match observe_piece(case, &p, opt)? {
            None => return Ok(()),
            Some(o) => (0.2f64, o),
        }
    } else {
        let factor = match case.rng.below(5) {
            0 => 1.0,
            1 => 0.5,
            2 => case.rng.range(1, 3000) as f64 / 1000.0,
            3 => 0.3,
            _ => *case.rng.pick(&[0.01, 0.125, 2.5, 10.0, 0.0, -0.0, -1.0, -300.0, 1e-30, 1e6, 1e30]),
        };
        let b = piece_bytes(case, &p);
        case.write("song.mid", &b);
        case.write("none.json", br#"{"parts":[{"tracks":[]}],"tracks":[]}"#);
        let man = super::build::manifest_with(|b, i| {
            if (b, i) == (0, 10) {
                json!({"input": "song.mid", "tempoAdjust": factor})
            } else {
                json!({"input": "none.json"})
            }
        });
        case.write("m.json", man.to_string().as_bytes());
        let rom = RomCfg::single(0x2f00, 0xa000).build();
        case.write("out.smc", &rom.data);
        let run = if opt { case.run(&["build_rom", "m.json", "out.smc"]) } else { case.run(&["-s", "build_rom", "m.json", "out.smc"]) };
        match why_rejected(case, "song.mid", &run) {
            Some(Why::Space) => return Ok(()),
            Some(Why::Piece) if !p.guaranteed => return Ok(()),
            _ => {}
        }
        case.judge_ok(&run)?;
        let out = Rom { data: case.read("out.smc"), ptrs: rom.ptrs };
        (factor as f32 as f64, decode_file_select(&out)?)
    };
    let want: Vec<(u64, u32)> = m.tempos.iter().cloned().filter(|t| t.0 <= m.end).collect();
    let late = m.tempos.len() - want.len();
    let got = &o.perf.tempos;
    if let Some(t) = got.iter().find(|t| t.0 != 0) {
        viol!("tempo command on track {}: {:?}", t.0, t);
    }
    if got.len() < want.len() || got.len() > want.len() + late {
        viol!("{} tempo events (and {} after the end), {} tempo commands: {:?} vs {:?}", want.len(), late, got.len(), want, got);
    }
    for (i, &(tick, us)) in want.iter().enumerate() {
        let (_, step, val) = got[i];
        if step < m.floor(tick) || step > m.ceil(tick) {
            viol!(
                "tempo event {} of {} at step {:.3} appears at step {} ({})",
                i,
                want.len(),
                tick as f64 * 24.0 / m.tpb as f64,
                step,
                p.desc
            );
        }
        if !tempo_ok(us, factor, val) {
            viol!("tempo {} us/beat with factor {} gives {} (event {})", us, factor, val, i);
        }
        case.count("tempo_events", 1);
        if o.perf.notes.iter().any(|h| h.track == 0 && h.start < step && step < h.start + h.len) {
            case.count("tempo_during_note", 1);
        }
    }
    pair_basic(&m, &o.perf).map_err(|e| v(format!("notes moved by tempo events: {}", e)))?;
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && length_ok(&m, n, h).is_ok())
        .map_err(|e| v(format!("note lengths: {}", e)))?;
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Slide {
    Must,
    MustNot,
    Either,
}

pub fn c18(case: &mut Case) -> Res {
    let rng = &mut case.rng;
    let grid = rng.chance(3, 4);
    // notes too short to be heard among the others
    let sub_step = rng.chance(1, 2);
    let st = Style { grid: Some(grid), porta: false, controls: false, tempo: false, inert: false, drums: false, long: true, sub_step, max_notes: 60, repeats: true, odd_ends: false };
    let mut g = Gen::new(rng, &st);
    let tpb = g.tpb;
    // monophonic channels, some of them taking turns
    let nch = g.rng.us(1, 5);
    let turns = g.rng.chance(1, 2);
    let mut parts: Vec<Part> = (0..nch).map(|c| Part { ch: if c == 4 { 10 } else { c as u8 }, notes: vec![], other: vec![] }).collect();
    if turns {
        let mut t = 0;
        for _ in 0..g.rng.us(2, 12) {
            let c = g.rng.us(0, nch - 1);
            let s = *g.rng.pick(&[24u64, 48, 96]);
            let len = g.dur(s);
            let _ = g.rng.next();
            let notes = g.melody(t, t + len, 8);
            parts[c].notes.extend(notes);
            t += len;
        }
    } else {
        for c in 0..nch {
            let n = g.rng.us(2, 25);
            parts[c].notes = if g.rng.chance(1, 2) { g.melody(0, u64::MAX / 8, n) } else { g.repeated(0, u64::MAX / 8, n) };
        }
    }
    parts.retain(|p| !p.notes.is_empty());
    if parts.is_empty() {
        return Ok(());
    }
    for p in parts.iter_mut() {
        let ch = p.ch;
        let mut times: Vec<u64> = vec![0];
        for n in &p.notes {
            times.push(n.on);
            times.push((n.on + n.off) / 2);
        }
        if g.rng.chance(4, 5) {
            p.other.push(Ev { tick: 0, k: K::Cc { ch, ctl: 65, val: 127 } });
        }
        if g.rng.chance(4, 5) {
            p.other.push(Ev { tick: 0, k: K::Cc { ch, ctl: 37, val: g.rng.byte(0, 127) } });
        }
        for _ in 0..g.rng.us(0, 6) {
            let tick = *g.rng.pick(&times);
            let k = match g.rng.below(6) {
                0 | 1 => K::Cc { ch, ctl: 65, val: *g.rng.pick(&[0u8, 63, 64, 127]) },
                2 => K::Cc { ch, ctl: 37, val: g.rng.byte(0, 127) },
                3 => K::Cc { ch, ctl: 5, val: *g.rng.pick(&[0u8, 0, 1, 3, 127]) },
                4 => K::Cc { ch, ctl: 7, val: g.rng.byte(0, 127) },
                _ => K::Pc { ch, prog: g.rng.byte(0, 127) },
            };
            p.other.push(Ev { tick, k });
        }
    }
    let smf = assemble(g.rng, tpb, &parts, &[]);
    let p = Piece { smf, guaranteed: true, desc: format!("portamento tpb {} channels {} turns {}", tpb, nch, turns), grid };
    let m = Model::of(&p.smf);
    let opt = optimize_flag(case);
    let o = match observe_piece(case, &p, opt)? {
        None => return Ok(()),
        Some(o) => o,
    };
    // classify
    let mut class: Vec<Slide> = Vec::new();
    for (i, n) in m.notes.iter().enumerate() {
        let pred = if i > 0 && m.notes[i - 1].ch == n.ch { Some(&m.notes[i - 1]) } else { None };
        let c = if !n.porta {
            Slide::MustNot
        } else {
            // latest end of any note of any channel not after this note
            let near_other = m.notes.iter().enumerate().any(|(j, q)| {
                j != i && q.ch != n.ch && q.off.map_or(true, |o| m.ceil(o) >= m.floor(n.on) && m.floor(q.on) <= m.ceil(n.on))
            });
            let gap = match pred {
                None => true,
                Some(p) => m.floor(n.on) > m.ceil(p.off.unwrap()),
            };
            if gap && !near_other {
                Slide::MustNot
            } else if let Some(pr) = pred {
                let quiet = !parts.iter().filter(|p| p.ch == n.ch).any(|p| {
                    p.other.iter().any(|e| {
                        e.tick > pr.on
                            && e.tick <= n.on
                            && (matches!(e.k, K::Pc { .. }) || matches!(e.k, K::Cc { ctl: 7, .. }))
                    })
                });
                if pr.off == Some(n.on) && quiet && m.required(pr) && m.required(n) {
                    Slide::Must
                } else {
                    Slide::Either
                }
            } else {
                Slide::Either
            }
        };
        class.push(c);
    }
    for c in &class {
        case.count(&format!("class_{:?}", c), 1);
    }
    pair_basic(&m, &o.perf).map_err(|e| v(format!("notes: {}", e)))?;
    let idx_of = |n: &Note| m.notes.iter().position(|q| std::ptr::eq(q, n)).unwrap();
    pair_notes(&m, &o.perf, &|n, h| {
        onset_ok(&m, n, h)
            && match class[idx_of(n)] {
                Slide::Must => h.slid.is_some(),
                Slide::MustNot => h.slid.is_none(),
                Slide::Either => true,
            }
    })
    .map_err(|e| v(format!("slid or struck: {}", e)))?;
    let timing = |n: &Note, h: &Heard| -> bool {
        match h.slid {
            None => true,
            Some((delay, time, s0, d0)) => {
                let want = m.ceil(n.port_time as u64).max(1).min(127) as u8;
                time == want && delay == d0 - want.min(d0) && s0 + d0 as u64 == h.start
            }
        }
    };
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && timing(n, h) && length_ok(&m, n, h).is_ok())
        .map_err(|e| v(format!("slide timing: {}", e)))?;
    case.count("slides", o.perf.notes.iter().filter(|h| h.slid.is_some()).count() as u64);
    if p.smf.tracks.is_empty() {
        incon!("no tracks");
    }
    Ok(())
}
