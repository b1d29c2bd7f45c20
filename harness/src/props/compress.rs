//! C05, C06, C14: loop compression, command streams, JSON.
use super::build::{self, TestSong};
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::nspc::*;
use crate::rng::{hash_bytes, Rng};
use crate::rom::*;
use crate::smf::*;
use crate::song::{self, Cmd, GenSong, Song};
use serde_json::{json, Value};

/// A one-channel piece made of a phrase of `k` notes played `n` times, and how many voices get it.
fn phrase_piece(rng: &mut Rng) -> (Smf, usize, usize, String) {
    let tpb = *rng.pick(&[24u64, 48, 96, 480]);
    let one = tpb / 24;
    let k = rng.us(4, 14);
    let n = match rng.below(6) {
        0 => 3,
        1 => rng.us(3, 6),
        2 => rng.us(4, 40),
        3 => rng.us(250, 262),
        4 => *rng.pick(&[254usize, 255, 256, 257, 509, 510, 511, 512, 513]),
        _ => rng.us(30, 300),
    };
    let n = if k * n > 2600 { (2600 / k).max(3) } else { n };
    // k different notes without rests: one command each
    let mut pool: Vec<u8> = (24..=95).collect();
    rng.shuffle(&mut pool);
    let mut durs = vec![];
    for _ in 0..k {
        durs.push(*rng.pick(&[1u64, 2, 3, 6, 12, 24]) * one);
    }
    let vel = rng.byte(8, 127);
    let copies = if rng.chance(1, 4) { 2 } else { 1 };
    let mut parts = vec![];
    for c in 0..copies {
        let mut t = 0;
        let mut notes = vec![];
        for _ in 0..n {
            for j in 0..k {
                notes.push(GNote { on: t, off: t + durs[j], note: pool[j], vel });
                t += durs[j];
            }
        }
        parts.push(Part { ch: c as u8, notes, other: vec![] });
    }
    let smf = assemble(rng, tpb, &parts, &[]);
    (smf, k, n * copies, format!("phrase of {} notes, {} times on {} channels", k, n, copies))
}

/// Pieces whose repetitions are hard on the compression: near-repeats, runs of equal notes,
/// overlapping periods, the same phrase on several channels at different times.
fn tricky_piece(rng: &mut Rng, st: &Style) -> Piece {
    let g = Gen::new(rng, st);
    let tpb = g.tpb;
    let one = g.ticks(1).max(1);
    let nch = g.rng.us(1, 5);
    let alphabet = g.rng.us(1, 5) as u8;
    let shared: Vec<(u8, u64, u64, u8)> = (0..g.rng.us(3, 10))
        .map(|_| {
            (
                60 + g.rng.below(alphabet as u64) as u8,
                *g.rng.pick(&[1u64, 2, 6, 12, 12, 12, 130]),
                *g.rng.pick(&[0u64, 0, 0, 1, 2, 12]),
                *g.rng.pick(&[100u8, 100, 40]),
            )
        })
        .collect();
    let mut parts = vec![];
    let len = g.rng.us(8, 90);
    for c in 0..nch {
        let mut t = 0u64;
        let mut notes = vec![];
        while notes.len() < len {
            if g.rng.chance(3, 4) {
                let reps = *g.rng.pick(&[1usize, 1, 2, 3, 5]);
                let a = g.rng.us(0, shared.len() - 1);
                let b = if g.rng.chance(1, 2) { shared.len() } else { g.rng.us(a + 1, shared.len()) };
                for _ in 0..reps {
                    // sometimes one note of the phrase differs in a single respect
                    let odd = if g.rng.chance(1, 4) { g.rng.us(a, b - 1) } else { usize::MAX };
                    for i in a..b {
                        let (mut note, mut d, mut gap, mut vel) = shared[i];
                        if i == odd {
                            match g.rng.below(6) {
                                0 | 1 if d >= 2 => {
                                    // the same time with another articulation
                                    let cut = *g.rng.pick(&[(d + gap) / 2, d / 2, 1, d / 4, d - 1]);
                                    let cut = cut.min(d - 1);
                                    d -= cut;
                                    gap += cut;
                                }
                                2 if gap > 0 => {
                                    d += gap;
                                    gap = 0;
                                }
                                3 => vel = *g.rng.pick(&[96u8, 104, 32, 48, 127]),
                                4 => note += g.rng.byte(0, 12),
                                _ => d += 1,
                            }
                        }
                        let d = d * one;
                        notes.push(GNote { on: t, off: t + d, note, vel });
                        t += d + gap * one;
                    }
                }
            } else {
                for _ in 0..g.rng.us(1, 6) {
                    let note = 60 + g.rng.below(alphabet as u64) as u8;
                    let d = *g.rng.pick(&[1u64, 6, 12]) * one;
                    notes.push(GNote { on: t, off: t + d, note, vel: 100 });
                    t += d;
                }
            }
        }
        let mut other = vec![];
        if st.porta && g.rng.chance(3, 4) {
            let ch = c as u8;
            other.push(Ev { tick: 0, k: K::Cc { ch, ctl: 65, val: 127 } });
            other.push(Ev { tick: 0, k: K::Cc { ch, ctl: 37, val: g.rng.byte(0, 40) } });
            for _ in 0..g.rng.us(0, 4) {
                let tick = g.rng.below(t + 1) / one * one;
                other.push(Ev { tick, k: K::Cc { ch, ctl: 65, val: *g.rng.pick(&[0u8, 127]) } });
            }
        }
        for _ in 0..g.rng.us(0, 6) {
            let n = g.rng.us(0, notes.len() - 1);
            let tick = notes[n].on;
            let ch = c as u8;
            let k = match g.rng.below(2) {
                0 => K::Pc { ch, prog: *g.rng.pick(&[0u8, 40, 56]) },
                _ => K::Cc { ch, ctl: 7, val: *g.rng.pick(&[100u8, 50]) },
            };
            other.push(Ev { tick, k });
        }
        parts.push(Part { ch: c as u8, notes, other });
    }
    let smf = assemble(g.rng, tpb, &parts, &[]);
    Piece { smf, guaranteed: true, desc: format!("tricky tpb {} channels {} alphabet {}", tpb, nch, alphabet), grid: true }
}

fn same_items(a: &[Item], b: &[Item]) -> Result<(), String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(Item::Play { op: REST, dur: x, .. }), Some(Item::Play { op: REST, dur: y, .. })) if x == y => {}
            (x, y) if x == y => {}
            (x, y) => {
                return Err(format!(
                    "step {} of {}/{}: unoptimised {:x?}, optimised {:x?}",
                    i,
                    a.len(),
                    b.len(),
                    x,
                    y
                ))
            }
        }
    }
    Ok(())
}

pub fn c05(case: &mut Case) -> Res {
    let mut phrase = None;
    let p = match case.rng.weighted(&[4, 4, 6, 1]) {
        0 => {
            let mut st = Style::all();
            st.porta = case.rng.chance(1, 2);
            st.max_notes = 200;
            st.long = case.rng.chance(1, 4);
            gen_piece(&mut case.rng, &st)
        }
        1 => {
            let (smf, k, n, desc) = phrase_piece(&mut case.rng);
            phrase = Some((k, n));
            Piece { smf, guaranteed: true, desc, grid: true }
        }
        2 => {
            let mut st = Style::all();
            st.grid = Some(true);
            st.porta = case.rng.chance(1, 2);
            tricky_piece(&mut case.rng, &st)
        }
        _ => match super::music::sample_piece(case) {
            Some(p) => p,
            None => return Ok(()),
        },
    };
    let b = piece_bytes(case, &p);
    case.write("song.mid", &b);
    let r = case.run(&["midi2json", "song.mid", "opt.json"]);
    if r.clean_failure() && !p.guaranteed {
        case.count("rejected_for_voices", 1);
        return Ok(());
    }
    case.judge_ok(&r)?;
    case.must(&["-s", "midi2json", "song.mid", "plain.json"])?;
    let opt = Song::from_json(&case.read("opt.json")).map_err(|e| v(format!("optimised JSON: {}", e)))?;
    let plain = Song::from_json(&case.read("plain.json")).map_err(|e| v(format!("plain JSON: {}", e)))?;
    if opt.part.len() != plain.part.len() {
        viol!("{} tracks optimised, {} plain", opt.part.len(), plain.part.len());
    }
    for i in 0..plain.part.len() {
        if plain.tracks[plain.part[i]].iter().any(|c| c.op == CALL) {
            viol!("loop call in the unoptimised song");
        }
        let a = plain.flatten(plain.part[i]).map_err(|e| v(format!("plain track {}: {}", i, e)))?;
        let b = opt.flatten(opt.part[i]).map_err(|e| v(format!("optimised track {}: {}", i, e)))?;
        if a != b {
            let k = a.iter().zip(&b).position(|x| x.0 != x.1).unwrap_or(a.len().min(b.len()));
            viol!(
                "track {} differs at command {} ({} plain, {} optimised commands): {:?} / {:?}; {}",
                i,
                k,
                a.len(),
                b.len(),
                a.get(k),
                b.get(k),
                p.desc
            );
        }
        case.count("commands_compared", a.len() as u64);
    }
    let bodies = opt.tracks.len() - opt.part.len();
    case.count("loop_bodies", bodies as u64);
    let mut called = vec![false; opt.tracks.len()];
    for t in &opt.tracks {
        for c in t.iter().filter(|c| c.op == CALL) {
            if c.args[1] < 1 || c.args[1] > 255 {
                viol!("loop call with count {}", c.args[1]);
            }
            if opt.part.contains(&c.args[0]) {
                viol!("loop call to a top-level track");
            }
            called[c.args[0]] = true;
            case.count("loop_calls", 1);
            if c.args[1] > 100 {
                case.count("loop_calls_over_100", 1);
            }
        }
    }
    for t in opt.part.len()..opt.tracks.len() {
        if opt.tracks[t].iter().any(|c| c.op == CALL) {
            viol!("loop call inside a loop body");
        }
    }
    if opt.total_commands() > plain.total_commands() {
        viol!("optimisation made the song longer: {} commands, {} before; {}", opt.total_commands(), plain.total_commands(), p.desc);
    }
    if let Some((k, n)) = phrase {
        if opt.total_commands() >= plain.total_commands() {
            viol!("a phrase of {} commands repeated {} times did not get smaller ({} commands)", k, n, plain.total_commands());
        }
        case.count("phrases", 1);
    }
    case.count("commands_saved", (plain.total_commands() - opt.total_commands()) as u64);
    if opt.total_commands() == plain.total_commands() {
        case.count("songs_without_loops", 1);
    }
    // the same through the ROM, where the driver state is carried through the calls
    let o = match observe_midi(case, &b, true, "opt") {
        Err(Fail::Inconclusive(m)) if m.contains("too large") => None,
        r => Some(r?),
    };
    let u = match observe_midi(case, &b, false, "plain") {
        Err(Fail::Inconclusive(m)) if m.contains("too large") => None,
        r => Some(r?),
    };
    // whichever command builds it, the plain song has no loops and the optimised one those of its export
    let calls: usize = opt.tracks.iter().flatten().filter(|c| c.op == CALL).count();
    let how = case.rng.below(3);
    for (obs, optimize, want) in [(&o, true, calls), (&u, false, 0)] {
        let n = match (how, obs) {
            (0, Some(x)) => x.slot.song.tracks.iter().flatten().map(|t| t.calls.len()).sum(),
            (1, Some(_)) => match rom_of(case, "song.mid", true, optimize, "how.smc")? {
                Some((_, slot)) => slot.song.tracks.iter().flatten().map(|t| t.calls.len()).sum::<usize>(),
                None => continue,
            },
            (2, Some(_)) => {
                let rom = RomCfg::roomy().build();
                case.write("how.smc", &rom.data);
                let args: &[&str] = if optimize { &["all_overworld", "song.mid", "how.smc"] } else { &["-s", "all_overworld", "song.mid", "how.smc"] };
                if !case.run(args).ok() {
                    continue;
                }
                let after = Rom { data: case.read("how.smc"), ptrs: rom.ptrs };
                let bi = after.bank(0).map_err(v)?;
                let slot = after.decode_slot(&bi, 0, case.rng.us(0, 14)).map_err(v)?;
                slot.song.tracks.iter().flatten().map(|t| t.calls.len()).sum()
            }
            _ => continue,
        };
        if n != want {
            viol!("{}: the song in the ROM has {} loop calls, its export {}", case.last_cmd, n, want);
        }
        case.count(["counted_for_file_select", "counted_for_build_rom", "counted_for_all_overworld"][how as usize], 1);
    }
    match (o, u) {
        (Some(o), Some(u)) => {
            for i in 0..8 {
                match (&u.slot.song.tracks[i], &o.slot.song.tracks[i]) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        same_items(&a.items, &b.items).map_err(|e| v(format!("in the ROM, track {}: {}; {}", i, e, p.desc)))?;
                        case.count("driver_steps_compared", a.items.len() as u64);
                    }
                    _ => viol!("track {} present only in one of the songs", i),
                }
            }
        }
        (None, Some(_)) => viol!("the optimised song does not fit where the plain one does"),
        _ => case.count("too_large", 1),
    }
    Ok(())
}

/// Puts songs into the File Select slot through a manifest and decodes it.
fn rom_of(case: &mut Case, file: &str, looped: bool, optimize: bool, out: &str) -> Result<Option<(Rom, SlotSong)>, Fail> {
    case.write("none.json", br#"{"parts":[{"tracks":[]}],"tracks":[]}"#);
    let man = build::manifest_with(|b, i| {
        if (b, i) == (0, 10) {
            json!({"input": file, "loop": looped})
        } else {
            json!({"input": "none.json", "loop": false})
        }
    });
    case.write("m.json", man.to_string().as_bytes());
    let rom = RomCfg::single(0x2f00, 0xa000).build();
    case.write(out, &rom.data);
    let mut args = vec![];
    if !optimize {
        args.push("-s");
    }
    args.extend(&["build_rom", "m.json", out]);
    let run = case.run(&args);
    if let Some(Why::Space) = why_rejected(case, file, &run) {
        case.count("too_large", 1);
        return Ok(None);
    }
    case.judge_ok(&run)?;
    let after = Rom { data: case.read(out), ptrs: rom.ptrs };
    let bi = after.bank(0).map_err(v)?;
    let s = after.decode_slot(&bi, 0, 10).map_err(v)?;
    Ok(Some((after, s)))
}

/// counts the command kinds of a song
fn count_ops(case: &mut Case, s: &Song) {
    for t in &s.tracks {
        for c in t {
            let name = match c.op {
                0x80..=0xc7 => "op_note".to_string(),
                op => format!("op_{:02x}", op),
            };
            case.count(&name, 1);
        }
    }
}

/// A song with one thing in it that no stream can express: it is refused.
fn inexpressible(case: &mut Case) -> Res {
    let gs = GenSong { max_tracks: case.rng.us(1, 8), max_cmds: *case.rng.pick(&[2usize, 8, 40]), loops: case.rng.chance(1, 2), all_ops: case.rng.chance(1, 2) };
    let mut s = gs.gen(&mut case.rng);
    s.drop_uncalled();
    let tracks: Vec<usize> = (0..s.tracks.len()).filter(|&i| !s.tracks[i].is_empty()).collect();
    if tracks.is_empty() {
        return Ok(());
    }
    let t = *case.rng.pick(&tracks);
    let mut val = s.to_value();
    let rng = &mut case.rng;
    let high = |rng: &mut Rng, from: u8| match rng.below(4) {
        0 => from,
        1 => 255,
        2 => (from as u64 + rng.below(8)) as u8,
        _ => rng.byte(from, 255),
    };
    let kind = rng.below(5);
    let cmds = val["tracks"][t]["commands"].as_array_mut().unwrap();
    let at = rng.us(0, cmds.len());
    let mut new = json!({"duration": 12, "velocity": 9, "sustain": 6, "command": {"Note": rng.byte(0x80, 0xc7)}});
    match kind {
        0 => {
            let n = *rng.pick(&[0u8, 1, 0x3c, 0x7f, 0xc8, 0xc9, 0xe0, 0xef, 0xf9, 0xff]);
            new["command"] = json!({ "Note": n });
        }
        1 => new["duration"] = json!(high(rng, 0x80)),
        2 => new["velocity"] = json!(high(rng, 16)),
        3 => new["sustain"] = json!(high(rng, 8)),
        _ => {
            // a velocity or articulation before any duration
            let (v, q) = *rng.pick(&[(Some(9), None), (None, Some(5)), (Some(15), Some(7))]);
            let d = *rng.pick(&[None, Some(0)]);
            new["duration"] = json!(d);
            new["velocity"] = json!(v);
            new["sustain"] = json!(q);
        }
    }
    // something other than a note may carry it as well
    if kind > 0 && rng.chance(1, 3) {
        new["command"] = rng.pick(&[json!("Tie"), json!("Rest"), json!({"Pan": 10}), json!("EchoOff")]).clone();
    }
    if kind < 4 && at < cmds.len() && rng.chance(1, 2) && cmds[at]["command"].get("CallLoop").is_none() {
        // in place of a command, whose other values stay
        let field = ["command", "duration", "velocity", "sustain"][kind as usize];
        cmds[at][field] = new[field].clone();
    } else {
        cmds.insert(if kind == 4 { 0 } else { at }, new.clone());
    }
    let text = val.to_string();
    case.write("bad.json", text.as_bytes());
    case.sig(hash_bytes(text.as_bytes()));
    let rom = RomCfg::single(0x2f00, 0xa000).build();
    case.write("bad.smc", &rom.data);
    let run = case.run(&["file_select", "bad.json", "bad.smc"]);
    if run.ok() {
        viol!("a song is accepted whose track {} of {} has {} at {}, which no stream can express", t, s.tracks.len(), new, at);
    }
    if !run.clean_failure() {
        viol!("a song with {} fails without order: {}", new, run.brief());
    }
    case.count("inexpressible_songs", 1);
    Ok(())
}

pub fn c06(case: &mut Case) -> Res {
    if case.rng.chance(1, 6) {
        return inexpressible(case);
    }
    let optimize = case.rng.chance(1, 2);
    let looped = case.rng.chance(1, 2);
    let (file, s) = if case.rng.chance(1, 4) {
        let mut st = Style::all();
        st.porta = case.rng.chance(1, 2);
        st.max_notes = 120;
        let p = gen_piece(&mut case.rng, &st);
        if !p.guaranteed {
            return Ok(());
        }
        let b = piece_bytes(case, &p);
        case.write("s.mid", &b);
        let mut t = vec![TestSong { file: "s.mid".into(), song: Song { part: vec![], tracks: vec![] }, midi: true }];
        build::resolve_midi(case, &mut t, optimize)?;
        ("s.mid", t.pop().unwrap().song)
    } else {
        let gs = GenSong {
            max_tracks: 8,
            max_cmds: *case.rng.pick(&[1usize, 4, 30, 120, 600]),
            loops: case.rng.chance(1, 2),
            all_ops: case.rng.chance(3, 4),
        };
        let mut s = gs.gen(&mut case.rng);
        if case.rng.chance(1, 30) {
            let n = *case.rng.pick(&[129usize, 200, 256, 257, 258, 270, 300, 520]);
            s.add_tracks(&mut case.rng, n);
            case.count("songs_of_many_tracks", 1);
        }
        // part positions in another order, tracks used by two positions, tracks used by none
        match case.rng.below(6) {
            0 => {
                let mut p = s.part.clone();
                case.rng.shuffle(&mut p);
                s.part = p;
            }
            1 => {
                if s.part.len() < 8 {
                    let t = *case.rng.pick(&s.part);
                    s.part.push(t);
                }
            }
            _ => {}
        }
        let mut val = s.to_value();
        if case.rng.chance(1, 5) {
            // further parts, which aren't played; they start with the first part's first track or
            // one of their own
            for _ in 0..case.rng.us(1, 3) {
                let mut t = vec![];
                if case.rng.chance(1, 2) {
                    t.push(s.part[0]);
                } else {
                    t.push(val["tracks"].as_array().map_or(0, |t| t.len()));
                    val["tracks"].as_array_mut().unwrap().push(json!({"commands": [
                        {"duration": 24, "velocity": 10, "sustain": 7, "command": {"Note": 0x90}}
                    ]}));
                }
                for _ in 0..case.rng.us(0, 4) {
                    t.push(*case.rng.pick(&s.part));
                }
                val["parts"].as_array_mut().unwrap().push(json!({"tracks": t}));
            }
            case.count("songs_of_several_parts", 1);
        }
        let text = val.to_string();
        case.write("s.json", text.as_bytes());
        case.sig(hash_bytes(text.as_bytes()));
        ("s.json", s)
    };
    count_ops(case, &s);
    if case.sample.is_none() {
        case.sample = Some(json!({"case": case.idx, "tracks": s.tracks.len(), "commands": s.total_commands(), "first": format!("{:?}", s.tracks.get(0).and_then(|t| t.get(0)))}));
    }
    let (_, slot) = match rom_of(case, file, looped, optimize, "out.smc")? {
        None => return Ok(()),
        Some(x) => x,
    };
    check_streams(case, &slot, &s, looped)
}

fn check_streams(case: &mut Case, slot: &SlotSong, s: &Song, looped: bool) -> Res {
    // a track that is first in the part and elsewhere keeps one preamble
    let mut want = s.clone();
    let first = s.part.get(0).cloned();
    for i in 1..want.part.len() {
        if Some(want.part[i]) == first {
            want.part.truncate(i);
            break;
        }
    }
    if want.part.len() == s.part.len() {
        build::check_slot(slot, s, looped).map_err(v)?;
    } else {
        // compare the repeated position with the first one
        for i in 1..s.part.len() {
            if Some(s.part[i]) == first {
                let same = match (&slot.song.tracks[0], &slot.song.tracks[i]) {
                    (Some(a), Some(b)) => a.raw.start == b.raw.start,
                    (None, None) => true,
                    _ => false,
                };
                if !same {
                    viol!("part positions 0 and {} name the same track but differ", i);
                }
            } else {
                let exp = s.expected_items(i).map_err(Fail::Inconclusive)?;
                if let Some(t) = &slot.song.tracks[i] {
                    song::items_match(&exp, &t.items).map_err(|e| v(format!("track {}: {}", i, e)))?;
                }
            }
        }
    }
    // loop bodies: no prefix
    for t in slot.song.tracks.iter().flatten() {
        case.count("loop_calls", t.calls.len() as u64);
        case.count("stream_commands", t.items.len() as u64);
        case.count("stream_bytes", t.raw.len as u64);
    }
    for i in 0..s.part.len() {
        if s.tracks[s.part[i]].is_empty() {
            continue;
        }
        let t = match &slot.song.tracks[i] {
            Some(t) => t,
            None => viol!("track {} missing", i),
        };
        let wanted: Vec<&Cmd> = s.tracks[s.part[i]].iter().filter(|c| c.op == CALL).collect();
        if wanted.len() != t.calls.len() {
            viol!("track {} has {} loop calls, the song {}", i, t.calls.len(), wanted.len());
        }
        for (w, g) in wanted.iter().zip(&t.calls) {
            if w.args[1] != g.1 as usize {
                viol!("track {}: loop count {} written as {}", i, w.args[1], g.1);
            }
            let body = match slot.song.bodies.iter().find(|b| b.start == g.0) {
                Some(b) => b,
                None => continue,
            };
            let ops: Vec<u8> = body.cmds.iter().map(|c| c.op).collect();
            let want_ops: Vec<u8> = s.tracks[w.args[0]].iter().map(|c| c.op).collect();
            if ops != want_ops {
                viol!("loop body {:04x} has commands {:x?}, expected {:x?}", g.0, ops, want_ops);
            }
        }
    }
    case.count("songs_checked", 1);
    Ok(())
}

/// the same JSON with object keys in another order and other white space
pub fn reformat(rng: &mut Rng, val: &Value, out: &mut String) {
    let ws = |rng: &mut Rng, out: &mut String| {
        for _ in 0..rng.weighted(&[4, 2, 1, 1]) {
            out.push(*rng.pick(&[' ', '\n', '\t', '\r', ' ']));
        }
    };
    match val {
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            rng.shuffle(&mut keys);
            out.push('{');
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(rng, out);
                out.push_str(&serde_json::to_string(k).unwrap());
                ws(rng, out);
                out.push(':');
                ws(rng, out);
                reformat(rng, &o[*k], out);
                ws(rng, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(rng, out);
                reformat(rng, x, out);
                ws(rng, out);
            }
            out.push(']');
        }
        x => out.push_str(&x.to_string()),
    }
}

pub fn c14(case: &mut Case) -> Res {
    if case.rng.chance(1, 3) {
        // hand-written songs: every command kind, in another format
        let gs = GenSong { max_tracks: 8, max_cmds: 80, loops: true, all_ops: true };
        let s = gs.gen(&mut case.rng);
        case.write("a.json", &s.to_json());
        let mut text = String::new();
        reformat(&mut case.rng, &s.to_value(), &mut text);
        case.write("b.json", text.as_bytes());
        case.sig(hash_bytes(text.as_bytes()));
        count_ops(case, &s);
        let a = rom_of(case, "a.json", true, true, "a.smc")?;
        let b = rom_of(case, "b.json", true, true, "b.smc")?;
        let (a, b) = match (a, b) {
            (Some(a), Some(b)) => (a, b),
            (None, None) => return Ok(()),
            _ => viol!("re-formatted JSON changes whether the song fits"),
        };
        check_streams(case, &a.1, &s, true)?;
        if a.0.data != b.0.data {
            viol!("re-formatted JSON gives a different ROM");
        }
        case.count("reformatted_songs", 1);
        return Ok(());
    }
    let mut st = Style::all();
    st.porta = case.rng.chance(1, 2);
    st.max_notes = 150;
    let p = if case.rng.chance(1, 15) {
        match super::music::sample_piece(case) {
            Some(p) => p,
            None => return Ok(()),
        }
    } else if case.rng.chance(1, 15) {
        case.count("pieces_of_long_sections", 1);
        let many = case.rng.chance(1, 2);
        gen_sections(&mut case.rng, many)
    } else {
        gen_piece(&mut case.rng, &st)
    };
    let optimize = case.rng.chance(1, 2);
    let flag: Vec<&str> = if optimize { vec![] } else { vec!["-s"] };
    let b = piece_bytes(case, &p);
    case.write("s.mid", &b);
    // an export may have any name that is not a MIDI file's
    let export = match case.rng.below(3) {
        0 => {
            let name = *case.rng.pick(&["s.mid.json", "mid", "smid", "s.mid~", "s.txt", "song", "s.mid.bak", "s.middle", "mid.json", "x.mid.d.json"]);
            case.count("exports_of_odd_names", 1);
            name.to_string()
        }
        1 => format!("{}.json", crate::rng::odd_stem(&mut case.rng)),
        _ => "s.json".to_string(),
    };
    let export = export.as_str();
    let mut args = flag.clone();
    args.extend(&["midi2json", "s.mid", export]);
    let r = case.run(&args);
    if r.clean_failure() && !p.guaranteed {
        return Ok(());
    }
    case.judge_ok(&r)?;
    let looped = case.rng.chance(1, 2);
    let a = rom_of(case, "s.mid", looped, optimize, "a.smc")?;
    let c = rom_of(case, export, looped, case.rng.clone().chance(1, 2), "b.smc")?;
    let (a, c) = match (a, c) {
        (Some(a), Some(c)) => (a, c),
        (None, None) => return Ok(()),
        _ => viol!("the exported song fits differently"),
    };
    if let Some(x) = (0..a.0.data.len()).find(|&x| a.0.data[x] != c.0.data[x]) {
        viol!("ROM from the exported JSON differs at {:x} (optimise {})", x, optimize);
    }
    let val: Value = serde_json::from_slice(&case.read(export)).map_err(|e| v(format!("exported JSON: {}", e)))?;
    let mut text = String::new();
    reformat(&mut case.rng, &val, &mut text);
    case.write("r.json", text.as_bytes());
    let d = rom_of(case, "r.json", looped, true, "c.smc")?;
    match d {
        Some(d) if d.0.data == a.0.data => {}
        _ => viol!("ROM from the re-formatted export differs"),
    }
    case.count("round_trips", 1);
    case.count("rom_bytes_compared", a.0.data.len() as u64);
    Ok(())
}
