//! C09: which pieces are accepted; C19: equivalent encodings.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::rom::*;
use crate::smf::*;
use serde_json::json;

/// peak polyphony of each channel (ends before starts)
fn channel_peaks(m: &Model) -> Vec<usize> {
    (0..16)
        .map(|c| {
            let mut pts: Vec<(u64, i32)> = vec![];
            for n in m.notes.iter().filter(|n| n.ch == c && n.off != Some(n.on)) {
                pts.push((n.on, 1));
                if let Some(o) = n.off {
                    pts.push((o, -1));
                }
            }
            pts.sort();
            let mut cur = 0;
            let mut peak = 0;
            for (_, d) in pts {
                cur += d;
                peak = peak.max(cur);
            }
            peak as usize
        })
        .collect()
}

/// Can monophonic channels be divided into eight groups without overlap? (exact search)
fn groupable(m: &Model) -> bool {
    let mut iv: Vec<Vec<(u64, u64)>> = vec![vec![]; 16];
    for n in &m.notes {
        let off = n.off.unwrap_or(u64::MAX);
        if off > n.on {
            iv[n.ch as usize].push((n.on, off));
        }
    }
    let chans: Vec<usize> = (0..16).filter(|&c| !iv[c].is_empty()).collect();
    let conflict = |a: usize, b: usize| iv[a].iter().any(|x| iv[b].iter().any(|y| x.0 < y.1 && y.0 < x.1));
    let n = chans.len();
    let mat: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| i != j && conflict(chans[i], chans[j])).collect()).collect();
    fn color(i: usize, n: usize, mat: &Vec<Vec<bool>>, col: &mut Vec<usize>) -> bool {
        if i == n {
            return true;
        }
        let used = col[..i].iter().map(|&c| c + 1).max().unwrap_or(0);
        for c in 0..(used + 1).min(8) {
            if (0..i).all(|j| !(mat[i][j] && col[j] == c)) {
                col[i] = c;
                if color(i + 1, n, mat, col) {
                    return true;
                }
            }
        }
        false
    }
    let mut col = vec![0; n];
    color(0, n, &mat, &mut col)
}

/// dense random polyphony around the limit
fn dense_piece(case: &mut Case) -> Piece {
    let st = Style { grid: None, porta: false, controls: false, tempo: false, inert: false, drums: true, long: false, sub_step: false, max_notes: 200, repeats: false, odd_ends: false };
    let mut g = Gen::new(&mut case.rng, &st);
    let tpb = g.tpb;
    let mode = g.rng.below(7);
    let mut parts: Vec<Part> = vec![];
    let mut desc = format!("dense mode {} tpb {}", mode, tpb);
    match mode {
        0 => {
            // exactly k simultaneous notes at some moment, spread over channels
            let k = *g.rng.pick(&[7usize, 8, 8, 8, 9, 9, 10, 12]);
            let nch = g.rng.us(1, k.min(8));
            let mut sizes = vec![1usize; nch];
            for _ in nch..k {
                let i = g.rng.us(0, nch - 1);
                sizes[i] += 1;
            }
            let mut chans: Vec<u8> = (0..16).collect();
            g.rng.shuffle(&mut chans);
            let t0 = g.ticks(24);
            for (i, &s) in sizes.iter().enumerate() {
                let mut notes = vec![];
                for j in 0..s {
                    let d0 = g.rng.below(t0 / 2 + 1);
                    let d1 = g.rng.below(t0 / 2 + 1);
                    let (on, off) = if g.grid { (0, 2 * t0) } else { (d0, 2 * t0 - d1) };
                    notes.push(GNote { on, off, note: 30 + (i * 9 + j) as u8 % 60, vel: 90 });
                }
                // the same again right after, and single notes
                if g.rng.chance(1, 2) {
                    for j in 0..s {
                        notes.push(GNote { on: 2 * t0, off: 3 * t0, note: 30 + (i * 9 + j) as u8 % 60, vel: 90 });
                    }
                }
                parts.push(Part { ch: chans[i], notes, other: vec![] });
            }
            desc += &format!(" sizes {:?}", sizes);
        }
        1 => {
            // sections with different sets of monophonic channels
            let secs = g.rng.us(2, 6);
            let mut per: Vec<Vec<GNote>> = vec![vec![]; 16];
            let len = g.ticks(48);
            for s in 0..secs {
                let mut chans: Vec<usize> = (0..16).collect();
                g.rng.shuffle(&mut chans);
                let most = if g.rng.chance(1, 8) { 9 } else { 8 };
                let k = g.rng.us(1, most);
                for &c in chans.iter().take(k) {
                    let a = s as u64 * len;
                    let n = g.rng.us(1, 3);
                    let notes = if g.rng.chance(1, 2) {
                        vec![GNote { on: a, off: a + len, note: 40 + c as u8, vel: 100 }]
                    } else {
                        g.melody(a, a + len, n)
                    };
                    per[c].extend(notes);
                }
            }
            for (c, notes) in per.into_iter().enumerate() {
                if !notes.is_empty() {
                    parts.push(Part { ch: c as u8, notes, other: vec![] });
                }
            }
            desc += &format!(" sections {}", secs);
        }
        2 => {
            // hard assignment: pairs of channels that overlap each other in a ring
            let nch = g.rng.us(9, 16);
            let one = g.ticks(6);
            for c in 0..nch {
                let mut notes = vec![];
                let slots = g.rng.us(1, 4);
                let mut used = vec![];
                for _ in 0..slots {
                    let s = g.rng.below(12);
                    if used.contains(&s) {
                        continue;
                    }
                    used.push(s);
                    notes.push(GNote { on: s * one, off: (s + 1) * one, note: 40 + c as u8, vel: 100 });
                }
                notes.sort_by_key(|n| n.on);
                parts.push(Part { ch: c as u8, notes, other: vec![] });
            }
        }
        3 => {
            // many short introductions, then a tutti: the assignment search must not explode
            let intro = g.rng.us(3, 7);
            let tutti = g.rng.us(7, 9);
            let one = g.ticks(12);
            for c in 0..intro {
                parts.push(Part { ch: c as u8, notes: vec![GNote { on: c as u64 * one, off: (c as u64 + 1) * one, note: 50, vel: 100 }], other: vec![] });
            }
            for c in intro..(intro + tutti).min(16) {
                parts.push(Part { ch: c as u8, notes: vec![GNote { on: 20 * one, off: 24 * one, note: 60, vel: 100 }], other: vec![] });
            }
            desc += &format!(" intro {} tutti {}", intro, tutti);
        }
        4 | 5 => {
            // monophonic channels made from a division into groups of any size, overlapping
            // channels of other groups as much as possible, so that the search must backtrack
            let always = g.rng.us(0, 6);
            let groups = 8 - always;
            let nch = g.rng.us((always + groups).max(9), 16);
            let one = g.ticks(6);
            let slots = g.rng.us(3, 14) as u64;
            let density = g.rng.range(2, 9);
            let mut owner: Vec<Vec<usize>> = vec![vec![]; groups];
            for c in always..nch {
                let gr = if c - always < groups { c - always } else { g.rng.us(0, groups - 1) };
                owner[gr].push(c);
            }
            let mut per: Vec<Vec<GNote>> = vec![vec![]; nch];
            for c in 0..always {
                per[c].push(GNote { on: 0, off: slots * one, note: 40 + c as u8, vel: 100 });
            }
            for members in &owner {
                for s in 0..slots {
                    if g.rng.below(10) < density {
                        let c = *g.rng.pick(members);
                        per[c].push(GNote { on: s * one, off: (s + 1) * one, note: 40 + c as u8, vel: 100 });
                    }
                }
            }
            // the last note of a group, or of an occupied voice, may never end
            if g.rng.chance(1, 3) {
                for members in owner.iter().cloned().chain((0..always).map(|c| vec![c])) {
                    let last = members
                        .iter()
                        .flat_map(|&c| per[c].iter().enumerate().map(move |(i, n)| (n.on, c, i)))
                        .max();
                    if let Some((_, c, i)) = last {
                        if g.rng.chance(1, 2) {
                            per[c][i].off = NEVER;
                        }
                    }
                }
                desc += " hanging";
            }
            let mut chans: Vec<u8> = (0..16).collect();
            g.rng.shuffle(&mut chans);
            for (c, notes) in per.into_iter().enumerate() {
                if !notes.is_empty() {
                    parts.push(Part { ch: chans[c], notes, other: vec![] });
                }
            }
            desc += &format!(" always {} groups {} channels {}", always, groups, nch);
        }
        _ => {
            // one channel with big chords, handed over on the same tick
            let k = g.rng.us(5, 9);
            let one = g.ticks(12);
            let mut notes = vec![];
            for b in 0..g.rng.us(2, 12) as u64 {
                let kk = if g.rng.chance(1, 2) { k } else { g.rng.us(1, k) };
                for j in 0..kk {
                    notes.push(GNote { on: b * one, off: (b + 1) * one, note: 40 + j as u8 * 2 + if g.rng.chance(1, 2) { 0 } else { (b % 2) as u8 }, vel: 100 });
                }
            }
            // no equal pitches within a chord
            notes.sort_by_key(|n| (n.on, n.note));
            notes.dedup_by_key(|n| (n.on, n.note));
            parts.push(Part { ch: g.rng.byte(0, 15), notes, other: vec![] });
            desc += &format!(" chords of {}", k);
        }
    }
    let smf = assemble(g.rng, tpb, &parts, &[]);
    Piece { smf, guaranteed: false, desc, grid: false }
}

/// Adds texts so that a track after the first starts near a multiple of 8 KB.
fn pad_across(case: &mut Case, s: &mut Smf) {
    if s.tracks.len() < 2 {
        return;
    }
    let t = case.rng.us(1, s.tracks.len() - 1);
    let mut head = s.clone();
    head.tracks.truncate(t);
    head.eot_delta.truncate(t);
    let here = head.to_bytes(WriteOpts::default()).len();
    let goal = 8192 * case.rng.us(1, 3) + case.rng.us(0, 12) - 9;
    if goal < here + 200 {
        return;
    }
    // a text's length takes two bytes from 128 on
    let mut rest = goal - here;
    while rest >= 200 {
        let n = if rest > 8000 { 5000 } else { rest - 5 };
        s.tracks[0].insert(0, Ev { tick: 0, k: K::Meta(1, vec![0x41; n]) });
        rest -= n + 5;
    }
    case.count("tracks_moved_to_buffer_end", 1);
}

/// A small piece of two tracks of which the second track's tag starts `before` bytes before the end
/// of the reader's buffer.
fn straddling(before: usize) -> Smf {
    let line = |ch: u8, note: u8| {
        vec![
            Ev { tick: 0, k: K::On { ch, note, vel: 90 } },
            Ev { tick: 24, k: K::Off { ch, note, vel: 0 } },
        ]
    };
    let mut s = Smf { tpb: 24, tracks: vec![line(0, 60), line(1, 64)], eot_delta: vec![0, 0] };
    let mut head = s.clone();
    head.tracks.truncate(1);
    let here = head.to_bytes(WriteOpts::default()).len();
    // delta, ff, type and two bytes of length
    let n = 8192 - before - here - 5;
    s.tracks[0].insert(0, Ev { tick: 0, k: K::Meta(1, vec![0x41; n]) });
    s
}

/// The listed finding in its smallest form, seen on every run.
fn straddling_case(case: &mut Case) -> Res {
    let before = case.rng.us(1, 3);
    let b = straddling(before).to_bytes(WriteOpts::default());
    let ok = straddling(4).to_bytes(WriteOpts::default());
    let rom = RomCfg::single(0x2f00, 0xa000).build();
    case.write("near.mid", &ok);
    case.write("near.smc", &rom.data);
    case.must(&["file_select", "near.mid", "near.smc"])?;
    case.write("song.mid", &b);
    case.write("song.smc", &rom.data);
    let r = case.run(&["file_select", "song.mid", "song.smc"]);
    if r.clean_failure() && tag_across_buffer(&b) {
        viol!("track tag across the reader's buffer: {}", r.brief());
    }
    case.judge_ok(&r)?;
    if case.read("song.smc") != case.read("near.smc") {
        viol!("a text one byte longer changes the song");
    }
    Ok(())
}

/// A system exclusive message sent in two packets (F0, then F7), which says nothing to the driver.
fn packets_case(case: &mut Case) -> Res {
    let mut s = Smf { tpb: 24, tracks: vec![vec![]], eot_delta: vec![0] };
    for i in 0..4u64 {
        s.tracks[0].push(Ev { tick: 24 * i, k: K::On { ch: 0, note: 60 + i as u8, vel: 90 } });
        s.tracks[0].push(Ev { tick: 24 * i + 20, k: K::Off { ch: 0, note: 60 + i as u8, vel: 0 } });
    }
    let rom = RomCfg::single(0x2f00, 0xa000).build();
    case.write("plain.mid", &s.to_bytes(WriteOpts::default()));
    case.write("plain.smc", &rom.data);
    case.must(&["file_select", "plain.mid", "plain.smc"])?;
    let at = case.rng.us(0, 6);
    let tick = s.tracks[0][at].tick;
    s.tracks[0].insert(at, Ev { tick, k: K::SysEx(0xf7, vec![0x12, 0xf7]) });
    s.tracks[0].insert(at, Ev { tick, k: K::SysEx(0xf0, vec![0x43, 0x12]) });
    case.write("v.mid", &s.to_bytes(WriteOpts::default()));
    case.write("v.smc", &rom.data);
    let r = case.run(&["file_select", "v.mid", "v.smc"]);
    if r.clean_failure() || r.ok() && case.read("v.smc") != case.read("plain.smc") {
        viol!("sysex continuation packet: {}", r.brief());
    }
    case.judge_ok(&r)
}

pub fn c09(case: &mut Case) -> Res {
    if case.idx == 0 {
        return straddling_case(case);
    }
    let p = match case.rng.weighted(&[6, 3, 1]) {
        0 => dense_piece(case),
        1 => {
            let mut st = Style::all();
            st.max_notes = 160;
            st.long = false;
            gen_piece(&mut case.rng, &st)
        }
        _ => match super::music::sample_piece(case) {
            Some(p) => p,
            None => return Ok(()),
        },
    };
    let mut p = p;
    if case.rng.chance(1, 40) {
        pad_across(case, &mut p.smf);
        p.desc += " padded";
    }
    let b = piece_bytes(case, &p);
    if b.len() > 8192 {
        case.count("files_beyond_8_kb", 1);
    }
    let m = Model::of(&p.smf);
    let peaks = channel_peaks(&m);
    let active = peaks.iter().filter(|&&x| x > 0).count();
    let hanging = m.notes.iter().any(|n| n.off.is_none());
    let mono = peaks.iter().all(|&x| x <= 1);
    let must_accept = (active <= 8 && peaks.iter().sum::<usize>() <= 8) || (mono && groupable(&m));
    let must_reject = m.max_poly > 8;
    if must_accept && must_reject {
        return Err(Fail::Inconclusive("model contradiction".into()));
    }
    if p.guaranteed && !must_accept && !hanging {
        case.count("generator_promise_not_confirmed", 1);
    }
    let rom = RomCfg::single(0x2f00, 0xa000).build();
    case.write("song.mid", &b);
    case.write("song.smc", &rom.data);
    let run = case.run(&["file_select", "song.mid", "song.smc"]);
    let after = Rom { data: case.read("song.smc"), ptrs: rom.ptrs };
    if run.clean_failure() {
        if let Some(Why::Space) = why_rejected(case, "song.mid", &run) {
            case.count("too_large", 1);
            return Ok(());
        }
        if after.data != rom.data {
            viol!("rejected piece changed the ROM");
        }
        if must_accept && tag_across_buffer(&b) {
            viol!("track tag across the reader's buffer: {}", run.brief());
        }
        if must_accept {
            viol!("piece rejected ({}); peaks per channel {:?}; {}", run.brief(), peaks, p.desc);
        }
        case.count(if must_reject { "rejected_over_eight" } else { "rejected_other" }, 1);
        return Ok(());
    }
    case.judge_ok(&run)?;
    if must_reject {
        viol!("piece with {} simultaneous notes accepted; {}", m.max_poly, p.desc);
    }
    case.count(if must_accept { "accepted_promised" } else { "accepted_other" }, 1);
    if m.max_poly == 8 {
        case.count("accepted_with_eight_notes", 1);
    }
    if active > 8 {
        case.count("accepted_with_more_than_eight_channels", 1);
    }
    let o = decode_file_select(&after)?;
    pair_basic(&m, &o.perf).map_err(|e| v(format!("notes: {} ({})", e, p.desc)))?;
    pair_notes(&m, &o.perf, &|n, h| onset_ok(&m, n, h) && length_ok(&m, n, h).is_ok())
        .map_err(|e| v(format!("note lengths: {} ({})", e, p.desc)))?;
    case.count("notes_heard", o.perf.notes.len() as u64);
    Ok(())
}

/// events of a file as per-channel lists plus the tempo list
struct Split {
    ch: Vec<Vec<Ev>>,
    tempos: Vec<Ev>,
    rest: Vec<Ev>,
}

fn split(s: &Smf) -> Split {
    let mut sp = Split { ch: vec![vec![]; 16], tempos: vec![], rest: vec![] };
    for t in &s.tracks {
        for e in t {
            match (e.k.channel(), &e.k) {
                (Some(c), _) => sp.ch[c as usize].push(e.clone()),
                (None, K::Tempo(_)) => sp.tempos.push(e.clone()),
                _ => sp.rest.push(e.clone()),
            }
        }
    }
    for c in sp.ch.iter_mut() {
        c.sort_by_key(|e| e.tick);
    }
    sp.tempos.sort_by_key(|e| e.tick);
    sp
}

/// tempo events first, then the channels spread over tracks in random order
fn join(case: &mut Case, sp: &Split, tpb: u16) -> Smf {
    let mut used: Vec<usize> = (0..16).filter(|&c| !sp.ch[c].is_empty()).collect();
    case.rng.shuffle(&mut used);
    let nt = match case.rng.below(3) {
        0 => 1,
        1 => used.len().max(1),
        _ => case.rng.us(1, used.len().max(1)),
    };
    let mut tracks: Vec<Vec<Ev>> = vec![vec![]; nt];
    let conductor = case.rng.chance(1, 2);
    let mut lists: Vec<Vec<Vec<Ev>>> = vec![vec![]; nt];
    for (i, &c) in used.iter().enumerate() {
        let t = if nt == used.len() { i } else { case.rng.us(0, nt - 1) };
        lists[t].push(sp.ch[c].clone());
    }
    for (t, l) in lists.into_iter().enumerate() {
        // merge keeping each channel's order, ties between channels in random order
        let mut pos = vec![0usize; l.len()];
        loop {
            let best = (0..l.len()).filter(|&i| pos[i] < l[i].len()).map(|i| l[i][pos[i]].tick).min();
            let best = match best {
                None => break,
                Some(b) => b,
            };
            let c: Vec<usize> = (0..l.len()).filter(|&i| pos[i] < l[i].len() && l[i][pos[i]].tick == best).collect();
            let i = *case.rng.pick(&c);
            tracks[t].push(l[i][pos[i]].clone());
            pos[i] += 1;
        }
    }
    if conductor {
        tracks.insert(0, sp.tempos.clone());
    } else {
        let mut m = sp.tempos.clone();
        m.extend(std::mem::replace(&mut tracks[0], vec![]));
        m.sort_by_key(|e| e.tick);
        tracks[0] = m;
    }
    // events of no channel and no meaning go anywhere
    for e in &sp.rest {
        let t = case.rng.us(0, tracks.len() - 1);
        tracks[t].push(e.clone());
        tracks[t].sort_by_key(|x| x.tick);
    }
    let n = tracks.len();
    let eot = (0..n).map(|_| if case.rng.chance(1, 3) { case.rng.below(3000) } else { 0 }).collect();
    Smf { tpb, tracks, eot_delta: eot }
}

pub fn c19(case: &mut Case) -> Res {
    match case.idx {
        0 => return straddling_case(case),
        1 => return packets_case(case),
        _ => {}
    }
    let mut st = Style::all();
    st.inert = false;
    st.max_notes = 150;
    let porta = case.rng.chance(1, 3);
    st.porta = porta;
    let p = if case.rng.chance(1, 15) {
        match super::music::sample_piece(case) {
            Some(p) => p,
            None => return Ok(()),
        }
    } else {
        gen_piece(&mut case.rng, &st)
    };
    let sp = split(&p.smf);
    let m = Model::of(&p.smf);
    // the reference encoding
    let base = join(case, &sp, p.smf.tpb);
    let b0 = base.to_bytes(WriteOpts::default());
    case.sig(hash_bytes(&b0));
    let optimize = case.rng.chance(1, 2);
    let rom = RomCfg::single(0x2f00, 0xa000).build();
    let go = |case: &mut Case, bytes: &[u8]| -> (Run, Vec<u8>) {
        case.write("v.mid", bytes);
        case.write("v.smc", &rom.data);
        let r = if optimize { case.run(&["file_select", "v.mid", "v.smc"]) } else { case.run(&["-s", "file_select", "v.mid", "v.smc"]) };
        (r, case.read("v.smc"))
    };
    let (r0, rom0) = go(case, &b0);
    if p.guaranteed {
        if let Some(Why::Piece) = why_rejected(case, "v.mid", &r0) {
            return case.judge_ok(&r0);
        }
    }
    if !r0.ok() && !r0.clean_failure() {
        return case.judge_ok(&r0);
    }
    let scalable = !(porta && m.notes.iter().any(|n| n.porta));
    let nvar = 4;
    for i in 0..nvar {
        let mut what = vec![];
        let mut s = Split { ch: sp.ch.clone(), tempos: sp.tempos.clone(), rest: sp.rest.clone() };
        let mut tpb = p.smf.tpb;
        if case.rng.chance(1, 2) {
            // events without meaning, up to the end of the piece
            let n = case.rng.us(1, 30);
            for _ in 0..n {
                let tick = case.rng.below(m.end + 1);
                let ch = case.rng.byte(0, 15);
                let e = inert_event(&mut case.rng, ch, tick);
                match e.k.channel() {
                    Some(c) => {
                        // anywhere among the channel's events of that tick
                        let l = &mut s.ch[c as usize];
                        let lo = l.iter().position(|x| x.tick >= tick).unwrap_or(l.len());
                        let hi = l.iter().position(|x| x.tick > tick).unwrap_or(l.len());
                        let at = case.rng.us(lo, hi);
                        l.insert(at, e);
                    }
                    None => s.rest.push(e),
                }
            }
            what.push("inert events");
        }
        if scalable && case.rng.chance(1, 2) {
            let maxk = (32767 / tpb as u64).min((1 << 27) / (m.end + 1).max(3000)).min(20);
            if maxk >= 2 {
                let k = case.rng.range(2, maxk);
                for e in s.ch.iter_mut().flatten().chain(s.tempos.iter_mut()).chain(s.rest.iter_mut()) {
                    e.tick *= k;
                }
                tpb = (tpb as u64 * k) as u16;
                what.push("scaled time");
                case.count("scaled", 1);
            }
        }
        let smf = if case.rng.chance(3, 4) {
            what.push("other tracks");
            join(case, &s, tpb)
        } else {
            join(case, &s, tpb)
        };
        let o = if i == 0 { WriteOpts { running_status: true, off_as_on0: true } } else { Smf::random_opts(&mut case.rng) };
        let mut smf = smf;
        let mut o = o;
        if case.rng.chance(1, 60) {
            o.running_status = false;
            pad_across(case, &mut smf);
            what.push("long texts");
        }
        let b = smf.to_bytes(o);
        let (r, rom1) = go(case, &b);
        case.count("variants", 1);
        if r0.ok() && r.clean_failure() && tag_across_buffer(&b) {
            viol!("track tag across the reader's buffer: {}", r.brief());
        }
        if r.code != r0.code {
            viol!("equivalent encoding ({:?}, {:?}): {} instead of {}; {}", what, o, r.brief(), r0.brief(), p.desc);
        }
        if rom1 != rom0 {
            case.write("reference.mid", &b0);
            let at = (0..rom0.len()).find(|&x| rom0[x] != rom1[x]);
            viol!("equivalent encoding ({:?}, {:?}) gives another ROM (first difference {:x?}); {}", what, o, at, p.desc);
        }
    }
    if r0.ok() {
        case.count("pieces_accepted", 1);
    } else {
        case.count("pieces_rejected", 1);
    }
    case.sample = Some(json!({"case": case.idx, "piece": p.desc, "variants": nvar, "exit": r0.code}));
    Ok(())
}
