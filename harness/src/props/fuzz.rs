//! C13: hostile input files and arguments.
use super::build;
use crate::engine::*;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::rom::*;
use crate::smf::*;
use crate::song::GenSong;
use serde_json::{json, Map, Value};
use std::ffi::OsString;

fn opts() -> Opts<'static> {
    Opts { wall: 120, cpu: 40, mem: 3 << 30, ..Opts::default() }
}

/// The verdict on one run; `rom` names the ROM file and its content before the run.
fn judge(case: &mut Case, r: &Run, rom: Option<(&str, &[u8])>, what: &str) -> Res {
    if r.panicked() {
        viol!("{}: crashed: {}", what, r.brief());
    }
    if r.signal == Some(24) {
        viol!("{}: no answer after {} s of processor time", what, opts().cpu);
    }
    if r.signal == Some(14) {
        return Err(Fail::Inconclusive(format!("{}: stopped after {} s of wall time", what, opts().wall)));
    }
    if r.signal.is_some() {
        viol!("{}: ended by signal: {}", what, r.brief());
    }
    if r.ok() {
        case.count("successes", 1);
        if let Some((name, before)) = rom {
            let after = case.read(name);
            if after.len() != before.len() {
                viol!("{}: ROM length {} became {}", what, before.len(), after.len());
            }
        }
    } else {
        case.count("clean_errors", 1);
        if r.stderr.trim().is_empty() {
            viol!("{}: failure without any message", what);
        }
        if let Some((name, before)) = rom {
            let after = case.read(name);
            if after != before {
                viol!("{}: failed and changed the ROM", what);
            }
        }
    }
    Ok(())
}

fn small_rom(rng: &mut Rng) -> Rom {
    if rng.chance(1, 2) {
        RomCfg::single(0x2f00, 0xa000).build()
    } else {
        let mut c = RomCfg::random(rng);
        c.ptrs = DEFAULT_PTRS;
        c.build()
    }
}

fn mutate_bytes(rng: &mut Rng, d: &mut Vec<u8>) -> String {
    let n = match rng.below(4) {
        0 => 1,
        1 => rng.us(1, 4),
        2 => rng.us(1, 20),
        _ => rng.us(1, 100),
    };
    let mut what = String::new();
    for i in 0..n {
        if d.is_empty() {
            break;
        }
        let p = rng.us(0, d.len() - 1);
        let k = rng.below(9);
        match k {
            0 => d[p] ^= 1 << rng.below(8),
            1 => d[p] = *rng.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xf0, 0xf7, 0xff, 0x90, 0x8f, 0xb0, 0xc9]),
            2 => d[p] = rng.byte(0, 255),
            3 => {
                let l = rng.us(1, 8).min(d.len() - p);
                d.drain(p..p + l);
            }
            4 => {
                for _ in 0..rng.us(1, 6) {
                    let b = rng.byte(0, 255);
                    d.insert(p, b);
                }
            }
            5 => {
                let l = rng.us(1, 40).min(d.len() - p);
                let s = d[p..p + l].to_vec();
                let q = rng.us(0, d.len());
                for (j, b) in s.into_iter().enumerate() {
                    d.insert(q + j, b);
                }
            }
            6 => {
                if rng.chance(1, 4) {
                    d.truncate(p);
                }
            }
            7 => {
                // zero or fill a run
                let l = rng.us(1, 12).min(d.len() - p);
                let b = *rng.pick(&[0u8, 0xff, 0x80, 0x7f]);
                for x in d[p..p + l].iter_mut() {
                    *x = b;
                }
            }
            _ => d[p] = d[p].wrapping_add(*rng.pick(&[1u8, 255, 16, 128])),
        }
        if i < 6 {
            what += &format!(" {}@{}", k, p);
        }
    }
    format!("{} edits{}", n, what)
}

/// structured damage to a MIDI file
fn mutate_midi(rng: &mut Rng, d: &mut Vec<u8>) -> String {
    let mut tracks: Vec<usize> = vec![];
    let mut p = 14;
    while p + 8 <= d.len() && &d[p..p + 4] == b"MTrk" {
        tracks.push(p);
        let l = u32::from_be_bytes([d[p + 4], d[p + 5], d[p + 6], d[p + 7]]) as usize;
        p += 8 + l;
    }
    match rng.below(13) {
        0 => {
            d[9] = *rng.pick(&[0u8, 2, 3, 255]);
            "format".into()
        }
        1 => {
            let v = *rng.pick(&[0u16, 1, 0x8000, 0xffff, 0xe728, 0x7fff]);
            d[12] = (v >> 8) as u8;
            d[13] = v as u8;
            format!("division {:x}", v)
        }
        2 => {
            let v = *rng.pick(&[0u16, 1, 2, 0xffff, 0x100]);
            d[10] = (v >> 8) as u8;
            d[11] = v as u8;
            format!("track count {}", v)
        }
        3 => {
            let v = *rng.pick(&[0u32, 1, 5, 7, 0xffff, 0xffff_ffff]);
            d[4..8].copy_from_slice(&v.to_be_bytes());
            format!("header length {}", v)
        }
        4 if !tracks.is_empty() => {
            let t = *rng.pick(&tracks);
            let l = u32::from_be_bytes([d[t + 4], d[t + 5], d[t + 6], d[t + 7]]);
            let v = *rng.pick(&[0u32, 1, l.wrapping_add(1), l.wrapping_sub(1), l / 2, 0x7fff_ffff, 0xffff_ffff]);
            d[t + 4..t + 8].copy_from_slice(&v.to_be_bytes());
            format!("track length {} for {}", v, l)
        }
        5 if !tracks.is_empty() => {
            // drop end-of-track markers
            let mut i = 14;
            let mut n = 0;
            while i + 2 < d.len() {
                if d[i] == 0xff && d[i + 1] == 0x2f && d[i + 2] == 0 {
                    d[i + 1] = 0x06;
                    n += 1;
                }
                i += 1;
            }
            format!("{} end markers removed", n)
        }
        6 if !tracks.is_empty() => {
            // another chunk, before or between the tracks
            let t = *rng.pick(&tracks);
            let mut x = b"XFIH".to_vec();
            let n = rng.us(0, 20);
            x.extend(&(n as u32).to_be_bytes());
            x.extend(std::iter::repeat(0xff).take(n));
            for (j, b) in x.into_iter().enumerate() {
                d.insert(t + j, b);
            }
            "foreign chunk".into()
        }
        7 if !tracks.is_empty() => {
            // an odd event at the start of a track
            let t = *rng.pick(&tracks);
            let evs: [&[u8]; 20] = [
                &[0, 0xff, 0x51, 0],
                &[0, 0xff, 0x51, 2, 1, 2],
                &[0, 0xff, 0x51, 3, 0, 0, 0],
                &[0, 0xff, 0x51, 3, 0, 0, 1],
                &[0, 0xff, 0x51, 5, 1, 2, 3, 4, 5],
                &[0, 0xff, 0x7f, 0xff, 0xff, 0xff, 0x7f],
                &[0, 0xff, 0x01, 0x81, 0x00],
                &[0, 0xf0, 0xff, 0xff, 0xff, 0x7f],
                &[0, 0xf0, 2, 1, 0xf7],
                &[0, 0xf7, 0],
                &[0, 0x90, 0xff, 0xff],
                &[0, 0x80, 60, 64],
                &[0, 0x80, 60, 64, 0, 0x80, 60, 64],
                &[0, 0xc0, 0xff],
                &[0, 0xb0, 7, 0xff, 0, 0xb0, 65, 0xff, 0, 0xb0, 5, 0xff],
                &[0, 60, 64],
                &[0, 0xf4],
                &[0, 0xf8],
                &[0, 0xc9, 0x7f, 0, 0x99, 0, 1],
                &[0x80, 0x80, 0x80, 0x80, 0x80, 0x00, 0x90, 60, 64],
            ];
            let e = rng.pick(&evs).to_vec();
            let fix = rng.chance(3, 4);
            if fix {
                let l = u32::from_be_bytes([d[t + 4], d[t + 5], d[t + 6], d[t + 7]]) + e.len() as u32;
                d[t + 4..t + 8].copy_from_slice(&l.to_be_bytes());
            }
            for (j, b) in e.iter().enumerate() {
                d.insert(t + 8 + j, *b);
            }
            format!("event {:02x?}", e)
        }
        8 if !tracks.is_empty() => {
            // a huge delta time in front of the track
            let t = *rng.pick(&tracks);
            let e: Vec<u8> = match rng.below(4) {
                0 => vec![0xff, 0xff, 0xff, 0x7f, 0xff, 0x06, 0],
                1 => vec![0x83, 0xff, 0x7f, 0x90, 60, 64, 0xff, 0xff, 0x7f, 0x80, 60, 64],
                2 => {
                    let mut v = vec![];
                    for _ in 0..20 {
                        v.extend(&[0xff, 0xff, 0xff, 0x7f, 0xff, 0x06, 0]);
                    }
                    v
                }
                _ => vec![0, 0x90, 60, 64, 0xff, 0xff, 0xff, 0x7f, 0x80, 60, 64],
            };
            let l = u32::from_be_bytes([d[t + 4], d[t + 5], d[t + 6], d[t + 7]]) + e.len() as u32;
            d[t + 4..t + 8].copy_from_slice(&l.to_be_bytes());
            for (j, b) in e.iter().enumerate() {
                d.insert(t + 8 + j, *b);
            }
            "huge delta".into()
        }
        9 => {
            d.truncate(rng.us(0, d.len()));
            format!("truncated to {}", d.len())
        }
        10 if tracks.len() > 1 => {
            let t = tracks[1];
            d.truncate(t);
            "tracks missing".into()
        }
        11 if !tracks.is_empty() => {
            d.truncate(tracks[0]);
            if rng.chance(1, 2) {
                d[11] = 0;
                d[10] = 0;
            }
            "no tracks".into()
        }
        _ => {
            // data bytes with the high bit set
            let n = rng.us(1, 5);
            for _ in 0..n {
                let p = rng.us(14.min(d.len() - 1), d.len() - 1);
                d[p] |= 0x80;
            }
            format!("{} high bits", n)
        }
    }
}

fn hostile_midi(case: &mut Case) -> Result<(Vec<u8>, String), Fail> {
    let rng = &mut case.rng;
    let mode = rng.below(10);
    if mode == 3 {
        // everything at the very start (or nearly), with any time base
        let mut ev = vec![];
        for _ in 0..rng.us(1, 8) {
            let k = match rng.below(5) {
                0 | 1 => K::On { ch: rng.byte(0, 2), note: rng.byte(50, 60), vel: 90 },
                2 => K::Off { ch: rng.byte(0, 2), note: rng.byte(50, 60), vel: 0 },
                3 => K::Tempo(500_000),
                _ => K::Cc { ch: rng.byte(0, 2), ctl: 7, val: 90 },
            };
            ev.push(Ev { tick: if rng.chance(1, 6) { rng.below(3) } else { 0 }, k });
        }
        ev.sort_by_key(|e| e.tick);
        let tpb = *rng.pick(&[0u16, 0, 0, 1, 2, 24, 0x7fff]);
        let s = Smf { tpb, tracks: vec![ev], eot_delta: vec![rng.below(2)] };
        return Ok((s.to_bytes(Smf::random_opts(rng)), format!("everything at the start, time base {}", tpb)));
    }
    if mode == 0 {
        let n = rng.us(0, 400);
        let mut d: Vec<u8> = (0..n).map(|_| rng.byte(0, 255)).collect();
        if rng.chance(2, 3) {
            let mut h = b"MThd\0\0\0\x06\0\x01\0\x01\0\x60MTrk\0\0\0".to_vec();
            h.push(n.min(255) as u8);
            h.extend(d);
            d = h;
        }
        return Ok((d, "random bytes".into()));
    }
    if mode == 1 {
        // many channels and awkward overlaps: the assignment must stay quick
        let mut ev = vec![];
        let n = rng.us(40, 700);
        let span = *rng.pick(&[1u64, 10, 100, 1000]);
        for i in 0..n as u64 {
            let ch = rng.byte(0, 15);
            let note = rng.byte(30, 90);
            let t = i * 7 + rng.below(span);
            ev.push(Ev { tick: t, k: K::On { ch, note, vel: 80 } });
            ev.push(Ev { tick: t + 1 + rng.below(span * 2), k: K::Off { ch, note, vel: 0 } });
        }
        ev.sort_by_key(|e| e.tick);
        let s = Smf { tpb: *rng.pick(&[24u16, 96, 480]), tracks: vec![ev], eot_delta: vec![0] };
        return Ok((s.to_bytes(Smf::random_opts(rng)), format!("{} random notes on 16 channels", n)));
    }
    if mode == 2 {
        // unbalanced notes, zero-length notes, controllers only, nothing at all
        let mut ev = vec![];
        let n = rng.us(0, 60);
        let mut t = 0;
        for _ in 0..n {
            let ch = rng.byte(0, 3);
            let note = rng.byte(60, 62);
            let k = match rng.below(6) {
                0 | 1 => K::On { ch, note, vel: 80 },
                2 | 3 => K::Off { ch, note, vel: 0 },
                4 => K::On { ch, note, vel: 0 },
                _ => K::Cc { ch, ctl: *rng.pick(&[5u8, 7, 37, 65, 120, 123]), val: rng.byte(0, 127) },
            };
            ev.push(Ev { tick: t, k });
            if rng.chance(1, 2) {
                t += rng.below(60);
            }
        }
        let s = Smf { tpb: *rng.pick(&[1u16, 24, 96]), tracks: vec![ev], eot_delta: vec![0] };
        return Ok((s.to_bytes(Smf::random_opts(rng)), format!("{} unbalanced events", n)));
    }
    if mode == 4 {
        // a proper file with events that are rarely seen
        let mut st = Style::all();
        st.max_notes = rng.us(1, 20);
        st.long = false;
        let mut p = gen_piece(rng, &st);
        let mut what = String::new();
        for _ in 0..rng.us(1, 4) {
            let t = rng.us(0, p.smf.tracks.len() - 1);
            let tick = match p.smf.tracks[t].last() {
                Some(e) => rng.below(e.tick + 2),
                None => 0,
            };
            let ch = rng.byte(0, 15);
            let k = match rng.below(12) {
                0 | 1 => K::Tempo(*rng.pick(&[0u32, 1, 2, 100, 234_375, 235_294, 0xffffff, 0x800000, 60_000_000 & 0xffffff])),
                2 => K::Meta(0x51, (0..rng.us(0, 6)).map(|_| rng.byte(0, 255)).collect()),
                3 => K::Meta(*rng.pick(&[0x58u8, 0x59, 0x54, 0x20, 0x21, 0x00, 0x7f, 0x60]), (0..rng.us(0, 6)).map(|_| rng.byte(0, 255)).collect()),
                4 => K::Meta(rng.byte(1, 7), (0..rng.us(0, 300)).map(|_| rng.byte(0, 255)).collect()),
                5 => K::SysEx(0xf0, (0..rng.us(0, 5)).map(|_| rng.byte(0, 127)).chain(Some(0xf7)).collect()),
                6 => K::Pc { ch, prog: rng.byte(0, 127) },
                7 => K::Cc { ch: rng.byte(0, 3), ctl: *rng.pick(&[0u8, 5, 7, 37, 65, 84, 98, 101, 120, 123, 126, 127]), val: *rng.pick(&[0u8, 1, 63, 64, 127]) },
                8 => K::On { ch: rng.byte(0, 9), note: *rng.pick(&[0u8, 1, 11, 12, 23, 24, 95, 96, 126, 127]), vel: *rng.pick(&[1u8, 7, 8, 127]) },
                9 => K::Off { ch: rng.byte(0, 9), note: rng.byte(0, 127), vel: 127 },
                10 => K::Bend { ch, val: *rng.pick(&[0u16, 16383, 8192]) },
                _ => K::Pressure { ch, val: rng.byte(0, 127) },
            };
            what += &format!(" {:?}@{}", k, tick).chars().take(60).collect::<String>();
            p.smf.tracks[t].push(Ev { tick, k });
            p.smf.tracks[t].sort_by_key(|e| e.tick);
        }
        return Ok((p.smf.to_bytes(Smf::random_opts(rng)), format!("odd events:{}", what)));
    }
    let mut st = Style::all();
    st.max_notes = *rng.pick(&[3usize, 20, 80]);
    st.long = false;
    st.porta = rng.chance(1, 2);
    let p = gen_piece(rng, &st);
    let o = Smf::random_opts(rng);
    let mut d = p.smf.to_bytes(o);
    let mut what = String::new();
    for _ in 0..rng.us(1, 2) {
        if d.len() < 30 {
            break;
        }
        what += " ";
        if rng.chance(1, 2) {
            what += &mutate_midi(rng, &mut d);
        } else {
            what += &mutate_bytes(rng, &mut d);
        }
    }
    Ok((d, what))
}

fn fuzz_midi(case: &mut Case) -> Res {
    let (d, what) = hostile_midi(case)?;
    case.count("midi_inputs", 1);
    case.count("midi_bytes", d.len() as u64);
    case.sig(hash_bytes(&d));
    case.write("f.mid", &d);
    let what = format!("MIDI file ({})", what);
    let opt = case.rng.chance(2, 3);
    let k = case.rng.below(6);
    match k {
        0 => {
            let r = case.run_opts(&["dump_midi", "f.mid"], opts());
            judge(case, &r, None, &what)?;
        }
        1 | 2 => {
            let r = if opt { case.run_opts(&["midi2json", "f.mid", "o.json"], opts()) } else { case.run_opts(&["-s", "midi2json", "f.mid", "o.json"], opts()) };
            judge(case, &r, None, &what)?;
            if r.ok() {
                // what it exported is a song the tool itself accepts
                let rom = RomCfg::single(0x2f00, 0xa000).build();
                case.write("r.smc", &rom.data);
                let r = case.run_opts(&["file_select", "o.json", "r.smc"], opts());
                judge(case, &r, Some(("r.smc", &rom.data)), &what)?;
                if !r.ok() && crate::common::why_rejected(case, "o.json", &r).is_none() {
                    viol!("{}: its own JSON export is refused: {}", what, r.brief());
                }
                if r.ok() {
                    let after = Rom { data: case.read("r.smc"), ptrs: rom.ptrs };
                    crate::common::decode_file_select(&after)?;
                }
            }
        }
        3 => {
            let rom = small_rom(&mut case.rng);
            case.write("r.smc", &rom.data);
            let r = case.run_opts(&["all_overworld", "f.mid", "r.smc"], opts());
            judge(case, &r, Some(("r.smc", &rom.data)), &what)?;
        }
        _ => {
            let rom = small_rom(&mut case.rng);
            case.write("r.smc", &rom.data);
            let mut args = vec![];
            if !opt {
                args.push("-s");
            }
            if case.rng.chance(1, 8) {
                args.push("-v");
            }
            args.extend(&["file_select", "f.mid", "r.smc"]);
            let r = case.run_opts(&args, opts());
            judge(case, &r, Some(("r.smc", &rom.data)), &what)?;
        }
    }
    Ok(())
}

fn odd_value(rng: &mut Rng) -> Value {
    match rng.below(20) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(255),
        5 => json!(256),
        6 => json!(1e300),
        7 => json!(0.5),
        8 => json!(u64::MAX),
        9 => json!(""),
        10 => json!("Tie"),
        11 => json!([]),
        12 => json!({}),
        13 => json!([0]),
        14 => json!({"CallLoop": [0, 1]}),
        15 => json!({"CallLoop": [1000000, 255]}),
        16 => json!({"CallLoop": [rng.below(12), *rng.pick(&[0u64, 1, 2, 255])]}),
        17 => json!({"Note": *rng.pick(&[0u64, 1, 0x7f, 0x80, 0xc7, 0xc8, 0xff])}),
        18 => json!(128),
        _ => json!(rng.below(200)),
    }
}

/// replaces, deletes or duplicates random nodes of a JSON value
fn mutate_json(rng: &mut Rng, v: &mut Value, depth: u32) {
    match v {
        Value::Array(a) if !a.is_empty() && !(depth > 0 && rng.chance(1, 7)) => {
            let i = rng.us(0, a.len() - 1);
            match rng.below(8) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.insert(i, x);
                }
                2 => {
                    a[i] = odd_value(rng);
                }
                _ => mutate_json(rng, &mut a[i], depth + 1),
            }
        }
        Value::Object(o) if !o.is_empty() && !(depth > 0 && rng.chance(1, 7)) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = rng.pick(&keys).clone();
            match rng.below(8) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let x = o.remove(&k).unwrap();
                    o.insert("Other".into(), x);
                }
                _ => mutate_json(rng, o.get_mut(&k).unwrap(), depth + 1),
            }
        }
        _ => *v = odd_value(rng),
    }
}

fn fuzz_json(case: &mut Case) -> Res {
    let rng = &mut case.rng;
    let gs = GenSong { max_tracks: rng.us(1, 8), max_cmds: *rng.pick(&[1usize, 5, 20]), loops: rng.chance(1, 2), all_ops: true };
    let s = gs.gen(rng);
    let mut val = s.to_value();
    let what;
    let mode = rng.below(12);
    let nt = s.tracks.len() as u64;
    let mut text: Option<Vec<u8>> = None;
    match mode {
        0 => {
            val["parts"] = match rng.below(8) {
                0 => json!([]),
                1 => json!([{"tracks": []}]),
                2 => json!([{"tracks": [0]}, {"tracks": [0]}]),
                3 => json!([{"tracks": [nt]}]),
                4 => json!([{"tracks": [u64::MAX]}]),
                5 => json!([{"tracks": [0, 0, 0, 0, 0, 0, 0, 0, 0]}]),
                6 => json!([{"tracks": vec![0; 300]}]),
                _ => json!([{"tracks": [0]}, {"tracks": []}]),
            };
            what = format!("parts {}", val["parts"]);
        }
        1 => {
            // calls to anywhere, nested, recursive
            let t = rng.below(nt) as usize;
            let target = *rng.pick(&[t as u64, 0, nt, nt - 1, 1 << 40]);
            let n = *rng.pick(&[0u64, 1, 255]);
            let call = json!({"duration": 0, "velocity": 0, "sustain": 0, "command": {"CallLoop": [target, n]}});
            let at = if rng.chance(1, 2) { 0 } else { s.tracks[t].len() };
            if let Some(a) = val["tracks"][t]["commands"].as_array_mut() {
                a.insert(at, call);
            }
            what = format!("call of {} x{} in track {} of {}", target, n, t, nt);
        }
        2 => {
            let d = rng.us(10, 4000);
            let mut x = "[".repeat(d);
            x += &"]".repeat(d);
            text = Some(x.into_bytes());
            what = format!("{} nested arrays", d);
        }
        3 => {
            let mut d = s.to_json();
            what = mutate_bytes(rng, &mut d);
            text = Some(d);
        }
        4 => {
            let mut d = s.to_json();
            let n = rng.us(0, d.len());
            d.truncate(n);
            text = Some(d);
            what = format!("truncated to {}", n);
        }
        5 => {
            // extreme running values
            let mut cmds = vec![];
            for _ in 0..rng.us(1, 12) {
                let d = odd_byte(rng);
                let v = odd_byte(rng);
                let q = odd_byte(rng);
                let c = match rng.below(4) {
                    0 => json!("Tie"),
                    1 => json!("Rest"),
                    2 => json!({"Note": *rng.pick(&[0u8, 0x7f, 0x80, 0xa0, 0xc7, 0xc8, 0xe0, 0xff])}),
                    _ => json!({"Pan": 10}),
                };
                cmds.push(json!({"duration": d, "velocity": v, "sustain": q, "command": c}));
            }
            val = json!({"parts": [{"tracks": [0]}], "tracks": [{"commands": cmds}]});
            what = "extreme fields".into();
        }
        6 => {
            let n = *rng.pick(&[9usize, 20, 300]);
            let t = val["tracks"][0].clone();
            if let Some(a) = val["tracks"].as_array_mut() {
                for _ in 0..n {
                    a.push(t.clone());
                }
            }
            what = format!("{} more tracks", n);
        }
        7 => {
            text = Some(rng.pick(&[&b""[..], b"null", b"[]", b"{}", b"7", b"\"x\"", b"\xff\xfe", b"{\"parts\":1,\"tracks\":2}", b"{\"parts\":[],\"tracks\":[]}"]).to_vec());
            what = format!("{:?}", String::from_utf8_lossy(text.as_ref().unwrap()));
        }
        _ => {
            let n = rng.us(1, 4);
            for _ in 0..n {
                mutate_json(rng, &mut val, 0);
            }
            what = format!("{} changed nodes", n);
        }
    }
    let d = text.unwrap_or_else(|| val.to_string().into_bytes());
    case.count("json_inputs", 1);
    case.sig(hash_bytes(&d));
    case.write("f.json", &d);
    let what = format!("JSON song ({})", what);
    let rom = if case.rng.chance(1, 3) {
        let main = 0x50 + case.rng.us(0, 400);
        let over = case.rng.us(1, 400);
        RomCfg::single(main, over).build()
    } else {
        small_rom(&mut case.rng)
    };
    case.write("r.smc", &rom.data);
    let cmd = if case.rng.chance(1, 4) { "all_overworld" } else { "file_select" };
    let v = case.rng.chance(1, 6);
    let r = if v { case.run_opts(&["-v", cmd, "f.json", "r.smc"], opts()) } else { case.run_opts(&[cmd, "f.json", "r.smc"], opts()) };
    judge(case, &r, Some(("r.smc", &rom.data)), &what)?;
    if r.ok() && cmd == "file_select" {
        // an accepted song is one the driver can play
        let after = Rom { data: case.read("r.smc"), ptrs: rom.ptrs };
        let bi = after.bank(0).map_err(|e| Fail::Violation(e))?;
        match after.decode_slot(&bi, 0, 10) {
            Ok(_) => {}
            // (a JSON track may leave its first notes without a duration: what it says is what is written)
            Err(e) if e.contains("before any duration") => case.count("songs_without_first_duration", 1),
            Err(e) => viol!("{}: accepted, but the ROM does not decode: {}", what, e),
        }
        case.count("accepted_songs_decoded", 1);
    }
    Ok(())
}

fn odd_byte(rng: &mut Rng) -> Value {
    match rng.below(9) {
        0 => Value::Null,
        1 => json!(0),
        2 => json!(1),
        3 => json!(7),
        4 => json!(8),
        5 => json!(15),
        6 => json!(16),
        7 => json!(127),
        _ => json!(*rng.pick(&[128u8, 255, 200])),
    }
}

fn fuzz_manifest(case: &mut Case) -> Res {
    let st = Style { max_notes: 10, long: false, ..Style::all() };
    let p = gen_piece(&mut case.rng, &st);
    case.write("a.mid", &p.smf.to_bytes(WriteOpts::default()));
    case.write("a.json", br#"{"parts":[{"tracks":[0]}],"tracks":[{"commands":[{"duration":24,"velocity":10,"sustain":7,"command":{"Note":150}}]}]}"#);
    std::fs::create_dir_all(case.path("dir.mid")).unwrap();
    std::fs::create_dir_all(case.path("sub/dir.json")).unwrap();
    let rng = &mut case.rng;
    let mut man = build::manifest_with(|_, _| json!({"input": "a.json"}));
    let b = rng.us(0, 2);
    let i = rng.us(0, SLOTS[b] - 1);
    let (bn, sn) = (build::NAMES[b].0, build::NAMES[b].1[i]);
    let mut text = None;
    let what;
    match rng.below(9) {
        0 | 1 => {
            let input = rng
                .pick(&["", ".", "..", "/", "../", "dir.mid", "sub/dir.json", "a.mid/", "a.mid/x.mid", "\u{0}", "a\u{0}.mid", "\u{1F3B5}.mid", "//", "sub/..", "sub/../a.json", "a.json/..", "a.mid/..", "/dev/null", "no.mid", "no"])
                .to_string();
            man[bn][sn]["input"] = json!(input);
            what = format!("input {:?} for {}/{}", input, bn, sn);
        }
        2 => {
            let long = "x".repeat(rng.us(200, 6000));
            man[bn][sn]["input"] = json!(format!("{}.mid", long));
            what = "very long input name".into();
        }
        3 => {
            let x = match rng.below(8) {
                0 => json!(1e40),
                1 => json!(-1e40),
                2 => json!(-3),
                3 => json!(1e-40),
                4 => json!("0.5"),
                5 => json!(null),
                6 => json!(0),
                _ => json!([1]),
            };
            what = format!("tempoAdjust {}", x);
            man[bn][sn]["input"] = json!("a.mid");
            man[bn][sn]["tempoAdjust"] = x;
        }
        4 => {
            let x = odd_value(rng);
            what = format!("loop {}", x);
            man[bn][sn]["loop"] = x;
        }
        5 => {
            let x = odd_value(rng);
            what = format!("{} for {}/{}", x, bn, sn);
            if rng.chance(1, 2) {
                man[bn][sn] = x;
            } else if rng.chance(1, 2) {
                man[bn] = x;
            } else {
                man = x;
            }
        }
        6 => {
            let mut d = man.to_string().into_bytes();
            what = mutate_bytes(rng, &mut d);
            text = Some(d);
        }
        7 => {
            let mut m = Map::new();
            for k in ["overworld", "indoor", "ending"] {
                if rng.chance(1, 2) {
                    m.insert(k.into(), man[k].clone());
                }
            }
            m.insert("Unknown".into(), json!(1));
            man = Value::Object(m);
            what = "banks missing".into();
        }
        _ => {
            let n = rng.us(1, 4);
            for _ in 0..n {
                mutate_json(rng, &mut man, 0);
            }
            what = format!("{} changed nodes", n);
        }
    }
    let d = text.unwrap_or_else(|| man.to_string().into_bytes());
    case.count("manifest_inputs", 1);
    case.sig(hash_bytes(&d));
    case.write("m.json", &d);
    let rom = small_rom(&mut case.rng);
    case.write("r.smc", &rom.data);
    let r = case.run_opts(&["build_rom", "m.json", "r.smc"], opts());
    judge(case, &r, Some(("r.smc", &rom.data)), &format!("manifest ({})", what))
}

fn fuzz_rom(case: &mut Case) -> Res {
    let rng = &mut case.rng;
    let mut cfg = RomCfg::random(rng);
    cfg.ptrs = DEFAULT_PTRS;
    cfg.min_size = 0x1000;
    let rom = cfg.build();
    let mut d = rom.data.clone();
    let b = rng.us(0, 2);
    let bi = rom.bank(b).map_err(Fail::Inconclusive)?;
    let what = match rng.below(14) {
        0 => {
            let n = *rng.pick(&[0usize, 1, 0x913, 0x914, 0x915, 0x91c, 0x91d, 0x932, 0x93a, 0x93b]);
            d.truncate(n);
            format!("cut to {:x}", n)
        }
        1 => {
            let n = rng.us(0, d.len());
            d.truncate(n);
            format!("cut to {:x}", n)
        }
        2 => {
            let base = DEFAULT_PTRS[b] as usize;
            for o in [0, 4, 8] {
                d[base + o] = rng.byte(0, 255);
            }
            format!("random pointer for bank {}", b)
        }
        3 => {
            let base = DEFAULT_PTRS[b] as usize;
            for o in [0, 4, 8] {
                d[base + o] = *rng.pick(&[0u8, 0xff, 0x80, 0x7f]);
            }
            format!("extreme pointer for bank {}", b)
        }
        4 => {
            // the last chunk continues
            let h = bi.chunks.last().unwrap().hdr;
            d[h] = rng.byte(0, 255);
            d[h + 1] = rng.byte(0, 255);
            format!("chain of bank {} does not end", b)
        }
        5 => {
            let c = rng.pick(&bi.chunks).hdr;
            d[c] = rng.byte(0, 255);
            d[c + 1] = *rng.pick(&[0u8, 0xff, 0x40]);
            format!("chunk length at {:x}", c)
        }
        6 => {
            // main or overflow chunk without room
            let c = if rng.chance(1, 2) { bi.main().hdr } else { bi.over().hdr };
            let l = *rng.pick(&[0u16, 1, 2, 0x1d, 0x35, 0x36, 0x37, 0x45, 0x46, 0x47, 0x5d]);
            d[c] = l as u8;
            d[c + 1] = (l >> 8) as u8;
            format!("chunk at {:x} has length {:x}", c, l)
        }
        7 => {
            let h = bi.main().hdr;
            d[h + 2] = rng.byte(0, 255);
            d[h + 3] = rng.byte(0, 255);
            format!("bank {} has no song chunk", b)
        }
        8 => {
            // two song chunks
            let h = bi.over().hdr;
            d[h + 2] = 0;
            d[h + 3] = 0xd0;
            format!("bank {} has two song chunks", b)
        }
        9 => {
            for x in d.iter_mut() {
                *x = rng.byte(0, 255);
            }
            "random bytes".into()
        }
        11 | 12 => {
            // the last bank's chain ends with (or after) a tiny overflow area at the end of the file
            let bi = rom.bank(2).map_err(Fail::Inconclusive)?;
            let main = *rng.pick(&[0x46usize, 0x47, 0x50, 0x5a, 0x60, 0x400]);
            let h = bi.main().hdr;
            d[h] = main as u8;
            d[h + 1] = (main >> 8) as u8;
            let o = h + 4 + main;
            let over = rng.us(0, 40);
            if d.len() < o + 4 + over {
                d.resize(o + 4 + over, 0);
            }
            d[o..o + 4].copy_from_slice(&[over as u8, 0, 0, 0x29]);
            let tail = *rng.pick(&[0usize, 0, 1, 3, 4, 4, 4]);
            d.truncate(o + 4 + over);
            d.extend(vec![0; tail]);
            format!("file ends {} bytes after an overflow area of {} bytes, main area {:x}", tail, over, main)
        }
        10 => {
            let b = *rng.pick(&[0u8, 0xff, 0x80]);
            for x in d.iter_mut() {
                *x = b;
            }
            format!("all {:02x}", b)
        }
        _ => {
            // the same bank for all
            for i in 0..3usize {
                for o in [0usize, 4, 8] {
                    d[DEFAULT_PTRS[i] as usize + o] = d[DEFAULT_PTRS[b] as usize + o];
                }
            }
            "three pointers to one bank".into()
        }
    };
    case.count("rom_inputs", 1);
    case.sig(hash_bytes(&d));
    case.write("r.smc", &d);
    case.write("a.json", br#"{"parts":[{"tracks":[0]}],"tracks":[{"commands":[{"duration":24,"velocity":10,"sustain":7,"command":{"Note":150}}]}]}"#);
    let what = format!("ROM ({})", what);
    if case.rng.chance(1, 3) {
        let r = case.run_opts(&["gen_fake_rom", "r.smc", "o.smc"], opts());
        judge(case, &r, Some(("r.smc", &d)), &what)?;
        if case.read("r.smc") != d {
            viol!("{}: gen_fake_rom changed its input", what);
        }
        Ok(())
    } else {
        let cmd = if case.rng.chance(1, 2) { "all_overworld" } else { "file_select" };
        let v = case.rng.chance(1, 4);
        let r = if v { case.run_opts(&["-v", cmd, "a.json", "r.smc"], opts()) } else { case.run_opts(&[cmd, "a.json", "r.smc"], opts()) };
        judge(case, &r, Some(("r.smc", &d)), &what)
    }
}

fn fuzz_args(case: &mut Case) -> Res {
    use std::os::unix::ffi::OsStringExt;
    let rng = &mut case.rng;
    let rom = small_rom(rng);
    case.write("r.smc", &rom.data);
    case.write("a.json", br#"{"parts":[{"tracks":[0]}],"tracks":[{"commands":[{"duration":24,"velocity":10,"sustain":7,"command":{"Note":150}}]}]}"#);
    let st = Style { max_notes: 10, long: false, ..Style::all() };
    let p = gen_piece(&mut case.rng, &st);
    case.write("a.mid", &p.smf.to_bytes(WriteOpts::default()));
    case.write("m.json", build::manifest_with(|_, _| json!({"input": "a.json"})).to_string().as_bytes());
    std::fs::create_dir_all(case.path("d")).unwrap();
    let odd: OsString = OsString::from_vec(b"bad\xff\xfe.mid".to_vec());
    std::fs::write(case.dir.join(&odd), b"MThd").unwrap();
    let rng = &mut case.rng;
    let mut args: Vec<OsString> = vec![];
    match rng.below(3) {
        0 => {
            let a = *rng.pick(&[
                "ffffffff,ffffffff,ffffffff", "fffffff8,0,0", "7fffffff,80000000,ffff", "zz,1,2", "1,2", "1,2,3,4", "", ",,", "0,0,0", "914,926,ffffff", "-1,2,3",
                "100000000,1,1", "914 ,926,932", "0x914,0x926,0x932", "+914,926,932", "914,926,932", "8914,8926,8932",
            ]);
            let cmd = *rng.pick(&["build_rom", "all_overworld", "file_select", "gen_fake_rom"]);
            let (i, o) = match cmd {
                "build_rom" => ("m.json", "r.smc"),
                "gen_fake_rom" => ("r.smc", "o.smc"),
                _ => ("a.json", "r.smc"),
            };
            for x in [cmd, i, o] {
                args.push(x.into());
            }
            if cmd != "gen_fake_rom" || rng.chance(1, 2) {
                args.push(format!("--bank_addrs={}", a).into());
            }
        }
        1 => {
            let cmd = *rng.pick(&["build_rom", "all_overworld", "file_select", "gen_fake_rom", "midi2json", "dump_midi"]);
            let paths: Vec<OsString> = vec![
                "".into(), ".".into(), "/".into(), "d".into(), "no".into(), "no/such/file".into(), odd.clone(), "a.mid".into(), "a.json".into(), "m.json".into(), "d/..".into(), "a.mid/x".into(), "..".into(),
            ];
            args.push(cmd.into());
            args.push(rng.pick(&paths).clone());
            if cmd != "dump_midi" {
                // never a path outside the case's directory as output
                let outs: Vec<OsString> = vec!["r.smc".into(), "r.smc".into(), "d".into(), "no/such/file".into(), "".into(), ".".into()];
                args.push(rng.pick(&outs).clone());
            }
        }
        _ => {
            let n = rng.us(0, 4);
            let words = ["build_rom", "-s", "-v", "--nonsense", "a.mid", "r.smc", "file_select", "midi2json", "--bank_addrs", "-h", "--help", "--", "all_overworld", "d"];
            for _ in 0..n {
                args.push((*rng.pick(&words)).into());
            }
        }
    }
    let what = format!("arguments {:?}", args);
    case.count("argument_inputs", 1);
    case.sig(hash_bytes(what.as_bytes()));
    let before = rom.data.clone();
    let r = case.run_os(&args, opts());
    let writes_elsewhere = args.iter().any(|a| a == "midi2json" || a == "gen_fake_rom");
    judge(case, &r, if writes_elsewhere { None } else { Some(("r.smc", &before)) }, &what)
}

pub fn c13(case: &mut Case) -> Res {
    let k = case.rng.weighted(&[5, 4, 2, 3, 1]);
    let r = match k {
        0 => fuzz_midi(case),
        1 => fuzz_json(case),
        2 => fuzz_manifest(case),
        3 => fuzz_rom(case),
        _ => fuzz_args(case),
    };
    if case.sample.is_none() {
        let kind = ["midi", "json", "manifest", "rom", "arguments"][k];
        case.sample = Some(json!({"case": case.idx, "kind": kind, "command": case.last_cmd}));
    }
    r
}
